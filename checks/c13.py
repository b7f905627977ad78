"""C13: Fisher inverse products and EK-FAC running statistics against dense averages."""

from __future__ import annotations

import itertools

import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

PID = "C13"
LEVEL = "exploration"
RULE = ("every composition of the data set into batches x iteration limit x layer shape x "
        "input rank x mask pattern; Fisher products for every argument, vector count and "
        "regularisation; non-trivial = distinct statistics observed")
ASSUMPTIONS = ["loss is the mean over the batch, as documented",
               "for unmasked sequences, covariances may be normalised per sample or per "
               "position (constant factor)"]


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k, *rest)


def cases(tier):
    n = 5 if tier == "quick" else 7
    for arg, rows, reg, dims in itertools.product((0, 1), (1, 2, 3), (0.1, 1.0), (3, 5)):
        yield {"id": f"ifvp-a{arg}r{rows}l{reg}d{dims}", "kind": "ifvp", "arg": arg,
               "rows": rows, "reg": reg, "dim": dims}
    for net, t, mask in itertools.product(("one", "two", "mixed"),
                                          (0, 1, 2, 3, 9, 10, 11, 12, 23, 70),
                                          ("none", "full", "ragged", "holes")):
        if mask != "none" and net == "mixed" and tier == "quick":
            continue
        yield {"id": f"stat-{net}-t{t}-{mask}", "kind": "stat", "net": net, "t": t,
               "mask": mask, "n": n}


class Net(nn.Module):
    """Linear layers recording (input, output) of each selected layer."""

    def __init__(self, kind, seed=0):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        sizes = {"one": [(3, 2)], "two": [(3, 4), (4, 2)], "mixed": [(3, 2), (2, 3), (3, 2)]}
        self.layers = nn.ModuleList(
            nn.Linear(i, o, bias=not (kind == "mixed" and k == 1))
            for k, (i, o) in enumerate(sizes[kind]))
        with torch.no_grad():
            for p in self.parameters():
                p.copy_(torch.randn(p.shape, generator=g) * 0.7)
        self.cache: dict = {}

    def forward(self, x):
        for k, lin in enumerate(self.layers):
            y = lin(x)
            a = x
            if lin.bias is not None:
                a = torch.cat([x, torch.ones(*x.shape[:-1], 1, dtype=x.dtype)], -1)
            if y.requires_grad:
                y.retain_grad()
            self.cache[f"l{k}"] = (a, y)
            x = torch.tanh(y)
        return x


def masks(kind, n, t):
    m = torch.ones(n, max(t, 1))
    if kind == "ragged":
        for i in range(n):
            m[i, 1 + i % max(t, 1):] = 0
        if t == 0:
            m[n // 2] = 0
    elif kind == "holes":
        m.view(-1)[1::3] = 0
    return m


def per_sample(out, y, m):
    """Loss of every sample; sequences add up their (valid) positions."""
    e = ((out - y) ** 2).sum(-1) + out[..., 0] * 0.3
    if e.ndim == 1:
        return e * m[:, 0]
    return (e * m).sum(-1)


def reference(case, x, y, m):
    net = Net(case["net"]).double()
    acc = []
    for i in range(len(x)):
        out = net(x[i:i + 1].double())
        loss = per_sample(out, y[i:i + 1].double(), m[i:i + 1].double()).sum()
        loss.backward()
        row = {}
        for k, (a, o) in net.cache.items():
            a, g = a.detach(), o.grad.detach()
            if a.ndim == 2:
                a, g = a[:, None], g[:, None]
            row[k] = (a[0] * m[i].double()[:, None], g[0])
        acc.append(row)
    return acc


def run(case, ctx):
    if case["kind"] == "ifvp":
        return ifvp(case, ctx)
    return stat(case, ctx)


def ifvp(case, ctx):
    from dattri.func.fisher import ifvp_at_x_explicit, ifvp_explicit

    d, arg, reg = case["dim"], case["arg"], case["reg"]
    g = torch.Generator().manual_seed(d)
    a, b = torch.randn(d, generator=g), torch.randn(d, generator=g)
    mat = torch.randn(d, d, generator=g)

    def f(p, q):
        return torch.sin(p @ mat @ q) + (p ** 3).sum() + (q ** 2).sum()

    def fd(vec):
        xs = [a.double(), b.double()]
        xs[arg] = vec
        return torch.sin(xs[0] @ mat.double() @ xs[1]) + (xs[0] ** 3).sum() + (xs[1] ** 2).sum()

    vec = (a, b)[arg].double().requires_grad_(True)
    (gr,) = torch.autograd.grad(fd(vec), vec)
    fim = torch.outer(gr, gr) + reg * torch.eye(d, dtype=torch.float64)
    v = torch.randn(case["rows"], d, generator=g)
    want = torch.linalg.solve(fim, v.double().T).T
    got = ifvp_explicit(f, argnums=arg, regularization=reg)((a, b), v)
    ctx.close("ifvp", got, want, rtol=1e-3, atol=1e-4, what="ifvp_explicit")
    fn = ifvp_at_x_explicit(f, a, b, argnums=arg, regularization=reg)
    for _ in range(2):
        ctx.close("ifvp-at-x", fn(v), want, rtol=1e-3, atol=1e-4, what="ifvp_at_x_explicit")
    ctx.close("ifvp-row", fn(v[:1]), want[:1], rtol=1e-3, atol=1e-4, what="one row")
    ctx.outcome(got)
    ctx.execution(4)


def stat(case, ctx):
    from dattri.func.fisher import estimate_covariance, estimate_eigenvector, estimate_lambda

    n, t = case["n"], case["t"]
    if t >= 10:
        n = 4
    g = torch.Generator().manual_seed(5)
    x = torch.randn((n, t, 3) if t else (n, 3), generator=g)
    out = Net(case["net"])(x)
    y = torch.randn(out.shape, generator=g)
    m = masks(case["mask"], n, t)
    rows = reference(case, x, y, m)
    ds = TensorDataset(x, y, m)
    for comp in compositions(n):
        idx, at = [], 0
        for c in comp:
            idx.append(list(range(at, at + c)))
            at += c
        if any(float(m[b].sum()) == 0 for b in idx):
            continue
        iters = sorted({None, 1, 2, len(comp)}, key=lambda z: (z is not None, z or 0))
        for it in iters:
            if it is not None and it > len(comp):
                continue
            used = at if it is None else sum(comp[:it])
            net = Net(case["net"])

            def func(batch, net=net):
                xb, yb, mb = batch
                loss = per_sample(net(xb), yb, mb).mean()
                return loss if case["mask"] == "none" else (loss, mb)

            dl = DataLoader(ds, batch_sampler=[list(b) for b in idx])
            cov = estimate_covariance(func, dl, net.cache, it)
            ctx.execution()
            ctx.step(len(comp) if it is None else it)
            cnt = float(m[:used].sum()) if case["mask"] != "none" else float(used)
            ok = ctx_eq(ctx, "layers", sorted(cov), sorted(rows[0]))
            for k in rows[0]:
                if not ok:
                    break
                ra = sum(r[k][0].T @ r[k][0] for r in rows[:used]) / cnt
                rs = sum(r[k][1].T @ r[k][1] for r in rows[:used]) / cnt
                if case["mask"] == "none" and t > 1 \
                        and abs(float(cov[k][0][0, 0]) * t / float(ra[0, 0]) - 1) < 1e-3:
                    ra, rs = ra / t, rs / t  # the per-position convention
                w = f"composition {comp} iterations {it} layer {k}"
                ok = ctx.close("cov-a", cov[k][0], ra, what=w) and \
                    ctx.close("cov-s", cov[k][1], rs, what=w)
            if not ok:
                return
            q = estimate_eigenvector(cov)
            for k in rows[0]:
                for j in (0, 1):
                    c, e = cov[k][j].double(), q[k][j].double()
                    ctx.close("orthonormal", e.T @ e, torch.eye(len(c)), atol=1e-5)
                    diag = e.T @ c @ e
                    ctx.close("diagonalises", diag, torch.diag(torch.diagonal(diag)),
                              atol=1e-5 * (1 + float(c.abs().max())), what=f"layer {k}")
            lam = estimate_lambda(func, dl, q, net.cache, it)
            for k in rows[0]:
                qa, qs = (z.double() for z in q[k])
                want = sum((qs.T @ (r[k][1].T @ r[k][0]) @ qa) ** 2
                           for r in rows[:used]) / used
                ok = ok and ctx.close("lambda", lam[k], want, rtol=1e-3, atol=1e-5,
                                      what=f"composition {comp} iterations {it} layer {k}")
            ctx.outcome([lam[k] for k in sorted(lam)])
            if not ok:
                return


def ctx_eq(ctx, key, got, want):
    if got != want:
        ctx.fail(key, f"{got} expected {want}")
        return False
    return True
