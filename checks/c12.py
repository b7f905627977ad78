"""C12: Hessian-vector and inverse-Hessian-vector products against dense float64 algebra,
LiSSA against its recursion for every outcome of the batch sampler."""

from __future__ import annotations

import itertools
import math

import torch

PID = "C12"
LEVEL = "exploration"
RULE = ("every function x differentiated argument x differentiation mode x vector stack x "
        "regularisation x dtype; LiSSA: every sequence of sampled batches up to the depth "
        "bound, enumerated by driving the sampler; non-trivial = distinct products")
ASSUMPTIONS = ["iterative solvers on problems with condition number below 100",
               "Arnoldi on Hessians with distinct eigenvalues (Krylov methods cannot "
               "separate repeated ones)",
               "LiSSA draws batches from torch.randperm; the batch really used is observed "
               "through collate_fn"]


# ---- functions: name -> (callable, list of arguments, differentiable positions, convex)
def problems(dtype):
    g = torch.Generator().manual_seed(11)
    r = lambda *s: torch.randn(*s, generator=g, dtype=torch.float64)
    m = r(4, 4)
    spd = (m @ m.T / 4 + torch.diag(torch.tensor([0.5, 1.0, 1.7, 2.6], dtype=torch.float64))).to(dtype)
    ind = torch.diag(torch.tensor([-2.0, -0.7, 1.1, 3.0], dtype=torch.float64)).to(dtype)
    u = r(4, 4).to(dtype)
    xs, th, ys = r(6, 3).to(dtype), r(3).to(dtype), r(6).to(dtype)
    lab = torch.tensor([0, 1, 1, 0, 1, 0])

    def quad(x):
        return 0.5 * x @ spd.to(x.dtype) @ x + x.sum()

    def indef(x):
        return 0.5 * x @ ind.to(x.dtype) @ x

    def quart(x):
        return 0.5 * x @ spd.to(x.dtype) @ x + 0.1 * (x ** 4).sum()

    def two(x, y):
        return (0.5 * x @ spd.to(x.dtype) @ x + (1 + (y ** 2).sum()) * (x ** 2).sum() * 0.1
                + (y ** 4).sum() * 0.2 + (y ** 2 * torch.arange(1, 4, dtype=y.dtype)).sum() + x[0] * y[1])

    def mse(xs, ys, theta):
        return torch.mean((xs @ theta - ys) ** 2) + 0.1 * (theta ** 4).sum()

    def logit(theta, data):
        x, y = data
        z = x @ theta
        return torch.nn.functional.softplus(torch.where(y > 0, -z, z)).mean() \
            + (theta ** 2 * torch.arange(1, 4, dtype=theta.dtype)).sum() * 0.2

    def logitd(theta, data):
        return logit(theta, (data["x"], data["y"]))

    q12 = torch.linalg.qr(r(12, 12))[0]
    wide12 = (q12 @ torch.diag(torch.linspace(0.6, 3.1, 12, dtype=torch.float64))
              @ q12.T).to(dtype)
    x12 = r(12).to(dtype)

    def wide(x):
        return 0.5 * x @ wide12.to(x.dtype) @ x - x.sum()

    x4, y3 = r(4).to(dtype), r(3).to(dtype)
    return {
        "quad": (quad, [x4], (0,), True), "indef": (indef, [x4], (0,), False),
        "wide": (wide, [x12], (0,), True),
        "quart": (quart, [x4], (0,), True), "two": (two, [x4, y3], (0, 1), True),
        "mse": (mse, [xs, ys, th], (2,), True),
        "logit": (logit, [th, (xs, lab)], (0,), True),
        "logitd": (logitd, [th, {"x": xs, "y": lab}], (0,), True),
    }


NAMES = ["quad", "indef", "quart", "two", "mse", "logit", "logitd", "wide"]
SHORT = ["quad", "mse", "two"]


def cases(tier):
    for name, dt in itertools.product(NAMES, ("f32", "f64")):
        for arg in ((0, 1) if name == "two" else (2,) if name == "mse" else (0,)):
            for mode in ("rev-rev", "rev-fwd"):
                yield {"id": f"hvp-{name}-a{arg}-{mode}-{dt}", "kind": "hvp", "name": name,
                       "arg": arg, "mode": mode, "dt": dt}
                for sol in ("explicit", "cg", "arnoldi"):
                    if sol == "explicit" and mode == "rev-fwd":
                        continue
                    yield {"id": f"{sol}-{name}-a{arg}-{mode}-{dt}", "kind": "solve", "sol": sol,
                           "name": name, "arg": arg, "mode": mode, "dt": dt}
    more = [(1, 1, 3, 14, 1), (1, 1, 5, 9, 2), (2, 1, 1, 10, 1), (2, 2, 3, 3, 1)] + [
        (n, bs, 1, 1, 1) for n in (4, 5) for bs in range(1, n + 1)]
    for n, bs, rep, depth, rows in more + list(itertools.product(
            (1, 2, 3), (1, 2, 3, 4), (1, 2), (0, 1, 2, 3, 4), (1, 2))):
        perms = math.factorial(n)
        total = perms ** (rep * depth)
        if total > (1300 if tier == "quick" else 50000) or bs > n + 1:
            continue
        if rows == 2 and total > 40:
            continue
        yield {"id": f"lissa-n{n}b{bs}r{rep}d{depth}v{rows}", "kind": "lissa", "n": n, "bs": bs,
               "rep": rep, "depth": depth, "rows": rows}
    yield {"id": "lissa-dims", "kind": "dims"}
    yield {"id": "lissa-blind", "kind": "blind"}
    yield {"id": "refuse", "kind": "refuse"}


def dense(case):
    """Float64 Hessian of the chosen argument."""
    f, args, _, _ = problems(torch.float64)[case["name"]]
    # the float32 problem has float32 data: use the rounded values
    if case["dt"] == "f32":
        _, a32, _, _ = problems(torch.float32)[case["name"]]
        args = [up(a) for a in a32]
        f = problems(torch.float32)[case["name"]][0]
    arg = case["arg"]

    def g(v):
        a = list(args)
        a[arg] = v
        return f(*a)
    return torch.autograd.functional.hessian(g, args[arg])


def up(a):
    if isinstance(a, torch.Tensor):
        return a.double() if a.is_floating_point() else a
    if isinstance(a, dict):
        return {k: up(v) for k, v in a.items()}
    return tuple(up(v) for v in a)


def vectors(d, dtype):
    g = torch.Generator().manual_seed(d)
    r = torch.randn(6, d, generator=g, dtype=torch.float64)
    e = torch.eye(d, dtype=torch.float64)
    return [z.to(dtype) for z in (
        e, r[:1], r[:3], torch.stack([r[0], r[0], 50 * r[1]]), torch.stack([0.01 * r[0], r[2]]))]


def run(case, ctx):
    return {"hvp": hvp_case, "solve": solve, "lissa": lissa, "dims": dims, "blind": blind,
            "refuse": refuse}[case["kind"]](case, ctx)


def close(ctx, case, key, got, want, what="", rtol=None):
    rtol = rtol or (2e-3 if case["dt"] == "f32" else 1e-5)
    got = torch.as_tensor(got)
    if tuple(got.shape) != tuple(want.shape):
        ctx.fail(key, f"{what} shape {tuple(got.shape)} expected {tuple(want.shape)}")
        return
    for i in range(len(want)):
        ctx.close(key, got[i], want[i], rtol=rtol, atol=1e-5, what=f"{what} row {i}")


def hvp_case(case, ctx):
    from dattri.func.hessian import hvp, hvp_at_x

    dt = torch.float32 if case["dt"] == "f32" else torch.float64
    f, args, _, _ = problems(dt)[case["name"]]
    h = dense(case)
    d = len(h)
    for reg in (0.0, 0.5):
        a = h + reg * torch.eye(d, dtype=h.dtype)
        at = hvp_at_x(f, tuple(args), argnums=case["arg"], mode=case["mode"], regularization=reg)
        fn = hvp(f, argnums=case["arg"], mode=case["mode"], regularization=reg)
        for vs in vectors(d, dt):
            for v in vs:
                w = a @ v.double()
                for key, got in (("hvp", fn(tuple(args), v)), ("hvp_at_x", at(v))):
                    ctx.execution()
                    ctx.outcome(got)
                    ctx.close(key, got, w, rtol=1e-4, atol=1e-5, what=f"reg={reg}")
            many = torch.func.vmap(at)(vs)
            ctx.close("hvp-vmap", many, vs.double() @ a, rtol=1e-4, atol=1e-5)


def solve(case, ctx):
    from dattri.func import hessian as H

    dt = torch.float32 if case["dt"] == "f32" else torch.float64
    f, args, _, convex = problems(dt)[case["name"]]
    h, arg, sol, mode = dense(case), case["arg"], case["sol"], case["mode"]
    d = len(h)
    if sol == "cg" and not convex:
        regs = (3.0, 5.0)  # makes it positive definite
    else:
        regs = (0.0, 0.3)
    for reg in regs:
        a = h + reg * torch.eye(d, dtype=h.dtype)
        inv = torch.linalg.inv(a)
        fns = []
        if sol == "explicit":
            fns = [("", lambda v: H.ihvp_explicit(f, argnums=arg, regularization=reg)(tuple(args), v)),
                   ("at_x", H.ihvp_at_x_explicit(f, *args, argnums=arg, regularization=reg))]
        elif sol == "cg":
            for it, tol in ((10 + d, 1e-7), (30, 1e-7), (30, 1e-3), (15, 1e-5)):
                kw = dict(argnums=arg, max_iter=it, tol=tol, mode=mode, regularization=reg)
                fns += [(f"it{it}tol{tol}", lambda v, kw=kw: H.ihvp_cg(f, **kw)(tuple(args), v)),
                        (f"at_x it{it}tol{tol}", H.ihvp_at_x_cg(f, *args, **kw))]
            fns.append(("defaults", H.ihvp_at_x_cg(f, *args, argnums=arg, regularization=reg)))
        else:
            for it in (d + 1, d + 4, 100):
                kw = dict(argnums=arg, max_iter=it, mode=mode, regularization=reg)
                fns += [(f"it{it}", lambda v, kw=kw: H.ihvp_arnoldi(f, **kw)(tuple(args), v)),
                        (f"at_x it{it}", H.ihvp_at_x_arnoldi(f, *args, **kw))]
            for k, c in itertools.product(range(1, d + 1), (1.0, 0.4, 3.0)):
                fns.append((f"top{k} const{c}", H.ihvp_at_x_arnoldi(
                    f, *args, argnums=arg, max_iter=50, top_k=k, norm_constant=c, mode=mode,
                    regularization=reg)))
        for name, fn in fns:
            use = inv
            if name.startswith("top"):
                k = int(name[3:].split()[0])
                lam, q = torch.linalg.eigh(a)
                keep = torch.argsort(lam.abs())[-k:]
                use = q[:, keep] @ torch.diag(1 / lam[keep]) @ q[:, keep].T
            for vs in vectors(d, dt):
                keep_v = vs.clone()
                got = fn(vs)
                ctx.execution()
                ctx.outcome(got)
                loose = 5e-3 if sol == "arnoldi" and case["dt"] == "f32" else None
                if "tol0.001" in name:  # early stop: the residual is small
                    res = (got.double() @ a - vs.double()).norm(dim=1)
                    lim = 1.5e-3 + 1e-4 * vs.double().norm(dim=1)
                    if not bool((res <= lim).all()):
                        ctx.fail("residual", f"{name} reg={reg}: {res.tolist()}")
                else:
                    close(ctx, case, "solve", got, vs.double() @ use, f"{name} reg={reg}", loose)
                if not torch.equal(vs, keep_v):
                    ctx.fail("input", f"{name} changed its input vectors")
            if name.startswith("at_x") or sol != "explicit":
                one = fn(vectors(d, dt)[1][0])
                close(ctx, case, "single", torch.as_tensor(one).reshape(1, -1),
                      vectors(d, dt)[1].double() @ use, f"{name} 1-d vector", 5e-3)


# ------------------------------------------------------------------ LiSSA
def lissa_problem(n):
    g = torch.Generator().manual_seed(40 + n)
    xs = torch.randn(n, 2, generator=g)
    ids = torch.arange(n).float()
    theta = torch.tensor([0.3, -0.8])

    def f(x, i, th):
        z = x @ th
        return ((z - 0.1 * i) ** 2).mean() + 0.05 * (th ** 4).sum() + 0.1 * (i.mean() + 1) * th[0] ** 2
    return f, xs, ids, theta


def hess(f, xs, ids, theta, batch):
    idx = list(batch)
    return torch.autograd.functional.hessian(
        lambda t: f(xs[idx].double(), ids[idx].double(), t), theta.double())


class Sampler:
    """Answers torch.randperm with scripted permutations."""

    def __init__(self, script):
        self.script, self.used = list(script), 0

    def __enter__(self):
        self.orig = torch.randperm
        torch.randperm = self.randperm
        return self

    def __exit__(self, *exc):
        torch.randperm = self.orig

    def randperm(self, n, *a, **k):
        self.used += 1
        if not self.script:
            return self.orig(n, *a, **k)
        p = self.script.pop(0)
        return torch.tensor(p if len(p) == n else list(range(n)))


def raw(t, row):
    """Value seen by one row of the vmapped call."""
    from torch._C import _functorch as F

    while F.is_batchedtensor(t):
        d = F.maybe_get_bdim(t)
        t = F.get_unwrapped(t)
        t = t.select(d, row)
    return t


def recursion(hs, v, damping, scaling):
    """One repetition of the recursion over the given batch Hessians."""
    est = v.double()
    for h in hs:
        est = v.double() + (1 - damping) * est - h @ est / scaling
    return est / scaling


def lissa(case, ctx):
    from dattri.func import hessian as H

    n, bs, rep, depth = case["n"], case["bs"], case["rep"], case["depth"]
    f, xs, ids, theta = lissa_problem(n)
    table = {b: hess(f, xs, ids, theta, b) for k in range(1, n + 1)
             for b in itertools.permutations(range(n), k)}
    v = torch.tensor([[1.0, -0.4], [0.2, 0.9]])[: case["rows"]]
    perms = list(itertools.permutations(range(n)))
    combo = 0
    for script in itertools.product(perms, repeat=rep * depth):
        combo += 1
        damping, scaling, mode, at_x = ((0.0, 7.0, "rev-rev", 0), (0.2, 11.0, "rev-fwd", 1),
                                        (0.05, 9.0, "rev-rev", 1))[combo % 3]
        seen = []

        def collate(inp, seen=seen):
            seen.append([tuple(int(i) for i in raw(inp[1], r).tolist()) for r in range(len(v))])
            return inp

        kw = dict(argnums=2, batch_size=bs, num_repeat=rep, recursion_depth=depth,
                  damping=damping, scaling=scaling, collate_fn=collate, mode=mode)
        with Sampler(script):
            if at_x:
                got = H.ihvp_at_x_lissa(f, xs, ids, theta, in_dims=(0, 0, None), **kw)(v)
            else:
                got = H.ihvp_lissa(f, **kw)((xs, ids, theta), v, in_dims=(0, 0, None))
        ctx.execution()
        ctx.step(rep * depth)
        ctx.outcome(got)
        if len(seen) != rep * depth:
            ctx.fail("depth", f"{len(seen)} batches used for {rep} repetitions of depth {depth}")
            return
        for r in range(len(v)):
            rows = [s[r] for s in seen]
            for b in rows:
                ctx.state(b.__repr__())
                if len(b) != min(bs, n) or len(set(b)) != len(b):
                    ctx.fail("batch", f"sampled batch {b}, batch size {bs}, {n} samples")
                    return
            want = sum(recursion([table[b] for b in rows[i * depth:(i + 1) * depth]], v[r],
                                 damping, scaling) for i in range(rep)) / rep
            if not ctx.close("lissa", got[r], want, rtol=1e-4, atol=1e-6,
                             what=f"batches {rows} damping {damping} scaling {scaling}"):
                return


def blind(case, ctx):
    """Without collate_fn: the result is one of the outcomes of the recursion, and all
    outcomes are reachable; with unequal parameters no role can be exchanged."""
    from dattri.func import hessian as H

    for n, bs, rep, depth in ((2, 1, 1, 3), (3, 2, 1, 2), (3, 1, 2, 1), (3, 3, 2, 1), (2, 1, 2, 2)):
        f, xs, ids, theta = lissa_problem(n)
        batches = {tuple(sorted(b)) for b in itertools.permutations(range(n), bs)}
        table = {b: hess(f, xs, ids, theta, b) for b in batches}
        v = torch.tensor([[1.0, -0.4]])
        reach = {}
        for seq in itertools.product(sorted(batches), repeat=rep * depth):
            w = sum(recursion([table[b] for b in seq[i * depth:(i + 1) * depth]], v[0], 0.1, 8.0)
                    for i in range(rep)) / rep
            reach[seq] = w
        hit = set()
        for script in itertools.product(itertools.permutations(range(n)), repeat=rep * depth):
            with Sampler(script):
                got = H.ihvp_at_x_lissa(f, xs, ids, theta, in_dims=(0, 0, None), argnums=2,
                                        batch_size=bs, num_repeat=rep, recursion_depth=depth,
                                        damping=0.1, scaling=8.0)(v)[0].double()
            ctx.execution()
            best = min(reach, key=lambda s: float((reach[s] - got).abs().max()))
            if float((reach[best] - got).abs().max()) > 1e-5:
                ctx.fail("unreachable", f"n={n} batch={bs} repeat={rep} depth={depth}: {got.tolist()} is "
                                        "no outcome of the recursion")
                return
            hit.add(best)
        ctx.count("outcomes_reached", len(hit))


def dims(case, ctx):
    """Other batch dimensions and data without a batch dimension."""
    from dattri.func import hessian as H

    f, xs, ids, theta = lissa_problem(3)

    def ft(th, xt, i):
        return f(xt.T, i, th)

    v = torch.tensor([[1.0, -0.4]])
    for perm in itertools.permutations(range(3)):
        for bs in (1, 2, 3):
            with Sampler([perm] * 2):
                got = H.ihvp_at_x_lissa(ft, theta, xs.T.contiguous(), ids, in_dims=(None, 1, 0), argnums=0,
                                        batch_size=bs, recursion_depth=2, damping=0.1, scaling=9.0)(v)
            ctx.execution()
            hs = {b: hess(f, xs, ids, theta, b) for b in itertools.combinations(range(3), bs)}
            ok = any(torch.allclose(recursion(s, v[0], 0.1, 9.0), got[0].double(), atol=1e-5)
                     for s in itertools.product(hs.values(), repeat=2))
            if not ok:
                ctx.fail("dims", f"{perm} batch {bs}")
    g = torch.Generator().manual_seed(0)
    with Sampler([]):
        got = H.ihvp_at_x_lissa(lambda t: (t ** 4).sum() + t.prod(), theta, in_dims=(None,), argnums=0,
                                recursion_depth=30, scaling=10.0)(v[0])
    h = torch.autograd.functional.hessian(lambda t: (t ** 4).sum() + t.prod(), theta.double())
    ctx.close("nodata", got[0], recursion([h] * 30, v[0], 0.0, 10.0), rtol=1e-3, atol=1e-5)
    del g


def refuse(case, ctx):
    from dattri.func import hessian as H

    f = problems(torch.float32)["quad"][0]
    x = problems(torch.float32)["quad"][1][0]
    for fn in (lambda: H.hvp(f, mode="fwd"), lambda: H.hvp_at_x(f, (x,), mode="rev"),
               lambda: H.ihvp_lissa(lambda a, b: (a @ b).sum())((torch.ones(3), torch.ones(2)), torch.ones(3)),
               lambda: H.ihvp_at_x_lissa(lambda a, b: (a @ b).sum(), torch.ones(3), torch.ones(3),
                                         in_dims=(0,))(torch.ones(3))):
        ctx.execution()
        try:
            fn()
        except H.IHVPUsageError:
            ctx.count("refused")
        else:
            ctx.fail("accepted", "an invalid call was accepted")
