"""C05: representer-point scores follow the representer decomposition.

Reference, all in float64: the l2-regularised last layer is a strictly convex problem;
its minimiser is found by Newton's method on the dense problem, and the representer
weight of sample i for class c is -dL_i/dphi_c / (2 lambda n).  Compared

 * at the fine-tuned weights of the attributor (exact), for every ordered subset of the
   training samples, batching, class count, normalisation, cached or not;
 * with the minimiser (tolerance from the documented stopping rule), through the
   decomposition  sum_i score(i, t) = theta*_{y_t} . f_t ;
 * after every short history of cache / attribute calls.
"""

from __future__ import annotations

import itertools

import torch
from torch import nn
from torch.nn import functional as F
from torch.utils.data import DataLoader, TensorDataset

from mc import core

PID = "C05"
LEVEL = "exploration"
RULE = ("all ordered subsets of the training set x batchings x classes x normalisation x "
        "cache histories; non-trivial = distinct score matrices")
ASSUMPTIONS = ["mean-reduced cross-entropy / binary cross-entropy losses; the fine-tuned "
               "layer is the iterate accepted by the documented stopping rule"]


class Net(nn.Module):
    def __init__(self, d, c, bias):
        super().__init__()
        self.body = nn.Linear(2, d)
        self.head = nn.Linear(d, c, bias=bias)

    def forward(self, x):
        return self.head(torch.tanh(self.body(x)))


def model_of(c, d, bias, seed=0):
    g = torch.Generator().manual_seed(100 * c + 10 * d + seed)
    m = Net(d, c, bias)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g))
    return m


def loss_of(c):
    if c == 1:
        return lambda phi, y: F.binary_cross_entropy_with_logits(phi, y)
    return lambda phi, y: F.cross_entropy(phi, y)


def cases(tier):
    for c, d, bias in ((3, 2, True), (2, 3, False), (1, 2, True), (4, 2, True)):
        for norm in (False, True):
            for epoch in (1, 2, 60):
                yield {"id": f"sub-c{c}d{d}-{norm}-e{epoch}", "kind": "subset", "c": c,
                       "d": d, "bias": bias, "norm": norm, "epoch": epoch, "tier": tier}
        for norm in (False, True):
            yield {"id": f"large-c{c}d{d}-{norm}", "kind": "large", "c": c, "d": d,
                   "bias": bias, "norm": norm}
        for lam in (0.003, 0.05, 1.0):
            yield {"id": f"decomp-c{c}d{d}-l{lam}", "kind": "decomp", "c": c, "d": d,
                   "bias": bias, "lam": lam}
        for hist in itertools.product(("A", "B", "a", "b", "u"), repeat=3):
            yield {"id": f"hist-c{c}-{''.join(hist)}", "kind": "hist", "c": c, "d": d,
                   "bias": bias, "hist": list(hist)}


def data(c, n, seed=0):
    g = torch.Generator().manual_seed(7 + seed)
    x = torch.randn(n, 2, generator=g) * 1.5
    y = torch.tensor([(3 * i + 1 + seed) % max(c, 2) for i in range(n)])
    return x, y


def loader(x, y, idx, bs):
    idx = list(idx)
    return DataLoader(TensorDataset(x[idx], y[idx]), batch_size=bs)


def feats(m, x):
    with torch.no_grad():
        f = torch.tanh(m.body(x))
        return f.double(), m.head(f).double()


def probs(z):
    return torch.sigmoid(z) if z.shape[1] == 1 else torch.softmax(z, 1)


def alpha(theta, f, z, lam, n):
    """-dL_i/dphi / (2 lambda n) of mean-reduced (binary) cross-entropy."""
    return (probs(f @ theta.T) - probs(z)) / (-2.0 * lam * n)


def expected(theta, f, z, ft, yt, lam, n, norm):
    a = alpha(theta, f, z, lam, n)
    a = a[:, yt] if a.shape[1] > 1 else a
    if norm:
        f, ft = F.normalize(f), F.normalize(ft)
    return f @ ft.T * a


def minimiser(f, z, lam, theta0):
    """argmin of mean loss + lam |theta|^2 by damped Newton in float64."""
    target = probs(z)
    shape = theta0.shape

    def obj(v):
        phi = f @ v.reshape(shape).T
        if shape[0] == 1:
            loss = F.binary_cross_entropy_with_logits(phi, target)
        else:
            loss = F.cross_entropy(phi, target)
        return loss + lam * (v * v).sum()

    v = theta0.double().flatten().clone()
    for _ in range(100):
        g = torch.func.grad(obj)(v)
        if g.norm() < 1e-13:
            break
        h = torch.func.hessian(obj)(v)
        step = torch.linalg.solve(h, g)
        t = 1.0
        while t > 1e-8 and obj(v - t * step) > obj(v):
            t /= 2
        v = v - t * step
    return v.reshape(shape), torch.func.grad(obj)(theta0.double().flatten())


def make(case, m, lam, epoch, norm=False):
    from dattri.algorithm.rps import RPSAttributor
    from dattri.task import AttributionTask

    task = AttributionTask(loss_func=loss_of(case["c"]), model=m,
                           checkpoints={k: v.clone() for k, v in m.state_dict().items()})
    return RPSAttributor(task, final_linear_layer_name="head", normalize_preactivate=norm,
                         l2_strength=lam, epoch=epoch)


def run(case, ctx):
    c, d = case["c"], case["d"]
    m = model_of(c, d, case["bias"])
    before = {k: v.clone() for k, v in m.state_dict().items()}
    xt, yt = data(c, 3, seed=5)
    ft, _ = feats(m, xt)

    def unchanged(what):
        for k, v in m.state_dict().items():
            if not torch.equal(v, before[k]):
                ctx.fail("parameters", f"{what}: parameter {k} changed")
                return False
        return True

    if case["kind"] == "subset":
        n, lam, norm = 4, 0.02, case["norm"]
        x, y = data(c, n)
        f, z = feats(m, x)
        att = make(case, m, lam, case["epoch"], norm)
        att.cache(loader(x, y, range(n), 3))
        theta = getattr(att, "finetuned_theta", None)
        star, _ = minimiser(f, z, lam, m.head.weight.detach())
        ref = m.head.weight.detach() if case["epoch"] == 1 else theta
        if ref is None:
            ref = star
        tol = 1e-4
        base = None
        subsets = [s for k in range(1, n + 1) for s in itertools.permutations(range(n), k)]
        for q, idx in enumerate(subsets):
            for bs, bt in ((1 + q % 3, 1 + q % 2), (len(idx), 3)):
                got = att.attribute(loader(x, y, idx, bs), loader(xt, yt, range(3), bt))
                ctx.execution()
                ctx.outcome(got)
                what = f"subset {idx} batches {bs},{bt}"
                want = expected(ref.double(), f[list(idx)], z[list(idx)], ft, yt, lam, n,
                                norm)
                if not ctx.close("scores", got, want, rtol=tol, atol=1e-6, what=what):
                    return
                if base is None:
                    base = att.attribute(loader(x, y, range(n), n),
                                         loader(xt, yt, range(3), 2))
                if not ctx.close("subset", got, base[list(idx)], rtol=1e-4, atol=1e-6,
                                 what=what + " vs whole set"):
                    return
        unchanged("subset")
        # training without a cache: the attributed loader is the full training set
        for idx in subsets[::5]:
            att = make(case, m, lam, case["epoch"], norm)
            got = att.attribute(loader(x, y, idx, 2), loader(xt, yt, range(3), 2))
            ref2 = m.head.weight.detach() if case["epoch"] == 1 else getattr(
                att, "finetuned_theta", None)
            if ref2 is not None:
                ctx.close("uncached", got, expected(
                    ref2.double(), f[list(idx)], z[list(idx)], ft, yt, lam, len(idx),
                    norm), rtol=tol, atol=1e-6, what=f"uncached {idx}")
            other = make(case, m, lam, case["epoch"], norm)
            other.cache(loader(x, y, idx, 1))
            ctx.close("uncached-cached", got, other.attribute(
                loader(x, y, idx, 3), loader(xt, yt, range(3), 1)), rtol=1e-4, atol=1e-6,
                what=f"uncached {idx}")
            ctx.execution()
            ctx.outcome(got)
        unchanged("uncached")
    elif case["kind"] == "large":
        n, nt, lam, norm = 23, 17, 0.02, case["norm"]
        x, y = data(c, n)
        f, z = feats(m, x)
        xt, yt = data(c, nt, seed=5)
        ft, _ = feats(m, xt)
        for bc, epoch in itertools.product((1, 5, 11, 12, 23), (1, 40)):
            att = make(case, m, lam, epoch, norm)
            att.cache(loader(x, y, range(n), bc))
            ref = m.head.weight.detach() if epoch == 1 else getattr(
                att, "finetuned_theta", None)
            if ref is None:
                continue
            want = expected(ref.double(), f, z, ft, yt, lam, n, norm)
            for bs, bt in ((1, 5), (3, 17), (10, 4), (12, 1), (22, 16), (64, 64)):
                got = att.attribute(loader(x, y, range(n), bs),
                                    loader(xt, yt, range(nt), bt))
                ctx.execution()
                ctx.outcome(got)
                ctx.close("scores", got, want, rtol=1e-4, atol=1e-6,
                          what=f"{n} samples, cached by {bc}, batches {bs},{bt}")
            idx = [20, 0, 13, 4, 5, 22, 9, 1, 2, 17, 3, 8]
            ctx.close("subset", att.attribute(loader(x, y, idx, 5),
                                              loader(xt, yt, range(nt), 6)), want[idx],
                      rtol=1e-4, atol=1e-6, what=f"subset of {n}, cached by {bc}")
        unchanged("large")
    elif case["kind"] == "decomp":
        lam, n = case["lam"], 6
        x, y = data(c, n)
        f, z = feats(m, x)
        star, g0 = minimiser(f, z, lam, m.head.weight.detach())
        # stop: mean |grad| below 1/200 of its initial value, so every entry of the
        # weight error is at most sum|grad| / (2 lambda)
        slack = float(g0.abs().sum()) / 200 / (2 * lam) * float(ft.abs().sum(1).max())
        for bs in (1, 4, 6):
            att = make(case, m, lam, 5000)
            att.cache(loader(x, y, range(n), bs))
            got = att.attribute(loader(x, y, range(n), 5), loader(xt, yt, range(3), 2))
            ctx.execution()
            ctx.outcome(got)
            phi = ft @ star.T
            phi = phi[:, 0] if c == 1 else phi[torch.arange(3), yt]
            err = (got.double().sum(0) - phi).abs().max()
            # the weights of the decomposition are Lipschitz (<= 1/2 |f|^2 / lambda)
            lip = 1 + float((f ** 2).sum(1).max()) / (4 * lam)
            if not err <= slack * lip + 1e-4:
                ctx.fail("decomposition", f"lambda={lam}: sum of scores "
                         f"{got.sum(0).tolist()} prediction {phi.tolist()} "
                         f"(allowed {slack * lip:.3g})")
            ctx.count("decompositions")
        unchanged("decomposition")
    else:
        lam = 0.05
        sets = {"A": (5, 0), "B": (3, 9)}
        att = make(case, m, lam, 30)
        cached = None
        for op in case["hist"]:
            if op in sets:
                n, s = sets[op]
                x, y = data(c, n, s)
                att.cache(loader(x, y, range(n), 2))
                cached = op
            else:
                n, s = sets["B" if op == "b" else "A"]
                x, y = data(c, n, s)
                idx = list(range(n)) if op != "u" else [3, 1]
                args = (loader(x, y, idx, 2), loader(xt, yt, range(3), 2))
                got = att.attribute(*args)
                fresh = make(case, m, lam, 30)
                if cached:
                    cn, cs = sets[cached]
                    cx, cy = data(c, cn, cs)
                    fresh.cache(loader(cx, cy, range(cn), 3))
                want = fresh.attribute(*args)
                ctx.close("history", got, want, rtol=1e-4, atol=1e-6,
                          what=f"{case['hist']} at {op}")
                ctx.outcome(got)
            ctx.step()
            ctx.state(core.digest([cached, op, c]))
        unchanged("history")
        ctx.execution()
