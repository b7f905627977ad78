"""C28: Arnoldi projection against the dense eigendecomposition of the curvature."""

from __future__ import annotations

import itertools

import torch

from mc import models as M

PID = "C28"
LEVEL = "exploration"
RULE = ("every spectrum x projection dimension x iteration limit x regularisation x constant "
        "x seed x call order in the alphabet; non-trivial = distinct projected rows")
ASSUMPTIONS = ["curvature with distinct non-negligible eigenvalues in the kept part (a Krylov "
               "method cannot separate repeated ones)",
               "iteration limit at least the dimension plus one", "float32"]

SPECTRA = {
    "one": [2.0], "onen": [-1.5], "two": [3.0, 1.0], "mix2": [2.0, -1.0],
    "pos3": [4.0, 2.0, 0.7], "pos5": [5.0, 3.1, 1.9, 1.1, 0.6], "neg3": [-3.0, -2.0, -1.0],
    "mix4": [4.0, -3.0, 2.0, -1.0], "mix5": [-5.0, 4.0, 3.0, -0.8, 0.5],
    "wide": [30.0, 8.0, 2.0, 0.5], "zero": [3.0, 2.0, 1.0, 0.0],
}


def cases(tier):
    for name, reg in itertools.product(SPECTRA, (0.0, 0.5, 2.5)):
        d = len(SPECTRA[name])
        mags = sorted((abs(v + reg) for v in SPECTRA[name]), reverse=True)
        for k in range(1, d + 3):
            if name == "zero" and reg == 0 and k > 3:
                continue
            if k < d and mags[k - 1] - mags[k] < 0.05:
                continue  # tie at the cut
            yield {"id": f"{name}-k{k}-r{reg}", "kind": "proj", "spec": name, "k": k, "reg": reg}
    for k, reg, lay, nck, ratio in itertools.product(
            (1, 2, 4, 40), (0.3, 1.5), ("-", "w"), (1, 2, 3), (0.3, 1.0)):
        if ratio == 0.3 and nck != 2:
            continue
        yield {"id": f"att-k{k}-r{reg}-{lay}-c{nck}-q{ratio}", "kind": "att", "k": k, "reg": reg,
               "lay": lay, "nck": nck, "ratio": ratio}


def matrix(spec, rot):
    d = len(spec)
    g = torch.Generator().manual_seed(100 * rot + d)
    q = torch.linalg.qr(torch.randn(d, d, generator=g, dtype=torch.float64))[0]
    return q @ torch.diag(torch.tensor(spec, dtype=torch.float64)) @ q.T


def form(h, k):
    """Bilinear form of the inverse on the top-k (absolute) positive eigendirections."""
    lam, q = torch.linalg.eigh(h)
    keep = [int(i) for i in torch.argsort(lam.abs(), descending=True)[:k] if lam[i] > 1e-9]
    return sum((torch.outer(q[:, i], q[:, i]) / lam[i] for i in keep), torch.zeros_like(h))


def run(case, ctx):
    return (projector if case["kind"] == "proj" else attributor)(case, ctx)


def projector(case, ctx):
    from dattri.func.projection import ArnoldiProjector, arnoldi_project

    spec, k, reg = SPECTRA[case["spec"]], case["k"], case["reg"]
    d = len(spec)
    for rot, bend in itertools.product((0, 1), (0, 1)):
        h = matrix(spec, rot)
        g = torch.Generator().manual_seed(rot)
        x = torch.randn(d, generator=g)

        def f(v, h=h, x=x, bend=bend):
            m = h.to(v.dtype)
            out = 0.5 * v @ m @ v + v.sum()
            return out + ((v - x) ** 3).sum() if bend else out  # same Hessian at x
        want = form(h + reg * torch.eye(d, dtype=h.dtype), k)
        v, w = torch.randn(4, d, generator=g), torch.randn(3, d, generator=g)
        for it, c, seed, mode in ((d + 1, 1.0, 0, "rev-fwd"), (100, 0.3, 1, "rev-rev"),
                                  (d + 3, 4.0, 2, "rev-fwd")):
            kw = dict(proj_dim=k, max_iter=it, norm_constant=c, mode=mode, regularization=reg,
                      seed=seed)
            a = arnoldi_project(d, f, x, **kw)
            b = ArnoldiProjector(d, k, f, x, max_iter=it, norm_constant=c, mode=mode,
                                 regularization=reg, seed=seed).project
            scale = 1e-3 * float(v.norm() * w.norm() * (want.abs().max() + 1e-3)) + 1e-5
            for nm, fn in (("func", a), ("class", b)):
                keep = v.clone()
                pv, pw = fn(v), fn(w)
                ctx.execution()
                ctx.outcome(pv)
                what = f"{nm} rot{rot} bend{bend} it{it} c{c}"
                ctx.close("form", pv.double() @ pw.double().T, v.double() @ want @ w.double().T,
                          rtol=0, atol=scale, what=what)
                if not torch.equal(v, keep):
                    ctx.fail("input", "projection changed its argument")
                tol = 1e-4 * (1 + float(pv.abs().max()))
                # one fixed linear map, whatever the batching, form or order
                torch.manual_seed(seed + 5)
                ctx.close("rows", torch.cat([fn(v[2:]), fn(v[1:2]), fn(v[:1])]),
                          pv[[2, 3, 1, 0]], rtol=0, atol=tol, what=what)
                ctx.close("linear", fn(2 * v[:3] - w), 2 * pv[:3] - pw, rtol=0, atol=3 * tol, what=what)
                for cut in range(d):
                    blocks = {"a": v[:, :cut], "b": v[:, cut:]} if cut else {"z": v}
                    ctx.close("dict", fn(blocks), pv, rtol=0, atol=tol, what=f"{what} cut {cut}")
                if not pv.isfinite().all():
                    ctx.fail("finite", what)
            # the same seed gives the same map whatever happened before
            torch.rand(3)
            other = arnoldi_project(d, f, x, **{**kw, "seed": seed + 7})
            other(v)
            ctx.close("seeded", arnoldi_project(d, f, x, **kw)(v), a(v), rtol=0, atol=tol,
                      what="same seed")


def attributor(case, ctx):
    import math

    from dattri.algorithm.influence_function import IFAttributorArnoldi

    k, reg, nck = case["k"], case["reg"], case["nck"]
    lay = None if case["lay"] == "-" else ["fc.weight"]
    tr, te = M.samples(5, 0), M.samples(3, 1)
    cks = [M.state("lin", 3 + c, 0.6) for c in range(nck)]
    for bc, btr in itertools.product(range(1, 6), (1, 2, 3, 5)):
        if (bc + btr) % 2:
            continue
        used = math.ceil(math.ceil(5 / bc) * case["ratio"]) * bc
        full = (tr[0][:used], tr[1][:used])
        want = 0
        gap = True
        for ck in cks:
            r = M.Ref("lin", ck, lay)
            h = r.hessian("ce", *full)
            h = h + reg * torch.eye(len(h), dtype=h.dtype)
            lam = torch.linalg.eigvalsh(h).flip(0)
            if k < len(lam):
                gap = gap and float(lam[k - 1] - lam[k]) > 0.02
            want = want + r.grads("ce", *tr) @ form(h, k) @ r.grads("margin", *te).T / nck
        if not gap:
            ctx.count("skipped_close_eigenvalues")
            continue
        if used < 5 and k == 40 and case["lay"] != "zzz":
            # directions without curvature: only the bilinear form on the span matters
            ctx.count("rank_deficient")
            continue
        att = IFAttributorArnoldi(M.make_task("lin", cks, "ce", "margin"), layer_name=lay,
                                  precompute_data_ratio=case["ratio"], proj_dim=k, max_iter=60,
                                  regularization=reg, seed=bc)
        att.cache(M.loader(*tr, bc))
        for bte in (1, 2, 3):
            got = att.attribute(M.loader(*tr, btr), M.loader(*te, bte))
            ctx.execution()
            ctx.outcome(got)
            ctx.close("scores", got, want, rtol=5e-3, atol=1e-4,
                      what=f"cached batch {bc} train {btr} test {bte}")
