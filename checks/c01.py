"""C01: influence scores against dense (H + lambda I)^-1 inner products in float64."""

from __future__ import annotations

import itertools

import torch

from mc import models as M

PID = "C01"
LEVEL = "exploration"
CHUNK = 1
RULE = ("every (train, test) batch size x solver x checkpoints x layer restriction x "
        "container x regularisation x relative-influence option x call history in the "
        "alphabet; non-trivial = distinct score matrices")
ASSUMPTIONS = ["well-conditioned problems (regularised convex or near-convex Hessians)",
               "CPU float32; LiSSA with full-batch sampling (other samplings: C12)"]

LAYERS = {"-": None, "s": "fc2.weight", "a": ["fc1.weight"],
          "b": ["fc2.bias", "fc1.weight"], "f": ["fc.weight"], "g": ["fc.bias", "fc.weight"],
          "h": "fc.weight", "f2": ["fc2.bias"],
          "x": ["body.2.0.weight", "body.0.bias"], "y": ["gain", "head.0.bias"]}


LARGE = [(1, 11), (3, 1), (5, 4), (12, 10), (13, 3)]


def cases(tier):
    ntr, nte = (5, 3) if tier == "quick" else (6, 4)
    base = {"ntr": ntr, "nte": nte}
    conts = ("tuple", "list", "dict")
    solvers = ["explicit", "cg", "cgf", "arnoldi", "lissa", "lissaf"]
    i = 0
    for sol, (kind, lay), nck, cont in itertools.product(
            solvers, [("lin", "-"), ("linfz", "f"), ("lin", "g"), ("lin", "h"), ("mlp", "-"),
                      ("mlp", "b")], (1, 2, 3), conts):
        if tier == "quick" and (nck + conts.index(cont) + len(kind) + len(lay)) % 3 \
                and not (nck == 2 and cont != "dict"):
            continue
        if sol.startswith("lissa") and (kind == "mlp" or tier == "quick" and (
                nck == 3 or lay == "g")):
            continue
        if sol == "cgf" and kind == "mlp" and tier == "quick" and (nck > 1 or lay == "-"):
            continue
        i += 1
        yield dict(base, id=f"{sol}-{kind}{lay}-k{nck}-{cont}", sol=sol, kind=kind,
                   lay=lay, nck=nck, cont=cont, target=(None, "margin")[i % 2],
                   reg=0.8 if sol[0] == "l" else (0.3, 0.8)[i % 2] if kind != "mlp" else (2.0, 3.0)[i % 2])
    for sol, method, nck in itertools.product(("explicit", "cg", "lissa"), ("l", "theta"),
                                              (1, 2)):
        yield dict(base, id=f"relatif-{sol}-{method}-k{nck}", sol=sol, kind="lin", lay="-",
                   nck=nck, cont="tuple", target=None, reg=0.8, relatif=method)
    # well-fitted training samples: tiny self-influence
    for sol, method in itertools.product(("explicit", "cg", "lissa"), ("l", "theta")):
        yield dict(base, id=f"relatif-tiny-{sol}-{method}", sol=sol, kind="linnb", lay="-",
                   nck=2, cont="list", target=None, reg=0.8, relatif=method, tiny=True,
                   pairs=[(1, 1), (2, 3), (ntr, nte)])
    for sol in ("explicit", "cg", "arnoldi", "lissa"):
        yield dict(base, id=f"multi-{sol}", sol=sol, kind="lin", lay="-", nck=2,
                   cont="list", target="margin", reg=0.8, multi=True)
        for cached in (0, 1, 2):
            yield dict(base, id=f"hist-{sol}-{cached}", sol=sol, kind="lin", lay="-",
                       nck=2, cont="list", target="margin", reg=0.8, hist=True, first=cached)
    for q, sol in enumerate(solvers):  # many batches, samples and checkpoints
        yield dict(id=f"large-{sol}", sol=sol, kind="lin", lay="-", nck=4,
                   cont=conts[q % 3], target="margin", reg=0.8, ntr=13, nte=11, pairs=LARGE)
    for sol, lay in itertools.product(("explicit", "cg", "arnoldi"), "-xy"):
        yield dict(base, id=f"nest-{sol}-{lay}", sol=sol, kind="nest", lay=lay, nck=2,
                   cont="tuple", target="margin", reg=2.0, pairs=[(1, 1), (2, 3), (ntr, nte)])
    yield dict(base, id="reg0", sol="explicit", kind="mlp", lay="f2", nck=2, cont="tuple",
               target="margin", reg=0.0, loss="mse")


SCALE = 2.0  # LiSSA scaling; damping = reg / SCALE


def attributor(case, task=None):
    from dattri.algorithm import influence_function as I

    task = task or M.make_task(case["kind"], ckpts(case), case.get("loss", "ce"),
                               case["target"])
    lay = LAYERS[case["lay"]]
    lay = list(lay) if isinstance(lay, list) else lay
    sol, reg = case["sol"], case["reg"]
    if sol == "explicit":
        return I.IFAttributorExplicit(task, layer_name=lay, regularization=reg)
    if sol in ("cg", "cgf"):
        return I.IFAttributorCG(task, layer_name=lay, regularization=reg,
                                max_iter=12 if case["kind"] != "mlp" else 24,
                                mode="rev-rev" if sol == "cg" else "rev-fwd")
    if sol == "arnoldi":
        return I.IFAttributorArnoldi(task, layer_name=lay, regularization=reg, proj_dim=40,
                                     max_iter=40, tol=1e-4, seed=case.get("seed", 3))
    return I.IFAttributorLiSSA(task, layer_name=lay, batch_size=64, num_repeat=1 + case["nck"] % 2,
                               recursion_depth=16, damping=reg / SCALE, scaling=SCALE,
                               mode="rev-rev" if sol == "lissa" else "rev-fwd")


def ckpts(case):
    return [M.state(case["kind"], 3 + c, 0.5) for c in range(case["nck"])]


def reference(case, tr, te, full, target=None):
    """full: list of (x, y) batches of the cached loader."""
    tot = 0
    for ck in ckpts(case):
        r = M.Ref(case["kind"], ck, LAYERS[case["lay"]])
        gtr = r.grads(case.get("loss", "ce"), *tr)
        gte = r.grads(case["target"] or case.get("loss", "ce"), *te)
        inv = 0
        if case["sol"] == "arnoldi":  # the batches are joined
            full = [tuple(torch.cat(z) for z in zip(*full))]
        for fx, fy in full:
            h = r.hessian(case.get("loss", "ce"), fx, fy)
            inv = inv + torch.linalg.inv(h + case["reg"] * torch.eye(len(h), dtype=h.dtype))
        s = gtr @ inv @ gte.T
        rel = case.get("relatif")
        if rel == "l":
            s = s / torch.einsum("ij,jk,ik->i", gtr, inv, gtr).sqrt()[:, None]
        elif rel == "theta":
            s = s / (gtr @ inv).norm(dim=1)[:, None]
        tot = tot + s
    return tot / case["nck"]


def call(att, case, tr, te, btr, bte):
    kw = {"relatif_method": case["relatif"]} if case.get("relatif") else {}
    return att.attribute(M.loader(*tr, btr, case["cont"]),
                         M.loader(*te, bte, case["cont"]), **kw)


TOL = {"rtol": 3e-3, "atol": 1e-4}


def run(case, ctx):
    ntr, nte = case["ntr"], case["nte"]
    tr, te = M.samples(ntr, 0), M.samples(nte, 1)
    if case.get("tiny"):
        tr[0][1] *= 1e-4
        tr[0][3] *= 1e-2
    if case.get("multi"):
        return multi(case, ctx, tr, te)
    if case.get("hist"):
        return history(case, ctx, tr, te)
    want = reference(case, tr, te, [tr])
    for btr, bte in case.get("pairs") or itertools.product(range(1, ntr + 1),
                                                           range(1, nte + 1)):
        att = attributor(case)
        att.cache(M.loader(*tr, ntr, case["cont"]))
        got = call(att, case, tr, te, btr, bte)
        ctx.execution()
        ctx.outcome(got)
        ctx.count("remainder_batches", int(ntr % btr != 0 or nte % bte != 0))
        if not ctx.close("scores", got, want, **TOL, what=f"batches {btr},{bte}"):
            return None
    # a subset of the cached training set
    for idx in ([0], [2, 1], [4, 0, 3]):
        sub = (tr[0][idx], tr[1][idx])
        att = attributor(case)
        att.cache(M.loader(*tr, ntr, case["cont"]))
        got = call(att, case, sub, te, 2, 2)
        ctx.execution()
        ctx.close("subset", got, want[idx], **TOL, what=f"subset {idx}")
    return None


def multi(case, ctx, tr, te):
    """Cached loader with several batches."""
    for bf in range(1, len(tr[0]) + 1):
        full = [(tr[0][i:i + bf], tr[1][i:i + bf]) for i in range(0, len(tr[0]), bf)]
        want = reference(case, tr, te, full)
        att = attributor(case)
        att.cache(M.loader(*tr, bf, case["cont"]))
        got = call(att, case, tr, te, 2, 2)
        ctx.execution()
        ctx.outcome(got)
        ctx.close("multi", got, want, **TOL, what=f"cached batch size {bf}")


def history(case, ctx, tr, te):
    """cache/attribute histories; only the last cache matters, attribute never does."""
    sets = {"0": tr, "1": M.samples(4, 2), "2": M.samples(6, 4)}
    tests = {"x": te, "y": M.samples(2, 3)}
    ops = ["c0", "c1", "ax", "ay", "s"]
    want: dict = {}
    for hist in itertools.product(ops, repeat=4):
        if case["first"] == 0 and hist[0] != "c0" or case["first"] == 1 and hist[0] != "c1" \
                or case["first"] == 2 and (hist[0][0] == "c" or case["sol"] == "arnoldi"):
            continue
        if hist[-1][0] != "a":
            continue
        if case["sol"] == "lissa" and ("s" in hist or hist[1] == hist[2]):
            continue
        att = attributor(case)
        cached = None
        for i, o in enumerate(hist):
            ctx.step()
            if o[0] == "c":
                cached = o[1]
                att.cache(M.loader(*sets[cached], len(sets[cached][0]), case["cont"]))
                continue
            # uncached: the training loader doubles as the full training set
            t = sets[str(i % 3)] if o != "s" else sets["0"]
            if o == "s":
                att.self_attribute(M.loader(*t, len(t[0]), case["cont"]))
                continue
            key = (cached or f"self{i % 3}", i % 3, o[1])
            full = sets[cached] if cached else t
            if key not in want:
                want[key] = reference(case, t, tests[o[1]], [full])
            got = call(att, case, t, tests[o[1]], len(t[0]) if not cached else 2, 2)
            if not ctx.close("history", got, want[key], **TOL, what=f"{hist[:i + 1]}"):
                return
        ctx.execution()
