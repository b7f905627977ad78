"""C03: TracIn / Grad-Dot / Grad-Cos against an autograd loop over single samples."""

from __future__ import annotations

import itertools

import torch

from mc import models as M

PID = "C03"
LEVEL = "exploration"
RULE = ("every (train, test) batch size x checkpoints/weights x normalisation x "
        "projection x layer restriction x container kind x call history in the alphabet; "
        "non-trivial = distinct score matrices")
ASSUMPTIONS = ["the projection matrix itself is taken from random_project applied to the "
               "identity (its own properties are C14)", "CPU float32"]

LAYERS = {"-": None, "s": "fc2.weight", "a": ["fc1.weight"],
          "b": ["fc2.bias", "fc1.weight"],
          "x": ["body.2.0.weight", "body.0.bias"], "y": ["gain", "head.0.bias"]}
WEIGHTS = {1: [0.7], 2: [1.0, -0.5], 3: [0.3, 0.0, 2.0],
           6: [0.3, 1.0, -2.0, 0.6, 0.1, 0.9]}
PROJ = ["identity", ("normal", 4, 0), ("normal", 7, 3), ("rademacher", 5, 1),
        ("random_mask", 6, 0), "default"]


def cases(tier):
    ntr, nte = (5, 4) if tier == "quick" else (7, 5)
    i = 0
    for nck, norm, proj, lay in itertools.product((1, 2, 3), (False, True),
                                                  range(len(PROJ)), "-sab"):
        full = proj == 0 or (lay in "-b" and nck > 1) or tier == "thorough"
        if not full and (nck, lay) not in ((2, "a"), (2, "s"), (1, "-")):
            continue
        i += 1
        yield {"id": f"k{nck}n{int(norm)}p{proj}l{lay}", "nck": nck, "norm": norm,
               "proj": proj, "lay": lay, "cont": ("tuple", "list", "dict")[i % 3],
               "kind": ("mlp", "mlpfz", "mlp")[i % 3], "ntr": ntr, "nte": nte,
               "target": (None, "margin")[(i // 2) % 2], "wt": i % 2}
    for cont in ("tuple", "list", "dict"):
        for kind in ("mlp", "linnb"):
            for target in (None, "margin"):
                yield {"id": f"cont-{cont}-{kind}-{target}", "nck": 2, "norm": False,
                       "proj": 0, "lay": "-", "cont": cont, "kind": kind, "ntr": ntr,
                       "nte": nte, "target": target, "wt": 1}
    for norm, lay, proj in itertools.product((False, True), "-b", (0, 1)):
        yield {"id": f"hist-n{int(norm)}l{lay}p{proj}", "hist": True, "nck": 2,
               "norm": norm, "proj": proj, "lay": lay, "cont": "tuple", "kind": "mlp",
               "ntr": 4, "nte": 3, "target": "margin", "wt": 0}
    for q, (norm, proj) in enumerate(itertools.product((False, True), (0, 1, 2))):
        yield {"id": f"large-n{int(norm)}p{proj}", "nck": 6, "norm": norm, "proj": proj,
               "lay": "-b"[q % 2], "cont": ("tuple", "list", "dict")[q % 3], "kind": "mlp",
               "ntr": 23, "nte": 17, "target": "margin", "wt": q % 2, "pairs": [
                   (1, 5), (2, 17), (5, 4), (7, 16), (10, 9), (12, 2), (22, 6), (64, 64)]}
    for proj, cont in itertools.product((0, 1), ("tuple", "dict")):  # tiny gradients
        yield {"id": f"tiny-p{proj}-{cont}", "nck": 2, "norm": True, "proj": proj,
               "lay": "-", "cont": cont, "kind": "linnb", "ntr": ntr, "nte": nte,
               "target": None, "wt": 1, "tiny": True}
    for norm, lay, proj in itertools.product((False, True), "-xy", (0, 1)):
        yield {"id": f"nest-n{int(norm)}l{lay}p{proj}", "nck": 2, "norm": norm, "proj": proj,
               "lay": lay, "cont": "list", "kind": "nest", "ntr": ntr, "nte": nte,
               "target": "margin", "wt": 1}
    yield {"id": "refuse", "refuse": True}
    yield {"id": "subset", "subset": True, "nck": 2, "norm": False, "proj": 0, "lay": "-",
           "cont": "tuple", "kind": "mlp", "ntr": 5, "nte": 3, "target": "margin", "wt": 0}


def params(case):
    from dattri.params.projection import TracInProjectionParams

    p = PROJ[case["proj"]]
    if p == "default":
        return None
    if p == "identity":
        return TracInProjectionParams(proj_type="identity")
    return TracInProjectionParams(proj_type=p[0], proj_dim=p[1], proj_seed=p[2])


def matrix(case, dim, ens):
    """Projection matrix seen by one row vector, from the identity."""
    from dattri.func.projection import random_project
    from dattri.params.projection import RandomProjectionParams, TracInProjectionParams

    pp = params(case) or TracInProjectionParams()
    if pp.proj_type == "identity":
        return torch.eye(dim, dtype=torch.float64)
    rows = []
    for i in range(dim):
        e = torch.zeros(1, dim)
        e[0, i] = 1.0
        f = random_project(e, proj_params=RandomProjectionParams(
            feature_batch_size=1, device="cpu", **pp.model_dump()))
        rows.append(f(e, ensemble_id=ens)[0])
    return torch.stack(rows).double()


def features(case, func, x, y):
    """Per checkpoint: (possibly projected) gradients."""
    out = []
    for c in range(case["nck"]):
        r = M.Ref(case["kind"], M.state(case["kind"], c), LAYERS[case["lay"]])
        g = r.grads(func, x, y)
        out.append(g @ matrix(case, g.shape[1], c))
    return out


def reference(case, tr, te):
    ftr = features(case, "ce", *tr)
    fte = features(case, case["target"] or "ce", *te)
    if case["norm"]:
        ftr = [torch.nn.functional.normalize(f) for f in ftr]
        fte = [torch.nn.functional.normalize(f) for f in fte]
    w = WEIGHTS[case["nck"]]
    return sum(wi * a @ b.T for wi, a, b in zip(w, ftr, fte))


def attributor(case, task=None):
    from dattri.algorithm.tracin import TracInAttributor

    task = task or M.make_task(case["kind"],
                               [M.state(case["kind"], c) for c in range(case["nck"])],
                               "ce", case["target"])
    w = case.get("weights", WEIGHTS[case["nck"]])
    lay = LAYERS[case["lay"]]
    return TracInAttributor(task, weight_list=torch.tensor(w) if case["wt"] else list(w),
                            normalized_grad=case["norm"], proj_params=params(case),
                            layer_name=list(lay) if isinstance(lay, list) else lay)


def run(case, ctx):
    if case.get("refuse"):
        return refuse(ctx)
    if case.get("hist"):
        return history(case, ctx)
    if case.get("subset"):
        return subset(case, ctx)
    ntr, nte = case["ntr"], case["nte"]
    tr, te = M.samples(ntr, 0), M.samples(nte, 1)
    if case.get("tiny"):
        tr[0][1] *= 1e-6
        tr[0][3] *= 1e-3
        te[0][2] *= 1e-4
    want = reference(case, tr, te)
    for btr, bte in case.get("pairs") or itertools.product(range(1, ntr + 1),
                                                           range(1, nte + 1)):
        att = attributor(case)
        got = att.attribute(M.loader(*tr, btr, case["cont"]), M.loader(*te, bte, case["cont"]))
        ctx.execution()
        ctx.outcome(got)
        ctx.count("remainder_batches", int(ntr % btr != 0 or nte % bte != 0))
        if not ctx.close("scores", got, want, rtol=1e-3, atol=1e-5,
                         what=f"train batch {btr} test batch {bte}"):
            return None
    return None


def history(case, ctx):
    """Repeated attribute/self_attribute/cache calls, two attributors on one task."""
    ntr, nte = case["ntr"], case["nte"]
    tr, te = M.samples(ntr, 0), M.samples(nte, 1)
    want = reference(case, tr, te)
    other = dict(case, lay="a" if case["lay"] == "-" else "-", norm=not case["norm"])
    wother = reference(other, tr, te)
    flip = reference(case, te, tr)
    ops = ("A", "B", "S", "C", "F")  # attribute, other attributor, self, cache, flipped
    for hist in itertools.product(ops, repeat=3):
        a = attributor(case)
        b = attributor(other, a.task)
        for i, o in enumerate(hist):
            bs = 1 + (i % 3)
            if o == "A":
                got = a.attribute(M.loader(*tr, bs), M.loader(*te, bs))
                ctx.close("hist", got, want, rtol=1e-3, atol=1e-5, what=f"{hist[:i + 1]}")
            elif o == "B":
                got = b.attribute(M.loader(*tr, bs), M.loader(*te, 2))
                ctx.close("hist-other", got, wother, rtol=1e-3, atol=1e-5,
                          what=f"{hist[:i + 1]}")
            elif o == "F":
                got = a.attribute(M.loader(*te, 2), M.loader(*tr, bs))
                ctx.close("hist-flip", got, flip, rtol=1e-3, atol=1e-5,
                          what=f"{hist[:i + 1]}")
            elif o == "S":
                a.self_attribute(M.loader(*tr, bs))
            else:
                a.cache()
            ctx.step()
        ctx.execution()
        if ctx.failures:
            return


def subset(case, ctx):
    """A loader whose sampler yields a subset scores exactly those samples, in order."""
    from torch.utils.data import DataLoader, TensorDataset

    from dattri.benchmark.utils import SubsetSampler

    tr, te = M.samples(5, 0), M.samples(3, 1)
    want = reference(case, tr, te)
    for r in range(1, 4):
        for idx in itertools.permutations(range(5), r):
            for bs in range(1, r + 1):
                dl = DataLoader(TensorDataset(*tr), batch_size=bs,
                                sampler=SubsetSampler(list(idx)))
                got = attributor(case).attribute(dl, M.loader(*te, 2))
                ctx.execution()
                ctx.outcome(got)
                ctx.close("subset", got, want[list(idx)], rtol=1e-3, atol=1e-5,
                          what=f"indices {idx} batch {bs}")
    ctx.count("subsets")


def refuse(ctx):
    """Wrong number of weights is refused instead of silently dropping checkpoints."""
    tr, te = M.samples(3, 0), M.samples(2, 1)
    for nck, nw in itertools.product((1, 2, 3), (0, 1, 2, 3, 4)):
        case = {"kind": "mlp", "nck": nck, "target": None, "wt": 0, "lay": "-",
                "norm": False, "proj": 0, "weights": [1.0] * nw}
        att = attributor(case)
        for call in (lambda: att.attribute(M.loader(*tr, 2), M.loader(*te, 2)),
                     lambda: att.self_attribute(M.loader(*tr, 2))):
            try:
                call()
                ok = True
            except ValueError:
                ok = False
            ctx.execution()
            if ok != (nck == nw):
                ctx.fail("weights", f"{nw} weights for {nck} checkpoints: accepted={ok}")
