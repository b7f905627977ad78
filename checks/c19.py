"""C19: self-attribution equals the diagonal of attributing the training set to itself."""

from __future__ import annotations

import itertools
import os
import shutil
import tempfile

import torch

from mc import models as M

PID = "C19"
LEVEL = "exploration"
RULE = ("every attributor with self-attribution x checkpoints x options x cached/uncached "
        "x every batching of the loader x loaders over every subset (for cached sets); "
        "compared with the diagonal of the attributor's own cross-attribution and with a "
        "second self-attribution call; non-trivial = distinct score vectors")
ASSUMPTIONS = ["same loss for training and test, except that influence functions are also "
               "run with a separate target function",
               "CPU float32; LiSSA with full-batch sampling (deterministic)"]
LAYERS = {"-": None, "a": ["fc1.weight"], "b": ["fc2.bias", "fc1.weight"]}


def cases(tier):
    n = 5 if tier == "quick" else 7
    for sol, kind, nck, lay in itertools.product(
            ("explicit", "cg", "arnoldi", "lissa", "datainf", "ekfac"), ("lin", "mlp"),
            (1, 2, 3), ("-", "b")):
        if lay == "b" and (kind == "lin" or sol == "ekfac"):
            continue
        if sol == "ekfac" and nck > 1:
            continue
        if tier == "quick" and (nck == 3) != (kind == "lin" and sol in ("explicit", "datainf")) \
                and nck == 3:
            continue
        for rel in (None, "l", "theta") if sol in ("explicit", "cg", "lissa") else (None,):
            tgt = None
            if (lay == "b" or nck == 2) and sol != "ekfac" or (sol, kind) == ("ekfac", "mlp"):
                tgt = "margin"
            yield {"id": f"{sol}-{kind}{lay}-k{nck}-{rel}", "what": "if", "sol": sol,
                   "kind": kind, "nck": nck, "lay": lay, "rel": rel, "tgt": tgt,
                   "n": n - (tier == "quick" and sol in ("cg", "lissa")), "deep": n > 5,
                   "cont": "tuple" if sol == "ekfac" else ("tuple", "list", "dict")[nck % 3]}
    for sol, rel in itertools.product(("explicit", "cg", "lissa"), ("l", "theta")):
        yield {"id": f"tiny-{sol}-{rel}", "what": "if", "sol": sol, "kind": "linnb",
               "lay": "-", "nck": 2, "rel": rel, "tgt": None, "n": 4, "deep": False,
               "cont": "tuple", "tiny": True}
    for nck, norm, proj, lay in itertools.product((1, 2, 3), (False, True), range(4), "-ab"):
        yield {"id": f"tracin-k{nck}n{int(norm)}p{proj}l{lay}", "what": "tracin", "nck": nck,
               "norm": norm, "proj": proj, "lay": lay, "n": n, "kind": "mlp",
               "cont": ("tuple", "list", "dict")[(nck + proj) % 3]}
    big = {"n": 13, "bss": [1, 5, 12]}
    for q, sol in enumerate(("explicit", "cg", "arnoldi", "lissa", "datainf", "ekfac")):
        yield {"id": f"large-{sol}", "what": "if", "sol": sol, "kind": "lin", "lay": "-",
               "nck": 1 if sol == "ekfac" else 4, "rel": None, "tgt": (None, "margin")[q % 2],
               "deep": False, "cont": "tuple", **big}
    for what in ("tracin", "trak"):
        for proj in (0, 1, 2):
            yield {"id": f"large-{what}-{proj}", "what": what, "nck": 5, "norm": proj == 1,
                   "proj": proj, "lay": "-b"[proj % 2], "kind": "mlp", "cont": "tuple",
                   "ps": "one", **big}
    for norm in (False, True):
        yield {"id": f"tracin-zero-n{int(norm)}", "what": "tracin", "nck": 2, "norm": norm,
               "proj": 0, "lay": "-", "n": 4, "kind": "mlp", "cont": "tuple", "zero": True}
    for nck, proj, lay, ps in itertools.product((1, 2, 3), range(4), "-ab",
                                                ("scalar", "one")):
        if (proj, ps) in ((0, "one"), (3, "scalar")) and tier == "quick":
            continue
        yield {"id": f"trak-k{nck}p{proj}l{lay}-{ps}", "what": "trak", "nck": nck,
               "proj": proj, "lay": lay, "n": n, "kind": "mlp", "ps": ps,
               "cont": ("tuple", "list", "dict")[(nck + proj) % 3]}
    for fam, off, hes, lay in itertools.product(("logra", "factgrass"),
                                                ("none", "cpu", "disk"),
                                                ("eFIM", "Identity"), range(3)):
        yield {"id": f"{fam}-{off}-{hes}-l{lay}", "what": "block", "fam": fam, "off": off,
               "hes": hes, "lay": lay, "n": n,
               "bss": [1, 2, n] if tier == "quick" and off == "disk"
               else list(range(1, n + 1))}


def masked_loss(model):
    """The loss of class-0 samples is constant: their gradients vanish."""
    base = M.loss_fn(model)

    def f(params, data):
        _, y = M.split(data)
        return base(params, data) * (y.reshape(-1) != 0).to(torch.float32).mean()
    return f


def make(case):
    from dattri.algorithm import influence_function as I
    from dattri.algorithm.tracin import TracInAttributor
    from dattri.params.projection import TracInProjectionParams

    kind = case["kind"]
    M.FUNCS["masked"] = masked_loss
    task = M.make_task(kind, [M.state(kind, 3 + c, 0.5) for c in range(case["nck"])],
                       "masked" if case.get("zero") else "ce", case.get("tgt"))
    lay = LAYERS[case["lay"]]
    lay = list(lay) if isinstance(lay, list) else lay
    if case["what"] == "tracin":
        pp = [None, TracInProjectionParams(proj_type="identity"),
              TracInProjectionParams(proj_type="normal", proj_dim=4, proj_seed=3),
              TracInProjectionParams(proj_type="random_mask", proj_dim=3)][case["proj"]]
        if case.get("zero"):
            pp = TracInProjectionParams(proj_type="identity")
        return TracInAttributor(task, weight_list=[0.7, -0.4, 1.5, 0.2, 1.0][:case["nck"]],
                                normalized_grad=case["norm"], proj_params=pp,
                                layer_name=lay)
    if case["what"] == "trak":
        from checks import c04

        c = dict(case, pshape=case["ps"])
        p = [c04.PROJ[0], c04.PROJ[1], c04.PROJ[2], c04.PROJ[4]][case["proj"]]
        from dattri.algorithm.trak import TRAKAttributor

        return TRAKAttributor(task, c04.prob(task.get_model(), c["pshape"]),
                              proj_params=c04.params(p), regularization=p[3],
                              layer_name=lay)
    sol, n = case["sol"], case["n"]
    if sol == "explicit":
        return I.IFAttributorExplicit(task, layer_name=lay, regularization=1.5)
    if sol == "cg":
        return I.IFAttributorCG(task, layer_name=lay, regularization=1.5, max_iter=20)
    if sol == "arnoldi":
        return I.IFAttributorArnoldi(task, layer_name=lay, regularization=1.5, proj_dim=6,
                                     max_iter=30, tol=1e-4, seed=2)
    if sol == "lissa":
        return I.IFAttributorLiSSA(task, layer_name=lay, batch_size=4 * n, num_repeat=1,
                                   recursion_depth=6, damping=0.5, scaling=4.0)
    if sol == "datainf":
        return I.IFAttributorDataInf(task, layer_name=lay, regularization=0.4)
    return I.IFAttributorEKFAC(task, damping=0.4)


def run(case, ctx):
    if case["what"] == "block":
        return block(case, ctx)
    n, cont = case["n"], case["cont"]
    tr = M.samples(n, 0)
    if case.get("tiny"):
        tr[0][1] *= 1e-4
        tr[0][3] *= 1e-2
    tol = {"rtol": 2e-3, "atol": 1e-6}
    kw = {"relatif_method": case["rel"]} if case.get("rel") else {}

    def dl(bs, idx=None):
        x, y = tr if idx is None else (tr[0][list(idx)], tr[1][list(idx)])
        return M.loader(x, y, bs, cont)

    def compare(key, got, cross, what):
        ctx.execution()
        got = torch.as_tensor(got).reshape(-1)
        ctx.outcome(got)
        ctx.step()
        ctx.close(key, got, cross.diagonal(), what=what, **tol)

    for bs in case.get("bss", range(1, n + 1)):
        what = f"batch {bs}"
        ctx.count("remainder_batches", int(n % bs != 0))
        if case["what"] == "trak":
            a = make(case)
            compare("uncached", a.self_attribute(dl(bs)),
                    a.attribute(dl(1 + bs % n), dl(bs)), what)
            compare("uncached-again", a.self_attribute(dl(bs)), a.attribute(dl(2), dl(2)),
                    what)
            b = make(case)
            b.cache(dl(bs))
            compare("cached", b.self_attribute(), b.attribute(dl(1 + bs % n)), what)
            b.cache(dl(bs, range(1, n)))
            compare("recached", b.self_attribute(), b.attribute(dl(bs, range(1, n))), what)
        elif case["what"] == "tracin":
            a = make(case)
            compare("self", a.self_attribute(dl(bs)), a.attribute(dl(bs), dl(1 + bs % n)),
                    what)
        else:
            full = n if case["sol"] != "datainf" else bs
            a = make(case)
            if case["sol"] == "ekfac":
                a.cache(dl(bs))
            else:
                a.cache(dl(full))
            cross = a.attribute(dl(bs), dl(1 + bs % n), **kw)
            compare("cached", a.self_attribute(dl(bs), **kw), cross, what)
            if bs == 2 and n < 10:
                for r in (1, 2, 3) if case["deep"] else (1, 2):
                    for idx in itertools.permutations(range(n), r):
                        if r == 3 and (sum(idx) + idx[0]) % 4:
                            continue
                        compare("subset", a.self_attribute(dl(2, idx), **kw),
                                cross[list(idx)][:, list(idx)], f"subset {idx}")
            if case["sol"] in ("explicit", "cg", "lissa") and bs in (2, n):
                b = make(case)
                cross = b.attribute(dl(bs), dl(2), **kw)
                compare("uncached", b.self_attribute(dl(bs), **kw), cross, what)
        if ctx.failures:
            return None
    return None


def block(case, ctx):
    """compute_self_attribution of the block-projected attributors."""
    from dattri.algorithm.factgrass import FactGraSSAttributor
    from dattri.algorithm.logra import LoGraAttributor
    from dattri.params.projection import FactGrassProjectionParams, LoGraProjectionParams

    n = case["n"]
    tr = M.samples(n, 0)
    names = (None, ["fc2", "fc1"], "fc1")[case["lay"]]

    def loss(model, batch, device):
        x, y = batch
        return torch.nn.functional.cross_entropy(model(x.to(device)), y.to(device))

    for bs, cs in itertools.product(case["bss"], (1, 2, 16)):
        if case["off"] != "disk" and cs != 16:
            continue
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            kw = {"layer_names": names, "hessian": case["hes"], "damping": 0.3,
                  "offload": case["off"], "cache_dir": d, "chunk_size": cs}
            from dattri.task import AttributionTask

            m = M.build("mlp")
            task = AttributionTask(loss_func=loss, model=m,
                                   checkpoints=[M.state("mlp", 4)])
            if case["fam"] == "logra":
                a = LoGraAttributor(task, proj_params=LoGraProjectionParams(
                    proj_dim_per_layer=4), **kw)
            else:
                a = FactGraSSAttributor(task, proj_params=FactGrassProjectionParams(
                    proj_dim_per_layer=3), blowup_factor=3, **kw)
            a.cache(M.loader(*tr, bs))
            for rep in range(2):
                cross = a.attribute(M.loader(*tr, bs), M.loader(*tr, 2))
                got = a.compute_self_attribution()
                ctx.execution()
                ctx.step()
                ctx.outcome(got)
                ctx.close("block", got, cross.diagonal(), rtol=2e-3, atol=1e-6,
                          what=f"batch {bs} chunk {cs} call {rep}")
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if ctx.failures:
            return
