"""C04: TRAK against the projected-kernel formula, over cache/attribute histories."""

from __future__ import annotations

import itertools

import torch

from mc import models as M

PID = "C04"
LEVEL = "model_checking"
RULE = ("states: (cached training set, its batching) x last call of a real TRAK attributor; "
        "transitions: cache(A|B, batching), attribute(cached), attribute(explicit train), "
        "self_attribute(cached|explicit), calls that must be refused; every history up to "
        "the depth is executed and every result compared with the reference model, plus "
        "every batching of every loader per configuration; non-trivial = distinct scores")
ASSUMPTIONS = ["the projection matrix itself is taken from random_project applied to the "
               "identity (its own properties are C14)", "CPU float32",
               "training kernel plus regularisation is well conditioned"]

LAYERS = {"-": None, "s": "fc2.weight", "a": ["fc1.weight"],
          "b": ["fc2.bias", "fc1.weight"],
          "x": ["body.2.0.weight", "body.0.bias"], "y": ["gain", "head.0.bias"]}
# projection, regularisation
PROJ = [("normal", 2, 0, 0.0), ("identity", 0, 0, 0.3), ("normal", 4, 3, 0.05),
        ("rademacher", 5, 1, 0.2), ("random_mask", 3, 2, 0.1), ("default", 0, 0, 0.5)]


def params(p):
    from dattri.params.projection import TRAKProjectionParams

    kind, dim, seed, _ = p
    if kind == "default":
        return None
    if kind == "identity":
        return TRAKProjectionParams(proj_type="identity")
    return TRAKProjectionParams(proj_type=kind, proj_dim=dim, proj_seed=seed)


_CACHE = {}


def matrix(p, dim, ens):
    """Projection matrix seen by one row vector, from the identity."""
    from dattri.func.projection import random_project
    from dattri.params.projection import RandomProjectionParams, TRAKProjectionParams

    if (p, dim, ens) in _CACHE:
        return _CACHE[p, dim, ens]
    pp = params(p) or TRAKProjectionParams()
    if pp.proj_type == "identity":
        return torch.eye(dim, dtype=torch.float64)
    rows = []
    for i in range(dim):
        e = torch.zeros(1, dim)
        e[0, i] = 1.0
        f = random_project(e, proj_params=RandomProjectionParams(
            feature_batch_size=1, device="cpu", **pp.model_dump()))
        rows.append(f(e, ensemble_id=ens)[0])
    _CACHE[p, dim, ens] = torch.stack(rows).double()
    return _CACHE[p, dim, ens]


def prob(model, shape):
    """Probability of the correct class; per sample a scalar or one element."""
    def f(p, data):
        x, y = M.split(data)
        out = torch.func.functional_call(model, p, (x.reshape(-1, M.IN),))
        pr = torch.softmax(out, -1)
        y = (y.reshape(-1, 1) == torch.arange(M.OUT)).to(out.dtype)
        v = (pr * y).sum(-1)
        return v[0] if shape == "scalar" else v
    return f


def logit_fn(model):
    """Log-odds, the loss the documentation recommends for TRAK."""
    def f(params_, data):
        x, y = M.split(data)
        out = torch.func.functional_call(model, params_, (x.reshape(-1, M.IN),))
        logp = -torch.nn.functional.cross_entropy(out, y.reshape(-1).long())
        return logp - torch.log(1 - torch.exp(logp))
    return f


M.FUNCS.setdefault("logodds", logit_fn)


class Ref:
    def __init__(self, case):
        self.case = case
        self.refs = [M.Ref(case["kind"], M.state(case["kind"], c), LAYERS[case["lay"]])
                     for c in range(case["nck"])]
        self.total = sum(p.numel() for p in self.refs[0].params.values())

    def feats(self, c, func, x, y):
        r = self.refs[c]
        g = r.grads(func, x, y) / self.total ** 0.5
        return g @ matrix(PROJ[self.case["proj"]], g.shape[1], c)

    def q(self, x, y):
        out = []
        for r in self.refs:
            f = prob(r.model, "scalar")
            out.append(torch.stack([1 - f(r.params, (x[i:i + 1].double(), y[i:i + 1]))
                                    for i in range(len(x))]))
        return torch.stack(out).mean(0).detach()

    def attribute(self, tr, te):
        """(train, test)"""
        tot = 0
        for c in range(len(self.refs)):
            a = self.feats(c, self.case["loss"], *tr)
            b = self.feats(c, self.case["target"] or self.case["loss"], *te)
            k = a.T @ a + PROJ[self.case["proj"]][3] * torch.eye(a.shape[1]).double()
            tot = tot + b @ torch.linalg.solve(k, a.T)
        return ((tot / len(self.refs)) * self.q(*tr)).T

    def self_attribute(self, tr):
        tot = 0
        for c in range(len(self.refs)):
            a = self.feats(c, self.case["loss"], *tr)
            k = a.T @ a + PROJ[self.case["proj"]][3] * torch.eye(a.shape[1]).double()
            tot = tot + (a * torch.linalg.solve(k, a.T).T).sum(-1)
        return (tot / len(self.refs)) * self.q(*tr)


def attributor(case, task=None):
    from dattri.algorithm.trak import TRAKAttributor

    task = task or M.make_task(case["kind"],
                               [M.state(case["kind"], c) for c in range(case["nck"])],
                               case["loss"], case["target"])
    lay = LAYERS[case["lay"]]
    p = PROJ[case["proj"]]
    return TRAKAttributor(task, prob(task.get_model(), case["pshape"]),
                          proj_params=params(p), regularization=p[3],
                          layer_name=list(lay) if isinstance(lay, list) else lay)


def cases(tier):
    deep = tier == "thorough"
    i = 0
    for nck, p, lay in itertools.product((1, 2, 3), range(len(PROJ)), "-sab"):
        if PROJ[p][0] == "default" and (nck, lay) not in ((1, "-"), (2, "b")):
            continue
        if not deep and lay in "sa" and (nck, p) not in ((2, 0), (2, 1), (3, 2)):
            continue
        i += 1
        yield {"id": f"cfg-k{nck}p{p}l{lay}", "what": "cfg", "nck": nck, "proj": p,
               "lay": lay, "cont": ("tuple", "dict", "list")[i % 3],
               "kind": ("mlp", "mlpfz", "lin")[i % 3] if lay == "-" else
               ("mlp", "mlpfz")[i % 2],
               "loss": ("ce", "logodds")[(i // 2) % 2],
               "target": (None, "margin")[i % 2], "pshape": ("one", "scalar")[(i // 3) % 2],
               "ntr": 6 if deep else 5, "nte": 4 if deep else 3}
    for q, p in enumerate((0, 1, 2)):
        yield {"id": f"large-p{p}", "what": "cfg", "nck": 5, "proj": p, "lay": "-b"[q % 2],
               "cont": ("tuple", "dict", "list")[q], "kind": "mlp", "loss": "ce",
               "target": "margin", "pshape": ("one", "scalar")[q % 2], "ntr": 23, "nte": 17,
               "btr": [1, 5, 10, 12, 22, 64], "bte": [1, 6, 17]}
    for p, lay in itertools.product((0, 1, 2), "-xy"):
        yield {"id": f"nest-p{p}l{lay}", "what": "cfg", "nck": 2, "proj": p, "lay": lay,
               "cont": "tuple", "kind": "nest", "loss": "ce", "target": "margin",
               "pshape": "one", "ntr": 5, "nte": 3}
    depth = 4 if deep else 3
    for nck, p, lay, sh in ((2, 0, "-", "scalar"), (1, 1, "b", "one"), (3, 2, "a", "scalar"),
                            (2, 1, "-", "one")):
        for first in ("cA2", "cA3", "cB1", "a", "x", "s", "S"):
            yield {"id": f"hist-k{nck}p{p}l{lay}-{first}", "what": "hist", "nck": nck,
                   "proj": p, "lay": lay, "cont": "tuple", "kind": "mlp", "loss": "ce",
                   "target": "margin", "pshape": sh, "first": first, "depth": depth}


def run(case, ctx):
    if case["what"] == "cfg":
        return config(case, ctx)
    return history(case, ctx)


def config(case, ctx):
    ntr, nte, cont = case["ntr"], case["nte"], case["cont"]
    tr, te = M.samples(ntr, 0), M.samples(nte, 1)
    ref = Ref(case)
    want, wself = ref.attribute(tr, te), ref.self_attribute(tr)
    tol = {"rtol": 3e-3, "atol": 1e-6}

    def check(key, got, exp, what):
        ctx.execution()
        ctx.step()
        ctx.outcome(got)
        ctx.close(key, got, exp, what=what, **tol)

    for btr in case.get("btr", range(1, ntr + 1)):
        cached, plain = attributor(case), attributor(case)
        cached.cache(M.loader(*tr, btr, cont))
        for bte in case.get("bte", range(1, nte + 1)):
            what = f"train batch {btr} test batch {bte}"
            test = M.loader(*te, bte, cont)
            check("cached", cached.attribute(test), want, what)
            check("explicit", plain.attribute(test, M.loader(*tr, btr, cont)), want, what)
            ctx.count("remainder_batches", int(ntr % btr != 0 or nte % bte != 0))
        check("self-explicit", plain.self_attribute(M.loader(*tr, btr, cont)).reshape(-1),
              wself, f"train batch {btr}")
        check("self-cached", cached.self_attribute().reshape(-1), wself,
              f"train batch {btr}")
        ctx.state([btr, want])
        if ctx.failures:
            return


def history(case, ctx):
    """All histories of the given depth starting with one operation."""
    data = {"A": M.samples(5, 0), "B": M.samples(4, 2)}
    tests = {"a": M.samples(3, 1), "x": M.samples(2, 3)}
    ref = Ref(case)
    want = {(d, t): ref.attribute(data[d], tests[t]) for d in data for t in tests}
    wself = {d: ref.self_attribute(data[d]) for d in data}
    other = dict(case, lay="a" if case["lay"] != "a" else "-", proj=1)
    wother = Ref(other).attribute(data["A"], tests["a"])
    # cache A/B, attribute a/x from the cache, a from explicit A or B, self cached /
    # explicit, another attributor of the same task
    ops = ("cA2", "cA3", "cB1", "a", "x", "eA", "eB", "s", "S", "o")
    tol = {"rtol": 3e-3, "atol": 1e-6}

    def refused(f):
        try:
            f()
        except ValueError:
            return True
        return False

    for tail in itertools.product(ops, repeat=case["depth"] - 1):
        hist = (case["first"], *tail)
        at = attributor(case)
        ot = None
        cached = None
        for i, o in enumerate(hist):
            what = " ".join(hist[:i + 1])
            bs = 1 + i % 3
            if o[0] == "c":
                at.cache(M.loader(*data[o[1]], int(o[2])))
                cached = o[1]
            elif o in "ax":
                dl = M.loader(*tests[o], bs)
                if cached is None:
                    if not refused(lambda dl=dl: at.attribute(dl)):
                        ctx.fail("refuse", f"attribute without any training set: {what}")
                else:
                    ctx.close("hist", at.attribute(dl), want[cached, o], what=what, **tol)
            elif o[0] == "e":
                dl, trl = M.loader(*tests["a"], bs), M.loader(*data[o[1]], 2)
                if cached is not None:
                    if not refused(lambda dl=dl, trl=trl: at.attribute(dl, trl)):
                        ctx.fail("refuse", f"second training set accepted: {what}")
                else:
                    ctx.close("hist-explicit", at.attribute(dl, trl), want[o[1], "a"],
                              what=what, **tol)
            elif o == "s":
                if cached is None:
                    if not refused(lambda: at.self_attribute()):
                        ctx.fail("refuse", f"self_attribute without training set: {what}")
                else:
                    ctx.close("hist-self", at.self_attribute().reshape(-1), wself[cached],
                              what=what, **tol)
            elif o == "S":
                trl = M.loader(*data["B"], bs)
                if cached is not None:
                    if not refused(lambda trl=trl: at.self_attribute(trl)):
                        ctx.fail("refuse", f"second training set accepted: {what}")
                else:
                    ctx.close("hist-self-explicit", at.self_attribute(trl).reshape(-1),
                              wself["B"], what=what, **tol)
            else:
                if ot is None:
                    ot = attributor(other, at.task)
                    ot.cache(M.loader(*data["A"], 2))
                ctx.close("hist-other", ot.attribute(M.loader(*tests["a"], bs)), wother,
                          what=what, **tol)
            ctx.step()
            ctx.state([case["id"], cached, ot is not None, o])
        ctx.execution()
        ctx.outcome(hist[-1] + str(cached))
        if ctx.failures:
            return
