"""C32: invalid requests are refused instead of being answered silently.

Each option with a limited set of legal values is set to an illegal value at every position
it can take (each place of a layer list, each wrong length, each index outside the range) and
used in a complete attribution; some step of it has to raise.  For requests made on a live
object, the refused call is inserted at every point of every valid history up to a depth, and
the valid calls around it must answer exactly as without it.
"""

from __future__ import annotations

import itertools
import math
import os
import warnings

import torch

from checks import c20
from mc import block as B
from mc import models as M

PID = "C32"
LEVEL = "exploration"
CHUNK = 1
RULE = ("every listed illegal option value x every position and accompanying option; refused "
        "calls inserted at every point of every valid history up to the depth; non-trivial = "
        "distinct (request, refusal)")
ASSUMPTIONS = ["a refusal is any exception before a result is returned; its type and message "
               "are not claimed", "options the library documents as ignored or only warns "
               "about are not included"]

BAD = "nope"


def put(names, bad=BAD):
    """Every list that has the unknown name in one position of a list of valid ones."""
    for r in range(len(names) + 1):
        for keep in itertools.combinations(names, r):
            for i in range(r + 1):
                yield [*keep[:i], bad, *keep[i:]]


# -- requests that are wrong from the start ------------------------------------------------

TR, TE = M.samples(4, 0), M.samples(2, 1)


def task(n=1):
    return M.make_task("mlp", [M.state("mlp", i) for i in range(n)], "ce")


def answer(att, tr=None, te=None, cache=True, own=False, **kw):
    tr = tr or M.loader(*TR, 2)
    te = te or M.loader(*TE, 1)
    if cache:
        att.cache(tr)
    return att.self_attribute(tr, **kw) if own else att.attribute(tr, te, **kw)


def influence(cls, t=None, call=None, own=False, **kw):
    import dattri.algorithm.influence_function as I

    extra = {"Explicit": {"regularization": 1.0}, "CG": {"regularization": 1.0, "max_iter": 2},
             "LiSSA": {"recursion_depth": 2}, "DataInf": {"regularization": 1.0},
             "Arnoldi": {"regularization": 1.0, "max_iter": 3, "proj_dim": 2},
             "EKFAC": {"damping": 0.3}}[cls]
    att = getattr(I, f"IFAttributor{cls}")(t or task(), **{**extra, **kw})
    return answer(att, own=own, **(call or {}))


def tracin(n=1, own=False, **kw):
    from dattri.algorithm.tracin import TracInAttributor

    return answer(TracInAttributor(task(n), **{"weight_list": [0.5] * n,
                                               "normalized_grad": False, **kw}), cache=False,
                  own=own)


def trak(n=1, own=False, **kw):
    from dattri.algorithm.trak import TRAKAttributor
    from dattri.params.projection import TRAKProjectionParams

    t = task(n)
    att = TRAKAttributor(t, lambda p, d: torch.exp(-t.original_loss_func(p, d)),
                         proj_params=TRAKProjectionParams(proj_type="normal", proj_dim=2),
                         regularization=0.2, **kw)
    tr = M.loader(*TR, 2)
    att.cache(tr)
    return att.self_attribute() if own else att.attribute(M.loader(*TE, 1))


def rps(layer):
    from dattri.algorithm.rps import RPSAttributor
    from dattri.task import AttributionTask

    m = M.build("mlp")
    t = AttributionTask(loss_func=torch.nn.functional.cross_entropy, model=m,
                        checkpoints=[M.state("mlp", 0)])
    return answer(RPSAttributor(t, final_linear_layer_name=layer, l2_strength=0.1, epoch=2))


def block(kind, names, scratch, fam="base", hess="eFIM", off="none", path=None):
    t = B.task(kind, [B.state(kind, 1)])
    a, _, _ = B.make(fam, t, names, hess, 0.3, off, path, 2)
    tr = B.loader(*B.samples(kind, 4, 0), 2)
    a.cache(tr)
    return a.attribute(tr, B.loader(*B.samples(kind, 2, 1), 2))


def dvemb(ft, names=None, n=1, **kw):
    from dattri.algorithm.dvemb import DVEmbAttributor

    if ft == "none":
        t = task(n)
        tr, te = TR, TE
    else:
        t = B.task("mlp", [B.state("mlp", i) for i in range(n)])
        tr, te = B.samples("mlp", 4, 0), B.samples("mlp", 2, 1)
    a = DVEmbAttributor(t, factorization_type=ft, layer_names=names, **kw)
    a.cache_gradients(0, tr, torch.arange(4), 0.1)
    a.cache()
    return a.attribute(B.loader(*te, 2))


def curve(fn, **kw):
    """One of the differentiation helpers on a small cubic."""
    from dattri.func import hessian as H

    def f(x):
        return (x ** 3).sum() + (x * x.roll(1)).sum() + 2 * (x * x).sum()

    x, v = torch.linspace(0.2, 1.0, 3), torch.tensor([1.0, -2.0, 0.5])
    b = torch.stack([v, -v, v * 2])
    if fn == "hvp":
        return H.hvp(f, **kw)((x,), v)
    if fn == "hvp_at_x":
        return H.hvp_at_x(f, x=(x,), **kw)(v)
    if fn == "ihvp_cg":
        return H.ihvp_cg(f, max_iter=3, **kw)((x,), b)
    if fn == "ihvp_at_x_cg":
        return H.ihvp_at_x_cg(f, x, max_iter=3, **kw)(b)
    raise KeyError(fn)


def data_of(n, seed):
    return M.loader(*M.samples(n, seed), 2)


def knn(ntr, nte, ltr, lte, k=2):
    from dattri.algorithm.data_shapley import KNNShapleyAttributor

    kw = {}
    if ltr is not None:
        kw["train_labels"] = [i % 3 for i in range(ltr)]
    if lte is not None:
        kw["test_labels"] = [i % 3 for i in range(lte)]
    return KNNShapleyAttributor(k_neighbors=k).attribute(data_of(ntr, 0), data_of(nte, 1), **kw)


def loo(n, indices, scratch, select=None):
    from dattri.model_util.retrain import retrain_loo
    from torch.utils.data import DataLoader, SubsetRandomSampler, TensorDataset

    ds = TensorDataset(torch.arange(float(n)))
    kw = {"sampler": SubsetRandomSampler(select)} if select else {}
    return retrain_loo(train, DataLoader(ds, batch_size=2, **kw), os.path.join(scratch, "o"),
                       indices=indices, seed=1)


def train(dataloader, seed=None, **kwargs):
    return torch.nn.Linear(1, 1)


def subsets(n, scratch, **kw):
    from dattri.model_util.retrain import retrain_lds
    from torch.utils.data import DataLoader, TensorDataset

    ds = TensorDataset(torch.arange(float(n)))
    return retrain_lds(train, DataLoader(ds, batch_size=2), os.path.join(scratch, "l"),
                       seed=1, **{"num_runs_per_subset": 1, **kw})


def metric(kind, n, idx):
    from dattri.metric import metrics

    g = torch.Generator().manual_seed(3)
    score = torch.randn(n, 2, generator=g)
    gt = torch.randn(len(idx), 2, generator=g)
    fn = metrics.lds if kind == "lds" else metrics.loo_corr
    return fn(score, (gt, torch.tensor(idx)))


def projection(cls, **kw):
    from dattri.params import projection as P

    return getattr(P, cls)(**kw)


def non_squares(top):
    return [d for d in range(1, top) if math.isqrt(d) ** 2 != d]


def factor(fam, dim, **kw):
    from dattri.algorithm.factgrass import FactGraSSAttributor
    from dattri.algorithm.logra import LoGraAttributor
    from dattri.params.projection import FactGrassProjectionParams, LoGraProjectionParams

    t = B.task("mlp", [B.state("mlp", 1)])
    if fam == "logra":
        a = LoGraAttributor(t, proj_params=LoGraProjectionParams(proj_dim_per_layer=dim),
                            hessian="eFIM")
    else:
        a = FactGraSSAttributor(
            t, proj_params=FactGrassProjectionParams(proj_dim_per_layer=dim),
            hessian="eFIM", **kw)
    tr = B.loader(*B.samples("mlp", 4, 0), 2)
    a.cache(tr)
    return a.attribute(tr, tr)


def requests(group, tier):
    """(name, refused?, call(scratch)); the allowed neighbours make the check two-sided."""
    big = tier != "quick"
    names = list(M.build("mlp").state_dict())
    pick = names if big else names[1:]

    def no(name, f):
        return name, True, f

    def yes(name, f):
        return name, False, f

    if group == "layers-if":
        for cls, own in itertools.product(("Explicit", "CG", "LiSSA", "DataInf", "Arnoldi"),
                                          (False, True)):
            tag = f"{cls}{'-self' if own else ''}"
            yield yes(f"{tag}-ok", lambda s, c=cls, o=own: influence(
                c, own=o, layer_name=names[0]))
            yield no(f"{tag}-str", lambda s, c=cls, o=own: influence(c, own=o, layer_name=BAD))
            for ns in put(pick):
                yield no(f"{tag}-{ns}", lambda s, c=cls, o=own, ns=ns: influence(
                    c, own=o, layer_name=ns))
    elif group == "layers-grad":
        for n, own in itertools.product((1, 2), (False, True)):
            for f in (tracin, trak):
                tag = f"{f.__name__}{n}{'-self' if own else ''}"
                yield yes(f"{tag}-ok", lambda s, f=f, n=n, o=own: f(n, o, layer_name=names[0]))
                yield no(f"{tag}-str", lambda s, f=f, n=n, o=own: f(n, o, layer_name=BAD))
                for ns in put(pick):
                    yield no(f"{tag}-{ns}",
                             lambda s, f=f, n=n, o=own, ns=ns: f(n, o, layer_name=ns))
    elif group == "layers-module":
        for m in ("fc1", "fc2", ["fc1"], ["fc2", "fc1"]):
            yield yes(f"ekfac-{m}", lambda s, m=m: influence("EKFAC", module_name=m))
        for m in [BAD, *put(["fc1", "fc2"])]:
            yield no(f"ekfac-{m}", lambda s, m=m: influence("EKFAC", module_name=m))
        yield yes("rps-fc2", lambda s: rps("fc2"))
        for m in (BAD, "fc3", "fc2.nope"):
            yield no(f"rps-{m}", lambda s, m=m: rps(m))
    elif group == "layers-block":
        for kind in ("mlp", "deep"):
            lin = B.LINEARS[kind]
            for fam in ("base", "logra", "factgrass"):
                yield yes(f"{kind}-{fam}-ok",
                          lambda s, k=kind, f=fam, ns=lin: block(k, ns, s, f))
                for ns in put(lin):
                    yield no(f"{kind}-{fam}-{ns}",
                             lambda s, k=kind, f=fam, ns=ns: block(k, ns, s, f))
                act = "act" if kind == "mlp" else "body.1"
                for ns in put(lin, act):
                    yield no(f"{kind}-{fam}-{ns}",
                             lambda s, k=kind, f=fam, ns=ns: block(k, ns, s, f))
    elif group == "block-options":
        for fam in ("base", "logra", "factgrass"):
            for h in ("eFIM", "Identity"):
                yield yes(f"{fam}-{h}", lambda s, f=fam, h=h: block("mlp", None, s, f, h))
                for off in ("bad", "gpu", "Disk", "DISK "):
                    yield no(f"{fam}-{h}-off-{off}",
                             lambda s, f=fam, h=h, o=off: block("mlp", None, s, f, h, o, s))
                yield no(f"{fam}-{h}-disk-nodir",
                         lambda s, f=fam, h=h: block("mlp", None, s, f, h, "disk", None))
                yield yes(f"{fam}-{h}-disk",
                          lambda s, f=fam, h=h: block("mlp", None, s, f, h, "disk", s))
            for h in ("bad", "efim", "identity", "hessian"):
                for off in ("none", "cpu", "disk"):
                    yield no(f"{fam}-hess-{h}-{off}", lambda s, f=fam, h=h, o=off:
                             block("mlp", None, s, f, h, o, s if o == "disk" else None))
    elif group == "dims":
        top = 40 if not big else 150
        for d in (1, 4, 9):
            yield yes(f"logra-{d}", lambda s, d=d: factor("logra", d))
        for d in non_squares(top):
            yield no(f"logra-{d}", lambda s, d=d: factor("logra", d))
        for b in (1, 2, 3, 4):
            for d in range(1, 20 if not big else 80):
                # the dimension of the sparse intermediate must be a square
                if math.isqrt(d * b) ** 2 != d * b:
                    yield no(f"fact-{d}x{b}",
                             lambda s, d=d, b=b: factor("factgrass", d, blowup_factor=b))
        yield yes("fact-4x4", lambda s: factor("factgrass", 4, blowup_factor=4))
        for cls in ("TracInProjectionParams", "TRAKProjectionParams", "DVEmbProjectionParams",
                    "LoGraProjectionParams", "FactGrassProjectionParams"):
            yield yes(f"{cls}-normal", lambda s, c=cls: projection(c, proj_type="normal"))
            for p in ("bad", "Normal", "", None, 3):
                yield no(f"{cls}-{p}", lambda s, c=cls, p=p: projection(c, proj_type=p))
        for d in (-1, -3):
            yield no(f"tracin-dim{d}", lambda s, d=d: tracin(
                proj_params=projection("TracInProjectionParams", proj_type="normal",
                                       proj_dim=d)))
    elif group == "dvemb":
        for ft in ("none", "kronecker", "elementwise"):
            yield yes(ft, lambda s, ft=ft: dvemb(ft))
        for ft in ("bad", "None", "Kronecker", "", "kron"):
            for kw in ({}, {"proj_params": ("normal", 4)}):
                def f(s, ft=ft, kw=kw):
                    k = {}
                    if kw:
                        k["proj_params"] = projection("DVEmbProjectionParams",
                                                      proj_type="normal", proj_dim=4)
                    return dvemb(ft, **k)
                yield no(f"ft-{ft}-{'p' if kw else ''}", f)
        for ft in ("kronecker", "elementwise"):
            for ns in ([BAD], BAD, [BAD, "fc3"], ["act"], ["act", "fc1"], ["fc1", "act"]):
                yield no(f"{ft}-{ns}", lambda s, ft=ft, ns=ns: dvemb(ft, ns))
    elif group == "modes":
        for fn in ("hvp", "hvp_at_x", "ihvp_cg", "ihvp_at_x_cg"):
            for m in ("rev-rev", "rev-fwd"):
                yield yes(f"{fn}-{m}", lambda s, f=fn, m=m: curve(f, mode=m))
            for m in ("bad", "fwd-rev", "rev", "", None, "Rev-Rev", "fwd-fwd"):
                yield no(f"{fn}-{m}", lambda s, f=fn, m=m: curve(f, mode=m))
        for cls in ("CG", "LiSSA"):
            for m in ("rev-rev", "rev-fwd"):
                yield yes(f"{cls}-{m}", lambda s, c=cls, m=m: influence(c, mode=m))
            for m in ("bad", "fwd-rev", "rev", "", None):
                for n in (1, 2):
                    yield no(f"{cls}-{m}-{n}",
                             lambda s, c=cls, m=m, n=n: influence(c, task(n), mode=m))
    elif group == "lengths":
        for n in (1, 2, 3):
            for k in range(0, 5):
                for norm in (False, True):
                    for ty in ("list", "tensor"):
                        w = [0.5] * k if ty == "list" else torch.full((k,), 0.5)
                        for own in (False, True):
                            f = (lambda s, n=n, w=w, norm=norm, o=own:
                                 tracin(n, o, weight_list=w, normalized_grad=norm))
                            tag = "-self" if own else ""
                            yield (f"tracin-{n}ckpt-{k}w-{norm}-{ty}{tag}", n != k, f)
        for n in (2, 3):
            for own in (False, True):
                yield no(f"ekfac-{n}ckpt{'-self' if own else ''}",
                         lambda s, n=n, o=own: influence("EKFAC", task(n), own=o))
        yield yes("ekfac-1ckpt", lambda s: influence("EKFAC", task(1)))
        top = 4 if not big else 6
        for ntr, nte in itertools.product(range(1, top), repeat=2):
            for l in range(0, top + 2):
                yield (f"knn-{ntr}-{nte}-train{l}", l != ntr,
                       lambda s, a=ntr, b=nte, l=l: knn(a, b, l, b))
                yield (f"knn-{ntr}-{nte}-test{l}", l != nte,
                       lambda s, a=ntr, b=nte, l=l: knn(a, b, a, l))
    elif group == "retrain":
        for n in (1, 3, 5):
            lim = list(range(-n - 1, n + 3))
            for r in (1, 2):
                for idx in itertools.permutations(lim, r):
                    bad = any(not 0 <= i < n for i in idx)
                    if n == 5 and r == 2 and not big and sum(idx) % 3:
                        continue
                    yield (f"loo-{n}-{idx}", bad, lambda s, n=n, i=list(idx): loo(n, i, s))
        for sel in ([4, 1, 3], [0]):
            for i in range(-2, 6):
                yield (f"loo-sampler{len(sel)}-{i}", not 0 <= i < len(sel),
                       lambda s, sel=sel, i=i: loo(5, [i], s, sel))
        for a, b in itertools.product(range(1, 6), repeat=2):
            yield (f"lds-{a}of{b}", b % a != 0, lambda s, a=a, b=b:
                   subsets(4, s, num_subsets=a, total_num_subsets=b, subset_ratio=0.5))
        for n in (2, 4):
            for r in (-1.0, -0.5, 1.5, 2.0):
                yield no(f"lds-{n}-ratio{r}", lambda s, n=n, r=r:
                         subsets(n, s, num_subsets=2, subset_ratio=r))
            for r in (0.5, 1.0):
                yield yes(f"lds-{n}-ratio{r}", lambda s, n=n, r=r:
                          subsets(n, s, num_subsets=2, subset_ratio=r))
    elif group == "metric-index":
        for n in (2, 3, 4):
            base = [[0, 1], [1, 0], [0, 1], [1, 0]]
            yield yes(f"lds-{n}", lambda s, n=n, b=base: metric("lds", n, b))
            for i, j, v in itertools.product(range(4), range(2), (n, n + 1, n + 5)):
                idx = [list(r) for r in base]
                idx[i][j] = v
                yield no(f"lds-{n}-{i}{j}-{v}", lambda s, n=n, b=idx: metric("lds", n, b))
            yield yes(f"loo-{n}", lambda s, n=n: metric("loo", n, list(range(n))))
            for i, v in itertools.product(range(n), (n, n + 1, n + 5)):
                idx = list(range(n))
                idx[i] = v
                yield no(f"loo-{n}-{i}-{v}", lambda s, n=n, b=idx: metric("loo", n, b))
    else:
        raise KeyError(group)


GROUPS = {"layers-if": 5, "layers-grad": 3, "layers-module": 1, "layers-block": 4,
          "block-options": 3, "dims": 2, "dvemb": 1, "modes": 2, "lengths": 3, "retrain": 3,
          "metric-index": 1}

# -- requests refused on a live object -----------------------------------------------------

IFOPS = ("cA", "cB", "aAt", "qBu", "sA")


def illegal(name, big):
    """Illegal calls on one of the subjects of C20, all refused whatever came before."""
    fam = name.partition(":")[0]
    d = c20.data
    if fam in ("explicit", "cg", "lissa"):
        return {f"q-{m}-{st}": (lambda s, m=m, st=st: (
            s.att.attribute(d("A"), d("t"), relatif_method=m) if st == "a" else
            s.att.self_attribute(d("A"), relatif_method=m)))
            for m, st in (("bad", "a"), ("bad", "s"), ("L", "a"),
                          *((("L", "s"), ("thetarel", "a"), ("", "s")) if big else ()))}
    if fam.startswith("dvemb"):
        out = {f"epoch{e}": (lambda s, e=e: s.att.attribute(d("t"), epoch=e))
               for e in (1, 3, -1)}
        out.update({f"index{i}": (lambda s, i=i: s.att.attribute(d("t"),
                                                                 train_data_indices=i))
                    for i in ([9], [0, 9], [9, 0])})
        return out
    raise KeyError(fam)


def before(name):
    """Calls made before anything they need exists."""
    d = c20.data
    fam = name.partition(":")[0]
    if fam.startswith("dvemb"):
        return {"attribute": lambda s: s.att.attribute(d("t")),
                "embed": lambda s: s.att.cache()}
    if fam == "trak":
        return {"attribute": lambda s: s.att.attribute(d("t")),
                "self": lambda s: s.att.self_attribute()}
    if fam in ("arnoldi", "ekfac", "datainf"):
        return {"attribute": lambda s: s.att.attribute(d("A"), d("t"))}
    if fam in ("block", "logra", "factgrass"):
        return {"self": lambda s: s.att.compute_self_attribution()}
    return {}


LIVE = {
    **{s: IFOPS for s in ("explicit", "explicit:2", "cg", "lissa", "cg:2")},
    **{s: ("r0", "r2", "e", "a-t", "a-u") for s in ("dvemb-full", "dvemb-kron", "dvemb-ctx")},
    **{s: ("cA", "cB", "a-t", "s") for s in ("trak", "trak:2")},
    **{s: ("cA", "cB", "aAt", "sA") for s in ("arnoldi", "arnoldi:2", "datainf", "datainf:2")},
    "ekfac": ("cA", "cB", "aAt"),
    **{s: ("cA", "cB", "aAt", "s") for s in ("block", "block:d", "block:c", "logra",
                                             "factgrass:d")},
}


def cases(tier):
    for g, parts in GROUPS.items():
        for p in range(parts):
            yield {"id": f"{g}-{p}" if parts > 1 else g, "group": g, "part": p,
                   "parts": parts, "tier": tier}
    for s, ops in LIVE.items():
        for o in ops:
            yield {"id": f"live-{s}-{o}", "live": s, "first": o,
                   "depth": 3 if tier == "quick" else 4}


def refused(f):
    try:
        return None, f()
    except Exception as e:  # noqa: BLE001 - any exception is a refusal
        return type(e).__name__, None


def wrong(case, ctx):
    for i, (name, bad, f) in enumerate(requests(case["group"], case["tier"])):
        if i % case["parts"] != case["part"]:
            continue
        with B.scratch() as scratch:
            why, got = refused(lambda f=f, s=scratch: f(s))
            B.reap()
        ctx.execution()
        ctx.step()
        ctx.outcome((case["group"], name if bad else "allowed", why))
        if bad and why is None:
            ctx.fail(f"answered-{name}", f"{case['group']}: the illegal request {name} was "
                                         f"answered with {got!r:.120}")
        if not bad and why is not None:
            ctx.fail(f"refused-{name}", f"{case['group']}: the legal request {name} was "
                                        f"refused: {why}")


def play(name, hist, scratch, extra=None, at=None):
    """Results of the history with the extra call before position ``at``."""
    c20.FAULT.arm()
    s = c20.Subject(name, scratch)
    out, why = [], None
    for i in range(len(hist) + 1):
        if i == at:
            why, _ = refused(lambda: extra(s))
        if i < len(hist):
            w, r = refused(lambda i=i: s.do(hist[i]))
            out.append(w or (r.detach().clone() if isinstance(r, torch.Tensor) else None))
    B.reap()
    return why, out


def live(case, ctx):
    name, ops = case["live"], LIVE[case["live"]]
    try:
        bad = illegal(name, case["depth"] > 3)
    except KeyError:
        bad = {}
    early = before(name)

    def fresh(*args):
        with B.scratch() as scratch:
            return play(name, args[0], scratch, *args[1:])

    for rest in itertools.product(ops, repeat=case["depth"] - 2):
        hist = (case["first"], *rest)
        want = fresh(hist)[1]
        for at in range(len(hist) + 1):
            calls = dict(bad) if not name.startswith("dvemb") or "e" in hist[:at] else {}
            started = any(o[0] in ("e" if name.startswith("dvemb") else "ca")
                          for o in hist[:at])
            if not started:
                calls.update({f"early-{k}": v for k, v in early.items()
                              if k != "embed" or not any(o[0] == "r"
                                                         for o in hist[:at])})
            for k, f in calls.items():
                why, got = fresh(hist, f, at)
                ctx.execution()
                ctx.step()
                ctx.outcome((name, k, why))
                where = f"{'-'.join(hist[:at])}[{k}]{'-'.join(hist[at:])}"
                if why is None:
                    ctx.fail(f"answered-{k}", f"{where}: the illegal call was answered")
                for i, (g, w) in enumerate(zip(got, want)):
                    if isinstance(w, str):
                        if not isinstance(g, str):
                            ctx.fail(f"opened-{k}", f"{where}: {hist[i]} is refused "
                                     f"without the illegal call, answered after it")
                    elif isinstance(g, str):
                        ctx.fail(f"broken-{k}", f"{where}: {hist[i]} raised {g}")
                    elif w is not None:
                        ctx.close(f"same-{k}", g, w, 1e-5, 1e-7, f"{where} at {hist[i]}")
        if ctx.failures:
            return


def run(case, ctx):
    warnings.simplefilter("ignore")
    B.fast_polling()
    if "live" in case:
        live(case, ctx)
    else:
        wrong(case, ctx)
