"""C35: the floating-point precision of the model changes scores by rounding only.

Every operation history is executed by an attributor of a float32, a float64 and (where the
needed kernels exist) a bfloat16 copy of the same model and samples, and the results are
compared step by step.
"""

from __future__ import annotations

import itertools
import warnings

import torch
from torch.utils.data import TensorDataset

from checks import c20, c31
from mc import block as B

PID = "C35"
LEVEL = "exploration"
CHUNK = 1
RULE = ("every operation history up to the depth bound on every attributor and option set, in "
        "float64 (and bfloat16 where its kernels exist) in lockstep with float32; every result "
        "compared; non-trivial = distinct results")
ASSUMPTIONS = ["CPU", "random projections whose entries do not depend on the precision",
               "LiSSA with full-batch sampling"]

PROJ = ("identity", "random_mask", "sjlt")
IF = ("cA", "cB", "aAt", "aBu", "sA")
SPEC = {
    **{s: IF for s in ("explicit", "cg", "lissa", "arnoldi", "datainf", "ekfac", "explicit:2",
                       "cg:2", "datainf:2", "arnoldi:2", "lissa:2", "explicit:l2", "cg:l",
                       "lissa:l", "datainf:l", "arnoldi:l")},
    "explicit:r": ("cA", "cB", "qAt", "qBu", "sA"),
    **{f"tracin:{o}": ("aAt", "aBu", "sA", "aAu") for o in
       ("2n-identity", "2n-sjlt", "2l-random_mask", "1n-sjlt", *(f"2-{p}" for p in PROJ))},
    **{f"trak:{o}-{p}": ("cA", "cB", "a-t", "aBu", "sA", "s") for o in ("1", "2")
       for p in PROJ},
    "rps": ("cA", "cB", "aAt", "aBu"),
    **{s: ("cA", "cB", "aAt", "aBu", "s") for s in
       ("block", "block:c", "block:d", "block:i", "block:id", "logra", "factgrass:d",
        "logra:c")},
    **{s: ("r0", "r2", "e", "a-t", "a-u") for s in ("dvemb-full", "dvemb-kron", "dvemb-ctx")},
    "knn": ("aAt", "aBu", "lAt", "lBu"),
}
HALF = ("lissa", "datainf", "tracin", "block", "logra", "factgrass", "dvemb")


def cases(tier):
    for name, ops in SPEC.items():
        for first in ops:
            if first == "s" and not name.startswith("trak"):
                continue                # nothing to answer yet
            yield {"id": f"{name}-{first}", "name": name, "first": first,
                   "depth": 2 if tier == "quick" else 3}


ORIG, NET, CKPTS = c31.ORIG, c20.Net, c20.CKPTS


def precision(dt):
    """Make the models, checkpoints and samples of the subjects use dt."""
    def samples(name):
        d = ORIG(name)
        x, y = d.dataset.tensors
        # a few digits, so that every precision holds the same numbers
        return c20.Loader(TensorDataset((x * 64).round().div(64).to(dt), y),
                          batch_size=d.batch_size)

    c31.ORIG = samples
    c20.Net = lambda **kw: NET(**kw).to(dt)
    c20.CKPTS = [{k: (v * 64).round().div(64).to(dt) for k, v in c.items()} for c in CKPTS]


class Sub(c31.Sub):
    def build(self, fam, task, lay, scratch):
        from dattri.algorithm.tracin import TracInAttributor
        from dattri.algorithm.trak import TRAKAttributor
        from dattri.params.projection import TracInProjectionParams, TRAKProjectionParams

        opt, _, proj = self.opt.partition("-")
        if fam == "tracin":
            pp = TracInProjectionParams(
                proj_type=proj, proj_dim=17 if proj == "identity" else 6)
            return TracInAttributor(task, weight_list=[0.5, 0.7][:len(self.ckpts)],
                                   proj_params=pp,
                                    layer_name=["fc2.weight"] if "l" in opt else None,
                                    normalized_grad="n" in opt)
        if fam == "trak":
            return TRAKAttributor(task, c20.functional(self.model, "prob"), regularization=0.2,
                                  proj_params=TRAKProjectionParams(
                                      proj_type=proj,
                                      proj_dim=17 if proj == "identity" else 6))
        if fam == "lissa":
            from dattri.algorithm.influence_function import IFAttributorLiSSA

            return IFAttributorLiSSA(task, recursion_depth=2, scaling=5.0, batch_size=8,
                                     damping=0.1, layer_name=lay)
        return super().build(fam, task, lay, scratch)


def history(name, seq, dt, d):
    """Results of the operations; an exception ends the history."""
    precision(dt)
    c20.FAULT.arm()
    out = []
    s = c31.Knn() if name == "knn" else Sub(name, d)
    for op in seq:
        torch.manual_seed(1)
        try:
            got = s.do(op)
        except Exception as e:  # noqa: BLE001
            out.append(e)
            break
        if isinstance(got, torch.Tensor):
            got = got.detach().clone()
        out.append(got if isinstance(got, torch.Tensor) else None)
    return out


def run(case, ctx):
    warnings.simplefilter("ignore")
    B.fast_polling()
    name, first = case["name"], case["first"]
    fam = name.partition(":")[0]
    half = fam.partition("-")[0] in HALF
    ops = SPEC[name]
    depth = case["depth"] + (2 if name.startswith("dvemb") else 0)
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first, *rest)
        if fam == "dvemb" or name.startswith("dvemb"):
            if "e" in seq and not any(o[0] == "r" for o in seq[:seq.index("e")]):
                continue
            if any(o[0] == "a" for o in seq[:-1]) or seq[-1][0] != "a":
                continue
        base = None
        for dt in (torch.float32, torch.float64, torch.bfloat16)[:3 if half else 2]:
            with B.scratch() as d:
                got = history(name, seq, dt, d)
            ctx.execution()
            if base is None:
                base = got
                ctx.outcome([g if isinstance(g, torch.Tensor) else str(g) for g in got])
                continue
            what = f"{'-'.join(seq)} in {str(dt)[6:]}"
            for a, b, op in zip(base, got, seq):
                ctx.step()
                if isinstance(a, Exception) or isinstance(b, Exception):
                    if type(a) is not type(b):
                        ctx.fail(f"refused-{str(dt)[6:]}", f"{what}: {op} gives {b!r}, in "
                                                           f"float32 {a!r}")
                        return
                elif isinstance(a, torch.Tensor):
                    if not isinstance(b, torch.Tensor) or a.shape != b.shape:
                        ctx.fail("shape", f"{what}: {op}")
                        return
                    r = 0.2 if dt is torch.bfloat16 else 1e-3
                    if not ctx.close(f"{str(dt)[6:]}", b.double(), a.double(), r, 1e-6, what):
                        return
