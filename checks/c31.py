"""C31: calls read their inputs only, results are independent values, no hidden state.

Every operation sequence up to a depth is executed twice on fresh attributors: once plainly
and once with another global random state, with random numbers drawn between the calls and
with every returned tensor overwritten by the caller.  Both executions must give the same
results, and after every operation the caller's inputs and the earlier results must be
bit-identical to what they were.
"""

from __future__ import annotations

import itertools
import random
import warnings

import numpy as np
import torch
from torch.utils.data import DataLoader, TensorDataset

from checks import c20
from mc import block as B

PID = "C31"
LEVEL = "exploration"
CHUNK = 1
RULE = ("every operation sequence up to the depth, executed plainly and with a different "
        "global random state and overwritten results; the same question asked again must get the "
        "same answer; inputs, earlier results and global "
        "settings compared after every operation; non-trivial = distinct results")
ASSUMPTIONS = ["user functions are themselves deterministic", "LiSSA with full-batch sampling",
               "the positions of the global random generators themselves are not claimed"]

SPEC = {  # subject -> operations
    **{f"{s}": ("cA", "cB", "aAt", "aBu", "sA") for s in
       ("explicit", "cg", "lissa", "arnoldi", "datainf", "ekfac", "explicit:2", "cg:2",
        "datainf:2", "arnoldi:2", "explicit:l2")},
    "explicit:r": ("cA", "cB", "qAt", "qBu", "sA"),
    **{s: ("aAt", "aBu", "sA", "aAu") for s in ("tracin:2", "tracin:2n", "tracin:2w",
                                                "tracin:2p")},
    **{s: ("cA", "cB", "a-t", "aBu", "sA", "s") for s in ("trak", "trak:2")},
    "rps": ("cA", "cB", "aAt", "aBu"),
    **{s: ("cA", "cB", "aAt", "aBu", "s") for s in ("block", "block:c", "block:d", "logra",
                                                    "factgrass:d", "logra:c")},
    **{s: ("r0", "r2", "e", "a-t", "a-u") for s in ("dvemb-full", "dvemb-kron", "dvemb-ctx",
                                                    "dvemb-full:p", "dvemb-kron:p")},
    **{s: ("E", "a-t", "a0t", "a1u") for s in ("dvemb-full:2", "dvemb-kron:2",
                                               "dvemb-full:p2")},
    "knn": ("aAt", "aBu", "lAt", "lBu"),
    **{s: ("lds", "loo", "auc", "flip", "brittle") for s in ("metric", "metric:odd")},
}
NEEDS_CACHE = ("arnoldi", "datainf", "ekfac")


def cases(tier):
    for name, ops in SPEC.items():
        for i, o in enumerate(ops):
            yield {"id": f"{name}-{o}", "name": name, "first": o,
                   "depth": 3 if tier == "quick" else 4}


def identical(a, b):
    """Bit for bit (undefined values included)."""
    return a.shape == b.shape and a.dtype == b.dtype and \
        a.contiguous().numpy().tobytes() == b.contiguous().numpy().tobytes()


class Inputs:
    """Everything the caller hands over, with bit-exact copies."""

    def __init__(self):
        self.tensors, self.plain = [], []

    def add(self, what, v):
        if isinstance(v, torch.Tensor):
            self.tensors.append((what, v, v.clone(), v._version))
        elif isinstance(v, dict):
            for k, x in v.items():
                self.add(f"{what}[{k}]", x)
            self.plain.append((f"keys of {what}", v, list, list(v)))
        elif isinstance(v, (list, tuple)):
            for k, x in enumerate(v):
                if isinstance(x, (torch.Tensor, dict)):
                    self.add(f"{what}[{k}]", x)
            self.plain.append((what, v, lambda z: [id(q) if isinstance(q, torch.Tensor) else q
                                                   for q in z],
                               [id(q) if isinstance(q, torch.Tensor) else q for q in v]))
        elif hasattr(v, "model_dump"):
            self.plain.append((what, v, lambda z: z.model_dump(), v.model_dump()))
        elif isinstance(v, np.ndarray):
            self.plain.append((what, v, lambda z: z.tolist(), v.tolist()))
        else:
            raise TypeError(type(v))
        return v

    def changed(self):
        out = [w for w, t, c, _ in self.tensors if not identical(t, c)]
        return out + [w for w, v, f, c in self.plain if f(v) != c]


class Sub(c20.Subject):
    def __init__(self, name, scratch):
        self.inp = Inputs()
        self.loaders = {}
        for k in "ABtu":
            d = ORIG(k)
            self.loaders[k] = self.inp.add(f"samples {k}", list(d.dataset.tensors)) and d
        self.mine = name.partition(":")[2]
        super().__init__(name, scratch)
        if self.att is not None:
            self.inp.add("checkpoints", self.task.checkpoints)

    def build(self, fam, task, lay, scratch):
        from dattri.algorithm.dvemb import DVEmbAttributor
        from dattri.algorithm.tracin import TracInAttributor
        from dattri.algorithm.trak import TRAKAttributor
        from dattri.params.projection import (DVEmbProjectionParams, TracInProjectionParams,
                                              TRAKProjectionParams)

        add = self.inp.add
        if fam in ("explicit", "cg", "datainf", "lissa") and lay:
            lay = add("layer names", [lay, "fc1.bias"])
        if fam == "tracin":
            w = torch.tensor([0.5, 0.7]) if "w" in self.opt else [0.5, 0.7]
            pp = None
            if "p" in self.opt:
                pp = add("projection", TracInProjectionParams(proj_type="normal", proj_dim=3))
            return TracInAttributor(task, weight_list=add("weights", w), proj_params=pp,
                                    layer_name=add("layer names", ["fc2.weight", "fc1.bias"]),
                                    normalized_grad="n" in self.opt)
        if fam == "trak":
            return TRAKAttributor(task, c20.functional(self.model, "prob"),
                                  proj_params=add("projection", TRAKProjectionParams(
                                      proj_type="normal", proj_dim=2)),
                                  layer_name=add("layer names", ["fc2.weight", "fc1.bias"]),
                                  regularization=0.2)
        if fam.startswith("dvemb"):
            pp = None
            if "p" in self.opt:
                pp = add("projection", DVEmbProjectionParams(proj_type="normal", proj_dim=4))
            return DVEmbAttributor(
                task, factorization_type="none" if fam == "dvemb-full" else "kronecker",
                **({"proj_params": pp} if pp else {}))
        return super().build(fam, task, lay, scratch)

    def do(self, op):
        c20.data = self.loaders.__getitem__
        if op == "E":                       # three epochs of training and their embeddings
            x, y = self.loaders["A"].dataset.tensors
            for ep, idx in enumerate(([0, 1], [1, 2], [2, 0])):
                self.att.cache_gradients(ep, (x[idx], y[idx]), torch.tensor(idx), 0.2)
            return self.att.cache()
        if op[0] == "a" and op[1].isdigit():
            return self.att.attribute(self.loaders[op[2]], epoch=int(op[1]))
        return super().do(op)


class Knn:
    """KNN-Shapley with labels from the batches or from lists."""

    def __init__(self):
        from dattri.algorithm.data_shapley import KNNShapleyAttributor

        self.inp = Inputs()
        self.loaders = {}
        for k in "ABtu":
            d = ORIG(k)
            self.inp.add(f"samples {k}", list(d.dataset.tensors))
            self.loaders[k] = d
        self.labels = {k: self.inp.add(f"labels {k}", [0, 1, 0][:len(d.dataset)])
                       for k, d in self.loaders.items()}
        self.att = KNNShapleyAttributor(k_neighbors=2)

    def do(self, op):
        a, b = op[1:]
        kw = {"train_labels": self.labels[a], "test_labels": self.labels[b]} \
            if op[0] == "l" else {}
        return self.att.attribute(self.loaders[a], self.loaders[b], **kw)


class Metric:
    def __init__(self, odd=False):
        self.inp = Inputs()
        add = self.inp.add
        g = torch.Generator().manual_seed(5)
        score, gt = torch.randn(6, 3, generator=g), torch.randn(5, 3, generator=g)
        if odd:                             # undefined, infinite and equal values
            score[1, 0], score[4, 1], score[2] = float("nan"), float("inf"), 0.0
            gt[3, 0], gt[0, 2] = float("-inf"), float("nan")
        self.score, self.gt = add("scores", score), add("ground truth", gt)
        self.idx = add("subsets", torch.tensor([[0, 1], [2, 3], [4, 5], [0, 5], [1, 4]]))
        self.loo = add("removed", torch.tensor([4, 1, 0, 3, 2]))
        self.noise = add("noise", torch.tensor([1, 0, 0, 1, 0, 1]))
        flat = torch.randn(6, generator=g)
        if odd:
            flat[3], flat[0], flat[5] = float("inf"), float("-inf"), float("inf")
        self.flat = add("flat scores", flat)
        self.y = add("labels", torch.tensor([0, 1, 2, 0, 1, 2]))
        self.space = add("search space", [1, 2, 4])
        self.tr = DataLoader(TensorDataset(add("train", torch.arange(6.0))), batch_size=2)
        self.te = DataLoader(TensorDataset(add("test x", torch.ones(1)),
                                           add("test y", torch.tensor([1]))), batch_size=1)

    def do(self, op):
        from dattri.benchmark.utils import flip_label
        from dattri.metric import britteness, metrics

        if op == "lds":
            return metrics.lds(self.score, (self.gt, self.idx))
        if op == "loo":
            return metrics.loo_corr(self.score, (self.gt, self.loo))
        if op == "auc":
            a, (b, c, d) = metrics.mislabel_detection_auc(self.flat, self.noise)
            return torch.tensor(float(a)), *[torch.as_tensor(z) for z in (b, c, d)]
        if op == "flip":
            out, i = flip_label(self.y, p=0.5)
            if len(i) != 3 or len(out) != 6:
                raise AssertionError("flip")
            return None                       # random by design
        seen = []
        k = britteness.brittleness(
            self.tr, self.te, self.flat,
            lambda dl: seen.append([float(v) for b in dl for v in b[0]]),
            lambda m, dl: torch.tensor([1]), search_space=self.space)
        return torch.tensor([float(len(s)) for s in seen] + [-1.0 if k is None else k])


ORIG = c20.data


def build(name, scratch):
    c20.FAULT.arm()
    if name.startswith("metric"):
        return Metric("odd" in name)
    return Knn() if name == "knn" else Sub(name, scratch)


def leaves(r):
    if isinstance(r, torch.Tensor):
        return [r]
    if isinstance(r, (list, tuple)):
        return [x for v in r for x in leaves(v)]
    return []


def settings():
    return (torch.is_grad_enabled(), torch.get_default_dtype(), torch.get_num_threads(),
            torch.are_deterministic_algorithms_enabled(), torch.is_inference_mode_enabled())


def execute(name, hist, ctx, dirty):
    """Results of the operations; None where the operation is refused."""
    out, held, asked = [], [], {}
    torch.manual_seed(99 if dirty else 7)
    np.random.seed(3 if dirty else 4)
    random.seed(5 if dirty else 6)
    start = settings()
    with B.scratch() as scratch:
        s = build(name, scratch)
        for i, op in enumerate(hist):
            if dirty:
                torch.rand(3 + i)
                random.random()
                np.random.rand(2)
            try:
                got = leaves(s.do(op))
            except Exception as e:  # noqa: BLE001 - refused; must be so in both executions
                out.append(type(e).__name__)
                got = []
            else:
                out.append([g.detach().clone() for g in got])
                if op[0] in "creEf":
                    asked = {}
                else:
                    for g, w in zip(got, asked.setdefault(op, out[-1])):
                        ctx.close(f"again-{op}", g, w, 1e-5, 1e-7,
                                  f"{'-'.join(hist[:i + 1])} asked again")
            ctx.step()
            at = "-".join(hist[:i + 1])
            bad = s.inp.changed()
            if bad:
                ctx.fail(f"input-{op}", f"{at} changed the caller's {', '.join(bad)}")
            if settings() != start:
                ctx.fail(f"settings-{op}", f"{at}: global settings {start} -> {settings()}")
            for j, (o, t, c) in enumerate(held):
                if not identical(t, c):
                    ctx.fail(f"result-{op}", f"{at}: the result of {o} changed afterwards")
            for g in got:
                if dirty:
                    with torch.no_grad():
                        g.detach().fill_(float("nan") if g.dtype.is_floating_point else -7)
                else:
                    held.append((op, g.detach(), g.detach().clone()))
    return out


def run(case, ctx):
    warnings.simplefilter("ignore")
    B.fast_polling()
    name, ops = case["name"], SPEC[case["name"]]
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        hist = (case["first"], *rest)
        if hist[-1][0] in "crE" and hist[-1] != "cr" and not name.startswith("metric"):
            continue  # the last operation shows its effects only in results
        if name.partition(":")[0] in NEEDS_CACHE and hist[0][0] != "c":
            continue
        a = execute(name, hist, ctx, False)
        b = execute(name, hist, ctx, True)
        ctx.execution(2)
        for i, (x, y) in enumerate(zip(a, b)):
            at = f"{'-'.join(hist)} at operation {i}"
            if isinstance(x, str) or isinstance(y, str):
                if not (isinstance(x, str) and isinstance(y, str)):
                    ctx.fail(f"outcome-{hist[i]}", f"{at}: {x} or {y} depending on the "
                                                   "global random state / used results")
                continue
            for g, w in zip(y, x):
                ctx.outcome(w)
                ctx.close(f"same-{hist[i]}", g, w, 1e-5, 1e-7, at)
        if ctx.failures:
            return
