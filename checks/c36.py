"""C36: the state PyTorch and the model happen to be in does not change scores.

Every operation history is executed once in the plain state and once in every ambient state
(gradients disabled, inference mode, float64 as default type, stale gradients on the model,
samples that require gradients, anomaly detection, ...), during all calls or during the first
one only.  Each result must be the same as in the plain state or the call must be refused;
asking a refused question again in the plain state must give the plain answer.
"""

from __future__ import annotations

import contextlib
import itertools
import warnings

import torch
from torch.utils.data import TensorDataset

from checks import c20, c31, c35
from mc import block as B

PID = "C36"
LEVEL = "exploration"
CHUNK = 1
RULE = ("every operation history up to the depth bound on every attributor and option set, "
        "executed in lockstep in the plain and in every ambient state; every result compared; "
        "non-trivial = distinct results")
ASSUMPTIONS = ["CPU", "LiSSA with full-batch sampling"]

SPEC = {**c35.SPEC,
        **{f"tracin:2-{p}": c35.IF and ("aAt", "aBu", "sA") for p in ("normal", "rademacher")},
        **{f"trak:2-{p}": ("cA", "cB", "a-t", "aBu", "s") for p in ("normal", "rademacher")}}


def stale(s):
    for p in s.model.parameters():
        p.grad = torch.full_like(p, 3.0)


def needy(s):
    for d in s.loaders.values():
        d.dataset.tensors[0].requires_grad_(True)


@contextlib.contextmanager
def default64():
    torch.set_default_dtype(torch.float64)
    try:
        yield
    finally:
        torch.set_default_dtype(torch.float32)


# name -> (change before every call, context of every call)
AMBIENT = {
    "no_grad": (None, torch.no_grad),
    "inference": (None, torch.inference_mode),
    "default64": (None, default64),
    "anomaly": (None, torch.autograd.detect_anomaly),
    "stale": (stale, None),
    "needy": (needy, None),
}


def cases(tier):
    for name, ops in SPEC.items():
        for first in ops:
            if first == "s" and not name.startswith("trak"):
                continue
            yield {"id": f"{name}-{first}", "name": name, "first": first,
                   "depth": 2 if tier == "quick" else 3}


def history(name, seq, amb, first_only, d):
    """[(result, refusal in the ambient state)] of the operations."""
    change, context = AMBIENT.get(amb, (None, None))
    c35.precision(torch.float32)
    c20.FAULT.arm()
    out = []
    s = c31.Knn() if name == "knn" else c35.Sub(name, d)
    for i, op in enumerate(seq):
        here = not (first_only and i)
        got = refusal = None
        for plain in (False, True):
            torch.manual_seed(1)
            try:
                if change is not None and here:
                    change(s)
                with context() if context and here and not plain else contextlib.nullcontext():
                    got = s.do(op)
                break
            except Exception as e:  # noqa: BLE001
                got = e
                if not context or not here:
                    break
                refusal = refusal or e
        out.append((got.detach().clone() if isinstance(got, torch.Tensor) else got
                    if isinstance(got, Exception) else None, refusal))
        if isinstance(got, Exception):
            break
    return out


def run(case, ctx):
    warnings.simplefilter("ignore")
    B.fast_polling()
    name, first = case["name"], case["first"]
    ops = SPEC[name]
    depth = case["depth"] + (2 if name.startswith("dvemb") else 0)
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first, *rest)
        if name.startswith("dvemb"):
            if "e" in seq and not any(o[0] == "r" for o in seq[:seq.index("e")]):
                continue
            if any(o[0] == "a" for o in seq[:-1]) or seq[-1][0] != "a":
                continue
        base = None
        for amb, once in (("plain", False), *((a, False) for a in AMBIENT), ("no_grad", True),
                          ("inference", True), ("default64", True)):
            if name == "knn" and amb == "stale" or amb == "default64" and "arnoldi" in name:
                continue                    # has no model / draws its start in that type
            with B.scratch() as d:
                got = history(name, seq, amb, once, d)
            ctx.execution()
            if base is None:
                base = [g for g, _ in got]
                ctx.outcome([g if isinstance(g, torch.Tensor) else str(g) for g in base])
                continue
            what = f"{'-'.join(seq)} in {amb}{' (first call only)' if once else ''}"
            for a, (b, refusal), op in zip(base, got, seq):
                ctx.step()
                if refusal is not None and not isinstance(a, Exception):
                    ctx.count(f"refused_{amb}")
                if isinstance(a, Exception):
                    if not isinstance(b, Exception):
                        ctx.fail(f"answered-{amb}", f"{what}: {op} answers, refused in the "
                                                    f"plain state: {a!r}")
                        return
                    break
                if isinstance(b, Exception):
                    if amb == "inference":  # its tensors are of no use outside
                        ctx.count("unusable_inference_tensors")
                        break
                    ctx.fail(f"refused-{amb}", f"{what}: {op} gives {b!r}")
                    return
                if isinstance(a, torch.Tensor):
                    if not isinstance(b, torch.Tensor) or a.shape != b.shape:
                        ctx.fail(f"shape-{amb}", f"{what}: {op}")
                        return
                    tol = 2e-3 if name.startswith("cg") else 1e-4
                    if not ctx.close(amb, b.double(), a.double(), tol, 1e-6, what):
                        return
