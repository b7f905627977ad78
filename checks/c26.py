"""C26: label flipping and subset sampling do exactly what they report.

The random generator is replaced by one that enumerates every outcome of every draw,
so each case covers every possible result of the call.
"""

from __future__ import annotations

import itertools

import numpy as np
import torch
from torch.utils.data import DataLoader, TensorDataset

PID = "C26"
LEVEL = "exploration"
RULE = ("all label vectors x label spaces x fractions x containers x every outcome of "
        "the random choices; non-trivial = distinct (labels, positions) results")
ASSUMPTIONS = ["randomness comes from numpy's default_rng (otherwise one outcome per "
               "case is observed instead of all)",
               "the number of flips is the fraction of the length, rounded or truncated"]


def cases(tier):
    # one case per kind of input, so that what is known about one kind hides nothing else
    nmax = 4 if tier == "quick" else 5
    for part in ("tensor", "int32", "array", "tensor-space", "foreign", "zero"):
        yield {"id": f"flip-{part}", "kind": "flip", "part": part, "nmax": nmax}
    for part in ("tensor", "array", "zero"):
        yield {"id": f"long-{part}", "kind": "long", "part": part}
    for k in range(5):
        yield {"id": f"sampler-{k}", "kind": "sampler", "k": k}


def part_of(cname, sname, count, foreign=False):
    """The kind of input a call belongs to (`count` = the number of labels to flip,
    `foreign` = some present label is not in the label space)."""
    if count == 0:
        return "zero"
    if cname in ("array", "array16"):
        return "array"
    if cname == "int32":
        return "int32"
    if sname == "tensor":
        return "tensor-space"
    return "foreign" if foreign else "tensor"


def containers(labels):
    yield "tensor", torch.tensor(labels)
    yield "int32", torch.tensor(labels, dtype=torch.int32)
    yield "array", np.array(labels)
    yield "array16", np.array(labels, dtype=np.int16)


def label_spaces(labels):
    uniq = sorted(set(labels))
    if len(uniq) > 1:
        yield "inferred", None
    yield "list", [0, 1, 2]
    yield "array", np.array([2, 0, 5])
    yield "tensor", torch.tensor([1, 0])
    yield "foreign", [7, 9]  # the present labels are outside the space
    if len(uniq) == 2:
        yield "partly", [uniq[0], 8]


def aslist(x):
    return x.tolist() if hasattr(x, "tolist") else list(x)


def check(fail, what, labels, given, keep, space, space_keep, p, result):
    flipped, idx = result
    n = len(labels)
    idx = [int(i) for i in idx]
    if type(flipped) is not type(given) or flipped.dtype != given.dtype \
            or tuple(flipped.shape) != tuple(given.shape):
        fail("container", f"{what}: {type(flipped)} {flipped.dtype} {flipped.shape}")
        return False
    if aslist(given) != keep or (space is not None and aslist(space) != space_keep):
        fail("mutated", f"{what}: input or label space changed")
        return False
    want_n = {int(p * n), int(p * n + 1e-9), round(p * n)}
    if len(set(idx)) != len(idx) or len(idx) not in want_n or not all(
            0 <= i < n for i in idx):
        fail("positions", f"{what}: positions {idx}")
        return False
    allowed = set(labels) if space is None else set(space_keep)
    out = aslist(flipped)
    for i in range(n):
        if i in idx:
            if out[i] == labels[i] or out[i] not in allowed:
                why = "same-label" if out[i] == labels[i] else \
                    "present-label" if out[i] in labels else "label"
                fail(why, f"{what}: position {i} {labels[i]} -> {out[i]}")
                return False
        elif out[i] != labels[i]:
            fail("untouched", f"{what}: position {i} changed but not reported")
            return False
    return True


def flip_all(ctx, part, labels):
    from dattri.benchmark.utils import flip_label
    from mc import rng

    n = len(labels)
    failed = set()  # one report per label vector and kind of failure

    def fail(key, msg):
        if key not in failed:
            failed.add(key)
            ctx.fail(key, msg)

    for (cname, _), (sname, _), p in itertools.product(
            containers(labels), label_spaces(labels), (0.0, 0.3, 0.5, 0.8, 1.0)):
        space = dict(label_spaces(labels))[sname]
        foreign = space is not None and not set(labels) <= set(aslist(space))
        if part_of(cname, sname, int(p * n), foreign) != part:
            continue
        if n == 4 and p > 0.6 and cname not in ("tensor", "array"):
            continue
        if n == 5 and p > 0.5:
            continue
        seen = set()

        def body():
            given = dict(containers(labels))[cname]
            space = dict(label_spaces(labels))[sname]
            args = {} if space is None else {"label_space": space}
            try:
                return given, space, flip_label(given, p=p, **args)
            except Exception as e:
                return given, space, e

        space_keep = dict(label_spaces(labels))[sname]
        space_keep = None if space_keep is None else aslist(space_keep)
        for (given, space, res), _ in rng.explore(body, limit=6000):
            ctx.execution()
            what = f"{cname} {labels} space={sname} p={p}"
            if isinstance(res, Exception):
                fail(f"exception:{type(res).__name__}", f"{what}: {res}")
                break
            if not check(fail, what, labels, given, list(labels), space, space_keep, p, res):
                continue
            seen.add((tuple(aslist(res[0])), tuple(sorted(map(int, res[1])))))
        for s in seen:
            ctx.outcome(str((s, sname)))


def run(case, ctx):
    from dattri.benchmark.utils import SubsetSampler, flip_label

    if case["kind"] == "flip":
        for n in range(1, case["nmax"] + 1):
            for labels in itertools.product(range(2 if n > 3 else 3), repeat=n):
                flip_all(ctx, case["part"], list(labels))
        return
    if case["kind"] == "long":
        # larger inputs, the real generator, every fraction in tenths
        for n in (10, 37, 100):
            labels = [(7 * i) % 5 for i in range(n)]
            for t in range(11):
                for cname in ("tensor", "array"):
                    if part_of(cname, "inferred", int(t / 10 * n)) != case["part"]:
                        continue
                    given = dict(containers(labels))[cname]
                    ctx.execution()
                    try:
                        res = flip_label(given, p=t / 10)
                    except Exception as e:
                        ctx.fail(f"exception:{type(e).__name__}", f"{cname} n={n} p={t/10}: {e}")
                        continue
                    check(ctx.fail, f"{cname} n={n} p={t / 10}", labels, given, labels, None,
                          None, t / 10, res)
        given = torch.tensor([0, 1] * 10)
        if case["part"] == "tensor" and len(flip_label(given)[1]) != 2:
            ctx.fail("default", "default fraction is not one tenth")
        return
    k = case["k"]
    for idx in itertools.product(range(4), repeat=k):
        for make in (list, tuple, np.array, lambda v: torch.tensor(v, dtype=torch.long)):
            given = make(idx)
            s = SubsetSampler(given)
            runs = [[int(i) for i in s] for _ in range(3)]
            a, b = iter(s), iter(s)  # interleaved iterators do not disturb each other
            mixed = [[], []]
            for _ in range(k):
                mixed[0].append(int(next(a)))
                mixed[1].append(int(next(b)))
            ctx.execution()
            ctx.outcome([runs, len(s)])
            if any(r != list(idx) for r in runs + mixed) or len(s) != k:
                ctx.fail("sampler", f"{idx}: {runs} len {len(s)}")
                return
        if k:
            x = torch.arange(4).float() * 2
            for bs in range(1, k + 1):
                ld = DataLoader(TensorDataset(x), batch_size=bs,
                                sampler=SubsetSampler(list(idx)))
                for _ in range(2):
                    got = torch.cat([b[0] for b in ld]).tolist()
                    if got != [2.0 * i for i in idx]:
                        ctx.fail("sampler-loader", f"{idx} bs={bs}: {got}")
                        return
