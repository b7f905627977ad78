"""C23: brittleness = first listed removal size whose retraining flips the test.

Training and evaluation are stand-ins whose behaviour is enumerated: every
assignment "removal size -> flips or not" for every search space, score order,
sampler kind and score layout.  The stand-ins record what each retraining was given.
"""

from __future__ import annotations

import itertools

import torch
from torch import nn
from torch.utils.data import DataLoader, RandomSampler, TensorDataset

PID = "C23"
LEVEL = "exploration"
RULE = ("all score orders x search spaces x flip behaviours x sampler kinds x layouts; "
        "non-trivial = distinct (answer, retraining history)")
ASSUMPTIONS = ["a flip is a prediction different from the test sample's label"]


class Marker(nn.Module):
    def __init__(self, ids):
        super().__init__()
        self.ids = ids
        self.w = nn.Parameter(torch.zeros(1))

    def forward(self, x):
        return x


def spaces(n, tier):
    ks = range(n + 2)
    yield []
    for k in ks:
        yield [k]
    for a in itertools.permutations(ks, 2):
        yield list(a)
    if tier == "thorough" or n <= 3:
        for a in itertools.permutations(ks, 3):
            yield list(a)
    else:
        for a in itertools.combinations(ks, 3):
            yield list(a)
    yield [1, 1, 2]


def cases(tier):
    for n in (2, 3, 4):
        for perm in itertools.permutations(range(n)):
            for sampler in ("seq", "subset", "random", "prefix"):
                yield {"id": f"n{n}-{''.join(map(str, perm))}-{sampler}", "kind": "perm",
                       "n": n, "perm": list(perm), "sampler": sampler, "tier": tier}
    for lev in itertools.product(range(2), repeat=4):
        yield {"id": f"tie-{''.join(map(str, lev))}", "kind": "tie", "lev": list(lev)}
    for sampler in ("seq", "subset", "random"):
        for q in range(4):
            n = (13, 24)[q % 2]
            yield {"id": f"large-n{n}-{sampler}-{q}", "kind": "perm", "n": n, "large": True,
                   "perm": sorted(range(n), key=lambda i: ((i * (2 * q + 5)) % 11, i)),
                   "sampler": sampler, "tier": tier}
    yield {"id": "default", "kind": "default"}


def loader(n, sampler, bs):
    from dattri.benchmark.utils import SubsetSampler

    if sampler == "subset":  # the loader's i-th sample is dataset item ids[i]
        ids = [(2 * i + 3) % (2 * n + 1) for i in range(n)]
        ds = TensorDataset(torch.arange(2 * n + 1).float()[:, None],
                           torch.zeros(2 * n + 1).long())
        return DataLoader(ds, batch_size=bs, sampler=SubsetSampler(ids)), ids
    ids = list(range(n))
    if sampler == "prefix":
        ds = TensorDataset(torch.arange(n + 2).float()[:, None], torch.zeros(n + 2).long())
        return DataLoader(ds, batch_size=bs, sampler=SubsetSampler(ids)), ids
    ds = TensorDataset(torch.arange(n).float()[:, None], torch.zeros(n).long())
    if sampler == "random":
        return DataLoader(ds, batch_size=bs, sampler=RandomSampler(ds)), ids
    return DataLoader(ds, batch_size=bs), ids


def attempt(n, scores, ids, train, space, flips, label, **kw):
    """Run brittleness with the scripted behaviour; returns answer and history."""
    from dattri.metric import brittleness

    test = DataLoader(TensorDataset(torch.zeros(1, 2), torch.tensor([label])),
                      batch_size=1)
    history, evals = [], []

    def train_func(ld):
        history.append(sorted(int(v) for b in ld for v in b[0][:, 0].tolist()))
        return Marker(history[-1])

    def eval_func(model, ld):
        k = n - len(model.ids)
        evals.append((k, model.training, len(list(ld))))
        return torch.tensor([label + 1 if flips[min(k, n)] else label])

    got = brittleness(train, test, scores, train_func, eval_func,
                      **({"search_space": space} if space is not None else {}), **kw)
    return got, history, evals


def run(case, ctx):
    if case["kind"] == "perm":
        n, perm = case["n"], case["perm"]
        order = sorted(range(n), key=lambda i: -perm[i])
        big = [[1, 2, 3, 5, 8, n - 1], [0, 4, 11, 12], [n, 10, 1], [9, 9, 2, n + 3]]
        for si, space in enumerate(big if case.get("large") else spaces(n, case["tier"])):
            sizes = sorted({min(k, n) for k in space})
            for pat in itertools.product((False, True), repeat=len(sizes)):
                flips = dict(zip(sizes, pat))
                train, ids = loader(n, case["sampler"], 1 + si % 3)
                col = bool(si % 2)
                scores = torch.tensor([0.5 * p - 0.7 for p in perm])
                if col:
                    scores = scores[:, None]
                keep = scores.clone()
                given = list(space)
                got, hist, evals = attempt(n, scores, ids, train, given, flips, si % 2)
                want, whist = None, []
                for k in space:
                    gone = set(order[:k])
                    whist.append(sorted(ids[i] for i in range(n) if i not in gone))
                    if flips[min(k, n)]:
                        want = k
                        break
                ctx.execution()
                ctx.outcome([got, hist])
                what = f"scores {perm} space {space} flips {flips}"
                if got != want:
                    ctx.fail("answer", f"{what}: got {got}, expected {want}")
                    return
                if hist != whist:
                    ctx.fail("retraining-set", f"{what}: trained on {hist}, "
                                               f"expected {whist}")
                    return
                if any(t for _, t, _ in evals):
                    ctx.fail("train-mode", f"{what}: evaluated in training mode")
                if given != space or not torch.equal(keep, scores):
                    ctx.fail("mutated", what)
    elif case["kind"] == "tie":
        lev = case["lev"]
        for k in range(5):
            train, ids = loader(4, "seq", 2)
            got, hist, _ = attempt(4, torch.tensor(lev, dtype=torch.float32), ids, train,
                                   [k], dict.fromkeys(range(5), True), 1)
            gone = set(range(4)) - set(hist[0])
            ctx.execution()
            ctx.outcome([got, hist])
            left = [lev[i] for i in hist[0]]
            if got != k or len(gone) != k or (
                    gone and left and min(lev[i] for i in gone) < max(left)):
                ctx.fail("ties", f"{lev} k={k}: kept {hist[0]}, answer {got}")
    else:
        # default search space: 0, 20, ..., 180
        n = 45
        for flip_at in (0, 20, 40, None):
            flips = {k: flip_at is not None and k >= flip_at for k in range(n + 1)}
            train, ids = loader(n, "seq", 7)
            got, hist, _ = attempt(n, torch.arange(n).float(), ids, train, None, flips, 0)
            ctx.execution()
            ctx.outcome([got, [len(h) for h in hist]])
            if got != flip_at:
                ctx.fail("default", f"flip at {flip_at}: got {got}")
            if hist and any(h != list(range(len(h))) for h in hist):
                ctx.fail("default-set", "removed others than the highest scored")
