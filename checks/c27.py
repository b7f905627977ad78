"""C27: test-time dropout activates exactly the requested dropout layers.

Every subset of the modules' names (dropout layers, other layers, containers, unknown
names), on models whose dropout names contain one another, from every initial
training mode; the effect is read off flags, probabilities and the layers' outputs.
"""

from __future__ import annotations

import itertools

import torch
from torch import nn

PID = "C27"
LEVEL = "exploration"
RULE = ("all name lists up to the stated length x initial modes x probabilities; "
        "non-trivial = distinct resulting mode/probability assignments")
ASSUMPTIONS = ["dropout layers are torch.nn.Dropout, Dropout1d, Dropout2d, Dropout3d; a "
               "name is the module's name in named_modules"]


class Block(nn.Module):
    def __init__(self):
        super().__init__()
        self.lin = nn.Linear(2, 2)
        self.dropout = nn.Dropout(0.3)
        self.inner = nn.Sequential(nn.ReLU(), nn.Dropout(0.35))


class Net(nn.Module):
    def __init__(self):
        super().__init__()
        self.dropout1 = nn.Dropout(0.5)
        self.dropout10 = nn.Dropout2d(0.6)
        self.fc = nn.Linear(3, 3)
        self.bn = nn.BatchNorm1d(3)
        self.block = Block()
        self.dropout = nn.Dropout1d(0.7)


def models():
    yield "net", Net
    yield "seq", lambda: nn.Sequential(nn.Dropout(0.2), nn.Linear(2, 2), nn.Dropout3d(0.9),
                                       nn.Sequential(nn.Dropout(0.0), nn.BatchNorm1d(2)))
    yield "none", lambda: nn.Sequential(nn.Linear(2, 2), nn.ReLU())


DROPS = (nn.Dropout, nn.Dropout1d, nn.Dropout2d, nn.Dropout3d)


def cases(tier):
    for name, _ in models():
        for start in ("train", "eval", "mixed"):
            for p in (None, 0.0, 0.1, 0.45, 1.0):
                yield {"id": f"{name}-{start}-{p}", "model": name, "start": start, "p": p,
                       "depth": 2 if tier == "quick" else 3}


def build(case):
    torch.manual_seed(0)
    m = dict(models())[case["model"]]()
    if case["start"] == "train":
        m.train()
    elif case["start"] == "eval":
        m.eval()
    else:
        m.train()
        for i, s in enumerate(m.modules()):
            if i % 2:
                s.training = False
    return m


def view(m):
    return {n: (s.training, getattr(s, "p", None) if isinstance(s, DROPS) else None)
            for n, s in m.named_modules()}


def run(case, ctx):
    from dattri.model_util.dropout import activate_dropout

    kw = {} if case["p"] is None else {"dropout_prob": case["p"]}
    p = 0.1 if case["p"] is None else case["p"]
    names = [n for n, _ in build(case).named_modules()] + ["nope", "dropout9", "drop"]
    requests = [None, []]
    for k in range(1, case["depth"] + 1):
        requests += [list(c) for c in itertools.permutations(names, k)] if k < 3 else \
            [list(c) for c in itertools.combinations(names, k)]
    for req in requests:
        m = build(case)
        before = view(m)
        drops = {n for n, s in m.named_modules() if isinstance(s, DROPS)}
        want = drops if not req else set(req)
        given = None if req is None else list(req)
        ctx.execution()
        what = f"request {req}"
        try:
            out = activate_dropout(m, given, **kw)
        except ValueError:
            if want <= drops:
                ctx.fail("refused", f"{what}: valid request refused")
                return
            ctx.count("refused")
            continue
        if not want <= drops:
            ctx.fail("accepted", f"{what}: {sorted(want - drops)} is not a dropout layer")
            return
        if out is not m:
            ctx.fail("model", f"{what}: another model returned")
            return
        for n, (training, prob) in view(m).items():
            if n in want:
                if not training or prob != p:
                    ctx.fail("active", f"{what}: {n} training={training} p={prob}")
                    return
            elif training or prob != before[n][1]:
                ctx.fail("inactive", f"{what}: {n} training={training} p={prob}, "
                                     f"had p={before[n][1]}")
                return
        # observable effect of each layer
        for n, s in m.named_modules():
            if isinstance(s, DROPS):
                x = torch.ones(4, 5, 3, 2, 2) if isinstance(s, nn.Dropout3d) else \
                    torch.ones(4, 50, 3, 3) if isinstance(s, nn.Dropout2d) else \
                    torch.ones(4, 50, 3)
                y = s(x)
                if n not in want and not torch.equal(x, y):
                    ctx.fail("effect", f"{what}: {n} drops although not requested")
                if n in want and p == 1.0 and y.abs().sum() != 0:
                    ctx.fail("effect", f"{what}: {n} with p=1 keeps values")
                if n in want and p == 0.45 and torch.equal(x, y):
                    ctx.fail("effect", f"{what}: {n} does not drop")
        if given is not None and given != req:
            ctx.fail("mutated", what)
        ctx.outcome(view(m))
        ctx.state([req, view(m)])
        # evaluation mode again, and a second activation of all layers
        m.eval()
        activate_dropout(m, None, **kw)
        ctx.step(2)
        if any(view(m)[n] != (True, p) for n in drops) or any(
                view(m)[n][0] for n in view(m) if n not in drops):
            ctx.fail("again", f"{what}: second activation {view(m)}")
