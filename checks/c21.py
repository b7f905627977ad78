"""C21: LDS and leave-one-out correlation against their definitions.

Every table of subset indices x every score column over a small grid x every
ground-truth column over a small grid (one column per test sample, so a single call
evaluates a whole sub-space and, at the same time, the independence of the columns).
"""

from __future__ import annotations

import itertools
import math

import torch

from mc import core

PID = "C21"
LEVEL = "exploration"
RULE = ("all subset-index tables x score columns x ground-truth columns over the "
        "stated grids; non-trivial = distinct result columns")
ASSUMPTIONS = ["p-values are the two-sided t-test of the correlation with m-2 degrees "
               "of freedom; not compared for fewer than three models"]


def cases(tier):
    grid3 = list(itertools.product((0.0, 1.0, 2.0), repeat=3))
    tables = list(itertools.product(list(itertools.permutations(range(3), 2)), repeat=3))
    for i in range(0, len(tables), 6):
        yield {"id": f"lds3-{i}", "kind": "lds", "n": 3, "tables": tables[i:i + 6],
               "scores": "grid3", "gt": "grid3"}
    combos = list(itertools.combinations(range(4), 2))
    tabs4 = list(itertools.permutations(combos, 4))
    step = 9 if tier == "quick" else 1
    for i in range(0, len(tabs4), 9 * 4):
        yield {"id": f"lds4-{i}", "kind": "lds", "n": 4, "tables": tabs4[i:i + 36:step],
               "scores": "perm4", "gt": "perm4"}
    for m, size in ((2, 1), (3, 3), (5, 2), (6, 1)):
        yield {"id": f"lds-shape-{m}-{size}", "kind": "shape", "m": m, "size": size}
    for k in (2, 3, 4):
        for idx in itertools.permutations(range(4), k):
            yield {"id": f"loo-{''.join(map(str, idx))}", "kind": "loo", "idx": list(idx)}
    for off in (0.0, 1.0, -3.0):  # differences far below single precision
        for bits in (26, 32):
            yield {"id": f"near-{off:g}-{bits}", "kind": "near", "off": off, "bits": bits}
    for q in range(6):
        yield {"id": f"large-{q}", "kind": "large", "q": q}
    del grid3


def ranks(v):
    out = []
    for a in v:
        less = sum(b < a for b in v)
        same = sum(b == a for b in v)
        out.append(less + (same + 1) / 2)
    return out


def pearson(a, b):
    m = len(a)
    ma, mb = sum(a) / m, sum(b) / m
    sab = sum((x - ma) * (y - mb) for x, y in zip(a, b))
    saa = sum((x - ma) ** 2 for x in a)
    sbb = sum((y - mb) ** 2 for y in b)
    if saa == 0 or sbb == 0:
        return math.nan
    return max(-1.0, min(1.0, sab / math.sqrt(saa * sbb)))


def pvalue(r, m):
    """Two-sided p-value of a correlation of m points (t-test, m-2 d.o.f.)."""
    if math.isnan(r):
        return math.nan
    df = m - 2
    if abs(r) >= 1 - 1e-12:
        return 0.0
    t = abs(r) * math.sqrt(df / (1 - r * r))
    th = math.atan(t / math.sqrt(df))
    if df == 1:
        return 1 - 2 * th / math.pi
    if df % 2 == 0:
        c, s, acc, term = math.cos(th) ** 2, math.sin(th), 0.0, 1.0
        for i in range(df // 2):
            acc += term
            term *= c * (2 * i + 1) / (2 * i + 2)
        return 1 - s * acc
    acc, term = 0.0, math.cos(th)
    for i in range((df - 1) // 2):
        acc += term
        term *= math.cos(th) ** 2 * (2 * i + 2) / (2 * i + 3)
    return 1 - 2 / math.pi * (th + math.sin(th) * acc)


_MEMO: dict = {}


def expected(a, b, spearman):
    key = (tuple(a), tuple(b), spearman)
    if key not in _MEMO:
        r = pearson(ranks(a), ranks(b)) if spearman else pearson(a, b)
        _MEMO[key] = (r, pvalue(r, len(a)) if len(a) > 2 else math.nan)
    return _MEMO[key]


def columns(kind):
    if kind == "grid3":
        return list(itertools.product((0.0, 1.0, 2.0), repeat=3))
    if kind == "perm4":
        return list(itertools.permutations((0.0, 1.0, 2.0, 4.0)))[::3] + [
            (1.0, 1.0, 0.0, 2.0), (0.0, 0.0, 0.0, 1.0), (-1.0, 3.0, -1.0, 3.0)]
    raise ValueError(kind)


def compare(ctx, what, got, want_r, want_p, m):
    if not (isinstance(got, tuple) and len(got) == 2):
        ctx.fail("shape", f"{what}: result is not a pair")
        return False
    ok = ctx.close("correlation", got[0], want_r, rtol=0, atol=2e-5, what=what)
    if m > 2 and ok:
        # |r| = 1 up to rounding: any p-value below 2% is right
        near = [0.0 if p == 0.0 and float(g) < 2e-2 else float(g)
                for g, p in zip(torch.as_tensor(got[1]).tolist(), want_p)]
        ok = ctx.close("p-value", near, want_p, rtol=0, atol=5e-4, what=what)
    return ok


def run(case, ctx):
    from dattri.metric import lds, loo_corr

    kind = case["kind"]
    if kind == "lds":
        sc = columns(case["scores"])
        gt = columns(case["gt"])
        pairs = list(itertools.product(sc, gt))
        score = torch.tensor([p[0] for p in pairs]).T
        truth = torch.tensor([p[1] for p in pairs]).T
        for table in case["tables"]:
            got = lds(score, (truth, torch.tensor(table)))
            want = [expected([sum(s[j] for j in row) for row in table], g, True)
                    for s, g in pairs]
            ctx.execution(len(pairs))
            ctx.outcome(torch.nan_to_num(got[0]))
            for col, w in enumerate(want):
                if not math.isnan(w[0]) and col % 7 == 0:
                    ctx.outcome([round(w[0], 5)])
            if not compare(ctx, f"subsets {table}", got, [w[0] for w in want],
                           [w[1] for w in want], len(table)):
                return
        # columns are independent: one column alone gives the same value
        table = torch.tensor(case["tables"][0])
        full = lds(score, (truth, table))
        for col in range(0, len(pairs), max(1, len(pairs) // 12)):
            one = lds(score[:, col:col + 1], (truth[:, col:col + 1], table))
            ctx.close("independent", one[0][0], full[0][col], what=f"column {col}")
            ctx.execution()
    elif kind == "near":
        unit = 2.0 ** -case["bits"]
        pairs = list(itertools.product(columns("perm4"), columns("perm4")))
        combos = list(itertools.combinations(range(4), 2))
        for so, go in ((case["off"], 0.0), (0.0, case["off"]), (case["off"], case["off"])):
            score = so + unit * torch.tensor([p[0] for p in pairs], dtype=torch.float64).T
            truth = go + unit * torch.tensor([p[1] for p in pairs], dtype=torch.float64).T
            for table in list(itertools.permutations(combos, 4))[::77]:
                got = lds(score, (truth, torch.tensor(table)))
                want = [expected([sum(s[j] for j in row) for row in table], g, True)
                        for s, g in pairs]
                ctx.execution(len(pairs))
                ctx.outcome(torch.nan_to_num(got[0]))
                compare(ctx, f"near {table}", got, [w[0] for w in want], [w[1] for w in want], 4)
            for idx in list(itertools.permutations(range(4)))[::5]:
                got = loo_corr(score, (truth, torch.tensor(idx)))
                want = [expected([s[i] for i in idx], g, False) for s, g in pairs]
                ctx.execution(len(pairs))
                compare(ctx, f"near removed {idx}", got, [w[0] for w in want],
                        [w[1] for w in want], 4)
    elif kind == "large":
        q, n, m, tests = case["q"], 40, (12, 25, 31)[case["q"] % 3], 13
        g = torch.Generator().manual_seed(900 + q)
        dtype = torch.float64 if q % 2 else torch.float32
        score = (torch.randn(n, tests, generator=g) * (1e-5, 1.0, 3e4)[q // 2]).to(dtype)
        gt = torch.randn(m, tests, generator=g) * (1e4, 1.0, 1e-5)[q // 2]
        table = torch.stack([torch.randperm(n, generator=g)[:17 + q] for _ in range(m)])
        got = lds(score, (gt, table))
        sums = [[sum(score[j, t].item() for j in row) for row in table.tolist()]
                for t in range(tests)]
        want = [expected(sums[t], gt[:, t].tolist(), True) for t in range(tests)]
        compare(ctx, f"{m} subsets", got, [w[0] for w in want], [w[1] for w in want], m)
        idx = torch.randperm(n, generator=g)[:m]
        got2 = loo_corr(score, (gt, idx))
        want = [expected([score[i, t].item() for i in idx.tolist()], gt[:, t].tolist(), False)
                for t in range(tests)]
        compare(ctx, f"{m} removed", got2, [w[0] for w in want], [w[1] for w in want], m)
        ctx.execution(2)
        ctx.outcome(got[0])
        ctx.outcome(got2[0])
    elif kind == "shape":
        m, size, n = case["m"], case["size"], 6
        base = list(itertools.combinations(range(n), size))
        for rot in range(len(base)):
            table = [base[(rot + 2 * i) % len(base)] for i in range(m)]
            for dtype in (torch.float32, torch.float64):
                score = torch.tensor([[float((3 * i + 5 * t + i * t) % 11) for t in
                                       range(3)] for i in range(n)], dtype=dtype)
                gt = torch.tensor([[float((7 * i + 2 * t * i + rot) % 5) for t in
                                    range(3)] for i in range(m)])
                before = (score.clone(), gt.clone())
                got = lds(score, (gt, torch.tensor(table)))
                want = [expected([sum(score[j, t].item() for j in row) for row in table],
                                 gt[:, t].tolist(), True) for t in range(3)]
                ctx.execution()
                ctx.outcome(torch.nan_to_num(got[0]))
                compare(ctx, f"m={m} size={size} rot={rot}", got,
                        [w[0] for w in want], [w[1] for w in want], m)
                if not (torch.equal(before[0], score) and torch.equal(before[1], gt)):
                    ctx.fail("mutated", "inputs changed")
    else:
        idx = case["idx"]
        k = len(idx)
        sc = columns("perm4")
        gts = [g[:k] for g in columns("perm4")]
        pairs = list(itertools.product(sc, gts))
        score = torch.tensor([p[0] for p in pairs]).T
        truth = torch.tensor([p[1] for p in pairs]).T
        want = [expected([s[i] for i in idx], g, False) for s, g in pairs]
        for index in (torch.tensor(idx), torch.tensor(idx, dtype=torch.float32)):
            got = loo_corr(score, (truth, index))
            ctx.execution(len(pairs))
            ctx.outcome(torch.nan_to_num(got[0]))
            if not compare(ctx, f"removed {idx}", got, [w[0] for w in want],
                           [w[1] for w in want], k):
                return
        ctx.state(core.digest(idx))
