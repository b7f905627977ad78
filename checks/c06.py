"""C06: KNN-Shapley equals the Shapley value of the K-nearest-neighbour utility.

Oracle: the definition.  v(S) = (1/K) * #{correct among the min(K,|S|) nearest
members of S}; the Shapley value is averaged over every permutation of the
training points.  The space is every (distance order, label vector, K, batching,
label source) with n_train <= 4 (5 in the thorough tier).
"""

from __future__ import annotations

import itertools
import math

import numpy as np
import torch
from torch.utils.data import DataLoader, TensorDataset

from mc import core

PID = "C06"
LEVEL = "exploration"
RULE = ("every distance order x label vector x K x (train,test) batch size x label "
        "source up to the stated size; non-trivial = distinct score matrices observed")
ASSUMPTIONS = ["Euclidean or user-supplied distances; ties may be broken either way"]


def cases(tier):
    nmax = 4 if tier == "quick" else 5
    for n in range(1, nmax + 1):
        for perm in itertools.permutations(range(n)):
            if n == nmax and tier == "thorough" and perm[0] > perm[-1]:
                continue  # mirrored orders give the same multiset of sub-orders
            for tr_bs in range(1, n + 1):
                yield {"id": f"n{n}p{''.join(map(str, perm))}b{tr_bs}", "kind": "order",
                       "n": n, "perm": list(perm), "bs": tr_bs}
    for n in range(2, 5):
        for pos in itertools.combinations_with_replacement(range(1, 4), n):
            yield {"id": f"ties{pos}", "kind": "ties", "n": n, "pos": list(pos)}
    for n in (7, 10, 11) if tier == "quick" else (7, 9, 10, 11, 12, 13):
        for q in range(4):
            yield {"id": f"large-n{n}-{q}", "kind": "large", "n": n, "q": q}
    yield {"id": "labels", "kind": "labels"}
    yield {"id": "custom", "kind": "custom"}
    yield {"id": "history", "kind": "history"}


_CACHE: dict = {}


def by_subsets(order, match, k):
    """Shapley values as the weighted sum of marginal gains over all subsets."""
    n = len(order)
    masks = np.arange(1 << n)
    near = np.zeros(1 << n)          # matches among the k nearest members
    taken = np.zeros(1 << n, dtype=int)
    for p in order:
        use = ((masks >> p) & 1 == 1) & (taken < k)
        near += use * match[p]
        taken += use
    size = sum((masks >> p) & 1 for p in range(n))
    out = []
    for p in range(n):
        without = masks[(masks >> p) & 1 == 0]
        gain = (near[without | (1 << p)] - near[without]) / k
        weight = np.array([math.factorial(s) * math.factorial(n - s - 1) / math.factorial(n)
                           for s in range(n)])[size[without]]
        out.append(float((gain * weight).sum()))
    return out


def reference(order, match, k):
    """Shapley values by brute force; order[r] = index of the r-th nearest point."""
    key = (tuple(order), tuple(match), k)
    if key in _CACHE:
        return _CACHE[key]
    n = len(order)
    rank = {p: r for r, p in enumerate(order)}

    def v(s):
        near = sorted(s, key=rank.get)[:k]
        return sum(match[p] for p in near) / k

    val = [0.0] * n
    perms = list(itertools.permutations(range(n)))
    for perm in perms:
        s, prev = [], 0.0
        for p in perm:
            s.append(p)
            cur = v(s)
            val[p] += cur - prev
            prev = cur
    val = [x / len(perms) for x in val]
    _CACHE[key] = val
    return val


def attribute(k, xtr, ytr, xte, yte, bs_tr, bs_te, **kw):
    from dattri.algorithm.data_shapley import KNNShapleyAttributor

    dist = kw.pop("distance_func", None)
    att = KNNShapleyAttributor(k_neighbors=k, distance_func=dist)
    tr = DataLoader(TensorDataset(xtr, ytr), batch_size=bs_tr)
    te = DataLoader(TensorDataset(xte, yte), batch_size=bs_te)
    return att.attribute(tr, te, **kw)


def orient(got, n_train, n_test, want):
    """The documentation says (train, test); the code has always returned
    (test, train).  Both orientations carry the same values; accept either unless
    the shape is ambiguous, where the established orientation is required."""
    if tuple(got.shape) == (n_test, n_train):
        return got
    if tuple(got.shape) == (n_train, n_test):
        return got.T
    return got


def run(case, ctx):
    kind = case["kind"]
    if kind == "order":
        n, perm, bs = case["n"], case["perm"], case["bs"]
        # the point perm[r] is the r-th nearest to the test point 0 and the
        # (n-1-r)-th nearest to the test point n+1
        x = torch.zeros(n, 1)
        for r, p in enumerate(perm):
            x[p, 0] = r + 1.0 + 0.01 * r * r
        n_lab = 3 if n <= 3 else 2
        for labels in itertools.product(range(n_lab), repeat=n):
            for k in range(1, n + 2):
                for bs_te, yte in ((1, [0, 1]), (2, [1, 1]), (3, [0, 2, 1])):
                    xte = torch.tensor([[0.0], [n + 1.9], [0.3]])[: len(yte)]
                    got = attribute(k, x, torch.tensor(labels), xte,
                                    torch.tensor(yte), bs, bs_te)
                    ctx.execution()
                    want = []
                    for t in range(len(yte)):
                        d = (x[:, 0] - xte[t, 0]).abs()
                        order = torch.argsort(d).tolist()
                        want.append(reference(
                            order, [int(a == yte[t]) for a in labels], k))
                    got = orient(got, n, len(yte), want)
                    ok = ctx.close(f"shapley-k{k}-n{n}", got, want, what=
                                   f"k={k} labels={labels} test={yte}")
                    ctx.outcome(got)
                    ctx.count("k_gt_n" if k > n else "k_le_n")
                    if not ok:
                        return
    elif kind == "ties":
        n = case["n"]
        x = torch.tensor(case["pos"], dtype=torch.float32)[:, None]
        for labels in itertools.product(range(2), repeat=n):
            for k in range(1, n + 1):
                got = attribute(k, x, torch.tensor(labels), torch.zeros(1, 1),
                                torch.tensor([1]), 2, 1)
                got = orient(got, n, 1, None)
                ctx.execution()
                ctx.outcome(got)
                ok = False
                for order in itertools.permutations(range(n)):
                    if any(case["pos"][order[i]] > case["pos"][order[i + 1]]
                           for i in range(n - 1)):
                        continue
                    want = torch.tensor([reference(order, labels, k)])
                    if got.shape == want.shape and torch.allclose(
                            got, want, atol=1e-5):
                        ok = True
                        break
                if not ok:
                    ctx.fail("ties", f"pos={case['pos']} labels={labels} k={k}: "
                                     f"{got.tolist()} matches no tie-breaking")
                    return
    elif kind == "large":
        n, q = case["n"], case["q"]
        g = torch.Generator().manual_seed(31 * n + q)
        x = torch.randperm(n, generator=g).float()[:, None] * 1.1
        labels = [(i * i + q * i) % (2 + q % 3) for i in range(n)]
        xte = torch.tensor([[0.1 + 1.37 * t] for t in range(11)])
        yte = [t % (2 + q % 3) for t in range(11)]
        for k in (1, 2, 3, 5, n - 1, n, n + 1, n + 4):
            want = []
            for t in range(11):
                order = torch.argsort((x[:, 0] - xte[t, 0]).abs()).tolist()
                want.append(by_subsets(order, [int(a == yte[t]) for a in labels], k))
            for bs, bt in ((1, 3), (2, 11), (4, 1), (n - 1, 10), (n, 4), (64, 64)):
                got = attribute(k, x, torch.tensor(labels), xte, torch.tensor(yte), bs, bt)
                ctx.execution()
                ctx.outcome(got)
                if not ctx.close(f"large-k{k}", orient(got, n, 11, want), want,
                                 what=f"n={n} k={k} batches {bs},{bt}"):
                    return
    elif kind == "labels":
        # labels passed explicitly override the ones in the batch; wrong lengths
        # are refused; the caller's lists are not modified
        x = torch.tensor([[1.0], [2.0], [3.0], [4.5]])
        xte = torch.tensor([[0.0], [4.0]])
        for labels in itertools.product(range(2), repeat=4):
            for yt in itertools.product(range(2), repeat=2):
                for src in ("both", "train", "test"):
                    for bs, bt in ((1, 1), (3, 2), (4, 1)):
                        tl, sl = list(labels), list(yt)
                        kw = {}
                        y_in = torch.tensor(labels)
                        t_in = torch.tensor(yt)
                        if src in ("both", "train"):
                            kw["train_labels"], y_in = tl, 7 - y_in
                        if src in ("both", "test"):
                            kw["test_labels"], t_in = sl, 9 - t_in
                        got = attribute(2, x, y_in, xte, t_in, bs, bt, **kw)
                        ctx.execution()
                        ctx.outcome(got)
                        want = []
                        for t in range(2):
                            order = torch.argsort((x[:, 0] - xte[t, 0]).abs()).tolist()
                            want.append(reference(
                                order, [int(a == yt[t]) for a in labels], 2))
                        ctx.close(f"labels-{src}", orient(got, 4, 2, want), want,
                                  what=f"{src} {labels} {yt}")
                        if tl != list(labels) or sl != list(yt):
                            ctx.fail("labels-mutated", "caller's label list modified")
        for bad_tr, bad_te in (([0, 1, 0], None), ([0] * 5, None), (None, [1]),
                               (None, [1, 0, 1]), ([], None), (None, [])):
            try:
                attribute(1, x, torch.tensor([0, 1, 0, 1]), xte,
                          torch.tensor([0, 1]), 2, 1, train_labels=bad_tr,
                          test_labels=bad_te)
                ctx.fail("labels-length", f"accepted labels {bad_tr} {bad_te}")
            except ValueError:
                ctx.count("refused")
            ctx.execution()
    elif kind == "custom":
        calls = []

        def negdot(b1, b2):
            calls.append((len(b1[0]), len(b2[0])))
            return -(b1[0] @ b2[0].T)

        x = torch.tensor([[1.0, 0], [0, 1.0], [2.0, 1.0], [-1.0, 3.0], [0.5, -2.0]])
        xte = torch.tensor([[1.0, 0.3], [-0.2, 1.0], [0.9, 0.8]])
        for labels in itertools.product(range(2), repeat=5):
            for k in range(1, 7):
                for bs, bt in ((1, 1), (2, 2), (5, 3), (3, 1), (4, 2)):
                    got = attribute(k, x, torch.tensor(labels), xte,
                                    torch.tensor([0, 1, 1]), bs, bt,
                                    distance_func=negdot)
                    ctx.execution()
                    ctx.outcome(got)
                    want = []
                    for t in range(3):
                        order = torch.argsort(-(x @ xte[t])).tolist()
                        want.append(reference(
                            order, [int(a == [0, 1, 1][t]) for a in labels], k))
                    if not ctx.close(f"custom-k{k}", orient(got, 5, 3, want), want,
                                     what=f"k={k} {labels}"):
                        return
        if not calls:
            ctx.fail("custom-unused", "user distance function never called")
    else:
        # the same attributor object used repeatedly on different loaders
        from dattri.algorithm.data_shapley import KNNShapleyAttributor

        data = []
        for m in range(3):
            x = torch.tensor([[1.0 + m], [2.5], [4.0 - m]])
            y = torch.tensor([m % 2, 1, 0])
            data.append((x, y))
        for hist in itertools.product(range(3), repeat=3):
            att = KNNShapleyAttributor(k_neighbors=2)
            for m in hist:
                x, y = data[m]
                att.cache()
                got = att.attribute(
                    DataLoader(TensorDataset(x, y), batch_size=2),
                    DataLoader(TensorDataset(torch.zeros(1, 1), torch.tensor([1])),
                               batch_size=1))
                order = torch.argsort(x[:, 0]).tolist()
                want = [reference(order, [int(a == 1) for a in y.tolist()], 2)]
                ctx.close("history", orient(got, 3, 1, want), want, what=str(hist))
                ctx.outcome(got)
                ctx.step()
            ctx.execution()
            ctx.state(core.digest(list(hist)))
