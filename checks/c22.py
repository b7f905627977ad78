"""C22: mislabel-detection AUC against the pairwise rank statistic.

Every ranking of n <= 5 (6 thorough) scores x every noise indicator with both
classes, in several number formats; and every tie pattern, where curve and area
must belong to one common tie-breaking.
"""

from __future__ import annotations

import itertools

import torch

PID = "C22"
LEVEL = "exploration"
RULE = ("all score orders x all noise masks with both classes x score scale/dtype x "
        "mask dtype; non-trivial = distinct (area, curve) results")
ASSUMPTIONS = ["curve points are listed for depths 0..n"]

SCALES = (("int", lambda r: torch.tensor(r)),
          ("f32", lambda r: torch.tensor([0.1 * x - 0.25 for x in r])),
          ("f64", lambda r: torch.tensor([1e-9 * x for x in r], dtype=torch.float64)),
          ("big", lambda r: torch.tensor([-(10.0 ** (6 - x)) for x in r])),
          ("ulp32", lambda r: torch.tensor([1 + x * 2.0 ** -23 for x in r])),
          ("ulp64", lambda r: torch.tensor([1 + x * 2.0 ** -52 for x in r], dtype=torch.float64)),
          ("i64", lambda r: torch.tensor([2 ** 60 + x for x in r])),
          ("inf", lambda r: torch.tensor([float("-inf"), *range(1, len(r) - 1), float("inf")])[
              torch.tensor(r)]),
          ("half", lambda r: torch.tensor(r, dtype=torch.float16)),
          ("tiny", lambda r: torch.tensor([x * 1e-44 for x in r])))
MASKS = (torch.bool, torch.int64, torch.float32)


def cases(tier):
    for n in range(2, 6 if tier == "quick" else 7):
        for perm in itertools.permutations(range(n)):
            if n == 6 and perm[0] > perm[-1]:
                continue
            yield {"id": f"p{''.join(map(str, perm))}", "kind": "perm", "perm": list(perm)}
    for n in (11, 17, 64):
        for q in range(8):  # a fixed scattered order
            yield {"id": f"large-n{n}-{q}", "kind": "perm", "large": q,
                   "perm": sorted(range(n), key=lambda i: ((i * (2 * q + 5)) % 13, i * q % 7,
                                                           i))}
    for n in (130, 300, 1030) + ((2100, 5000) if tier != "quick" else (2100,)):
        for q in range(2):
            yield {"id": f"huge-n{n}-{q}", "kind": "huge", "n": n, "q": q}
    for n in range(2, 6):
        for lev in itertools.product(range(3), repeat=n):
            if len(set(lev)) < n:
                yield {"id": f"t{''.join(map(str, lev))}", "kind": "tie",
                       "lev": list(lev)}


def masks(n):
    for m in itertools.product((0, 1), repeat=n):
        if 0 < sum(m) < n:
            yield m


def curve(order, mask):
    tpr, fpr, p, q = [0.0], [0.0], sum(mask), len(mask) - sum(mask)
    a = b = 0
    for i in order:
        a += mask[i]
        b += 1 - mask[i]
        tpr.append(a / p)
        fpr.append(b / q)
    return fpr, tpr


def area(fpr, tpr):
    return sum((fpr[i] - fpr[i - 1]) * (tpr[i] + tpr[i - 1]) / 2
               for i in range(1, len(fpr)))


def run(case, ctx):
    from dattri.metric import mislabel_detection_auc

    if case["kind"] == "perm":
        perm = case["perm"]
        n = len(perm)
        order = sorted(range(n), key=lambda i: -perm[i])
        some = masks(n) if "large" not in case else [
            tuple(int((i * i + s * i) % k == 0) for i in range(n))
            for s in range(5) for k in (2, 3, 5, 9)]
        for mask in some:
            if not 0 < sum(mask) < n:
                continue
            fpr, tpr = curve(order, mask)
            pairs = [(i, j) for i in range(n) for j in range(n) if mask[i] and not mask[j]]
            want = sum(perm[i] > perm[j] for i, j in pairs) / len(pairs)
            for name, mk in SCALES:
                for mt in MASKS:
                    s = mk(perm)
                    if len(set(s.tolist())) < n:
                        continue  # the scale is too coarse for so many scores
                    keep = s.clone()
                    g = torch.tensor(mask, dtype=mt)
                    auc, (f, t, th) = mislabel_detection_auc(s, g)
                    ctx.execution()
                    ctx.outcome([round(float(auc), 5), fpr, tpr])
                    what = f"{name} {perm} noise={mask}"
                    ctx.close("area", float(auc), want, atol=1e-6, what=what)
                    ctx.close("fpr", f, fpr, atol=1e-6, what=what)
                    ctx.close("tpr", t, tpr, atol=1e-6, what=what)
                    if [float(x) for x in list(th)[1:]] != [float(x) for x in
                                                            range(1, n + 1)]:
                        ctx.fail("depths", f"{what}: {th}")
                    if not torch.equal(s, keep) or g.tolist() != torch.tensor(
                            mask, dtype=mt).tolist():
                        ctx.fail("mutated", what)
        return
    if case["kind"] == "huge":
        n = case["n"]
        perm = [(i * 7919 + case["q"]) % n for i in range(n)]  # 7919 is coprime to every n
        order = sorted(range(n), key=lambda i: -perm[i])
        for k in (2, 7):
            mask = [int((i * i + i) % (k * 11) < 9) for i in range(n)]
            fpr, tpr = curve(order, mask)
            auc, (f, t, th) = mislabel_detection_auc(torch.tensor(perm), torch.tensor(mask))
            ctx.execution()
            ctx.outcome([round(float(auc), 5)])
            ctx.close("area", float(auc), area(fpr, tpr), atol=1e-4, what=f"{n} samples")
            ctx.close("fpr", f, fpr, atol=1e-5, what=f"{n} samples")
            ctx.close("tpr", t, tpr, atol=1e-5, what=f"{n} samples")
            if len(th) != n + 1:
                ctx.fail("depths", f"{len(th)} depths for {n} samples")
        return
    lev = case["lev"]
    n = len(lev)
    orders = [o for o in itertools.permutations(range(n))
              if all(lev[o[i]] >= lev[o[i + 1]] for i in range(n - 1))]
    for mask in masks(n):
        auc, (f, t, _) = mislabel_detection_auc(torch.tensor(lev, dtype=torch.float32),
                                                torch.tensor(mask))
        ctx.execution()
        ctx.outcome([round(float(auc), 5)])
        ok = False
        for o in orders:
            fpr, tpr = curve(o, mask)
            if len(f) == len(fpr) and torch.allclose(
                    torch.as_tensor(f, dtype=torch.float64),
                    torch.tensor(fpr, dtype=torch.float64), atol=1e-6) \
                    and torch.allclose(torch.as_tensor(t, dtype=torch.float64),
                                       torch.tensor(tpr, dtype=torch.float64),
                                       atol=1e-6) \
                    and abs(float(auc) - area(fpr, tpr)) < 1e-6:
                ok = True
                break
        if not ok:
            ctx.fail("ties", f"{lev} noise={mask}: auc {float(auc)} fpr {list(f)} "
                             f"tpr {list(t)} belongs to no tie-breaking")
            return
