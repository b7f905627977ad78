"""C25: ground truth is assembled from the right model, subset and run.

Directories are produced by the real retraining functions with a stand-in trainer
(every model carries what it was trained on), for every number of models up to 12,
creation orders and partitions; the target function reads the model it is given.
"""

from __future__ import annotations

import itertools
import os
import shutil

import torch
from torch.utils.data import DataLoader, TensorDataset

from checks.c24 import fresh, ones

PID = "C25"
LEVEL = "exploration"
RULE = ("all model counts <= 12 x creation orders x runs x partitions x test loaders; "
        "non-trivial = distinct ground-truth tables")
ASSUMPTIONS = ["directories are read where they were written"]


def cases(tier):
    for n in range(1, 13):
        yield {"id": f"loo-{n}", "kind": "loo", "n": n}
    for total in (1, 2, 3, 4, 6, 11, 12):
        for runs in (1, 2, 3):
            yield {"id": f"lds-{total}-{runs}", "kind": "lds", "total": total,
                   "runs": runs}


def tests():
    """Test loaders and the test inputs in their order."""
    from dattri.benchmark.utils import SubsetSampler

    x = torch.tensor([0.5, -1.0, 2.0, 3.5, 4.25])
    ds = TensorDataset(x)
    yield DataLoader(ds, batch_size=2), x
    yield DataLoader(ds, batch_size=5), x
    yield DataLoader(ds, batch_size=1, sampler=SubsetSampler([3, 1, 4])), x[[3, 1, 4]]
    yield DataLoader(ds, batch_size=2, sampler=SubsetSampler([2])), x[[2]]


def run(case, ctx):
    from dattri.metric import calculate_lds_ground_truth, calculate_loo_ground_truth
    from dattri.model_util.retrain import retrain_lds, retrain_loo
    from mc.retrain import Rec, Trainer, loader

    if case["kind"] == "loo":
        n = case["n"]
        full = list(range(n))
        orders = [None, full, full[::-1], full[1::2] + full[::2], full[n // 2:],
                  [n - 1], full[::3]]
        if n <= 4:
            orders += [list(p) for k in range(1, n + 1)
                       for p in itertools.permutations(full, k)]
        ld, _ = loader(n, "subset" if n % 3 == 0 else "seq", 2)
        for indices in orders:
            path = fresh()
            tr = Trainer()
            retrain_loo(tr, ld, path, indices=indices, seed=3)
            asked = full if indices is None else indices
            for test, x in tests():
                seen = []

                def target(model, dl):
                    seen.append(ones(model))
                    return torch.cat([model.value(b[0]) for b in dl])

                gt, removed = calculate_loo_ground_truth(target, path, test)
                ctx.execution()
                ctx.outcome(gt)
                what = f"n={n} indices={indices}"
                if torch.as_tensor(removed).tolist() != sorted(asked):
                    ctx.fail("loo-indices", f"{what}: {removed}")
                    break
                want = []
                for i in sorted(asked):
                    m = Rec()
                    r = asked.index(i)
                    for s in tr.runs[r][0]:
                        m.seen[s] += 1
                    m.tag[0], m.tag[1] = 3.0, float(r + 1)
                    want.append(m.value(x))
                if not ctx.close("loo-values", gt, torch.stack(want), what=what):
                    break
            shutil.rmtree(path)
        return
    total, runs = case["total"], case["runs"]
    n = 6
    for kind, ratio in (("seq", 0.5), ("subset", 0.7), ("random", 0.34)):
        ld, ids = loader(n, kind, 4)
        for per in [k for k in range(1, total + 1) if total % k == 0]:
            starts = list(range(0, total, per))
            orders = list(itertools.permutations(starts)) if len(starts) <= 3 else \
                [starts, starts[::-1], starts[2:] + starts[:2]]
            for order in orders:
                for stale in (False, True):
                    path = fresh()
                    if stale:  # an earlier, larger experiment in the same directory
                        retrain_lds(Trainer(), ld, path, num_subsets=total + 2,
                                    subset_ratio=ratio, num_runs_per_subset=runs + 1,
                                    seed=77)
                    made = {}
                    for s in order:
                        tr = Trainer()
                        retrain_lds(tr, ld, path, num_subsets=per, subset_ratio=ratio,
                                    num_runs_per_subset=runs, seed=11, start_id=s,
                                    total_num_subsets=total)
                        for q, r in enumerate(tr.runs):
                            made[s + q // runs, q % runs] = (r[0], r[1], q + 1)
                        ctx.step()
                    for test, x in tests():
                        def target(ckpt, dl):
                            m = Rec()
                            m.load_state_dict(torch.load(ckpt))
                            return torch.cat([m.value(b[0]) for b in dl])

                        gt, idx = calculate_lds_ground_truth(target, path, test)
                        ctx.execution()
                        ctx.outcome(gt)
                        what = f"{kind} total={total} runs={runs} order={order}x{per}"
                        rows = []
                        for i in range(total):
                            acc = torch.zeros(len(x), dtype=torch.float64)
                            for j in range(runs):
                                got_ids, seed, q = made[i, j]
                                m = Rec()
                                for s in got_ids:
                                    m.seen[s] += 1
                                m.tag[0], m.tag[1] = float((seed or 0) % 1000003), q
                                acc += m.value(x)
                            rows.append(-acc / runs)
                        ok = ctx.close("lds-values", gt, torch.stack(rows), what=what)
                        for i in range(total):
                            if sorted(ids[p] for p in idx[i].tolist()) != sorted(
                                    made[i, 0][0]):
                                ctx.fail("lds-indices", f"{what}: subset {i} {idx[i]}")
                                ok = False
                        if not ok:
                            return
                    ctx.state([total, runs, order, stale])
                    shutil.rmtree(path)
