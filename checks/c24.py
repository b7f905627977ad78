"""C24: retraining directories record exactly what was trained.

Training is a stand-in that records the samples and the seed it was given and stores
them in the model.  Enumerated: every list of removed indices, every outcome of the
subset choice, every partition of the subset ids into runs and every order of them,
for sequential, shuffled and subset-sampled loaders.
"""

from __future__ import annotations

import itertools
import os
import shutil
import tempfile

import torch
import yaml

PID = "C24"
LEVEL = "exploration"
RULE = ("all removed-index lists; all subset draws; all (subsets, runs, ratio, seed, "
        "partition, order) combinations in the bounds; non-trivial = distinct sets of "
        "trained models")
ASSUMPTIONS = ["indices are positions in the training loader (the rows of a score "
               "matrix); the subset size is int(number of samples x ratio)"]

KINDS = ("seq", "random", "subset", "subset_random")


def cases(tier):
    for n in (2, 3, 4):
        for kind in KINDS:
            yield {"id": f"loo-n{n}-{kind}", "kind": "loo", "n": n, "loader": kind}
    for kind in KINDS:
        yield {"id": f"loo-large-{kind}", "kind": "loo", "n": 24, "loader": kind}
        for n, ratio in ((24, 0.5), (30, 0.3), (13, 0.9)):
            yield {"id": f"part-large-{n}-{kind}", "kind": "part", "total": 12, "n": n,
                   "ratio": ratio, "loader": kind, "seeds": 1}
    for kind in KINDS:
        for n, ratio in ((4, 0.5), (5, 0.5), (3, 0.7), (4, 0.25), (3, 1.0), (2, 0.5)):
            yield {"id": f"draw-n{n}-{ratio}-{kind}", "kind": "draw", "n": n,
                   "ratio": ratio, "loader": kind}
    for kind in KINDS:
        for total in (1, 2, 3, 4, 6, 12):
            yield {"id": f"part-{total}-{kind}", "kind": "part", "total": total,
                   "loader": kind, "seeds": 4 if tier == "quick" else 40}
    yield {"id": "refused", "kind": "refused"}
    for kind in KINDS:
        yield {"id": f"default-{kind}", "kind": "default", "loader": kind}


def fresh():
    return tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))


def ones(model, n=None):
    seen = model["seen"] if isinstance(model, dict) else model.seen
    return sorted(i for i, v in enumerate(seen.tolist()) for _ in range(int(v)))


def batches(n, bs):
    return [min(bs, n - i) for i in range(0, n, bs)]


def check_loo(ctx, n, kind, bs, indices, seed, path, twice):
    from dattri.model_util.retrain import retrain_loo
    from mc.retrain import Trainer, loader

    ld, ids = loader(n, kind, bs)
    tr = Trainer()
    kw = {} if indices is None else {"indices": list(indices)}
    if twice:  # an earlier run left models of other indices behind
        retrain_loo(Trainer(), ld, path, indices=[0, n - 1], seed=99)
    retrain_loo(tr, ld, path, seed=seed, flavour="a", **kw)
    ctx.execution()
    asked = list(range(n)) if indices is None else list(indices)
    what = f"n={n} {kind} bs={bs} indices={indices} seed={seed}"
    if [sorted(r[0]) for r in tr.runs] != [
            sorted(ids[p] for p in range(n) if p != i) for i in asked]:
        ctx.fail("loo-trained-on", f"{what}: {[sorted(r[0]) for r in tr.runs]}")
    if any(r[2] != {"flavour": "a"} or r[1] != seed for r in tr.runs):
        ctx.fail("loo-arguments", f"{what}: {[r[1:] for r in tr.runs]}")
    if any(b != batches(n - 1, bs) for b in tr.batches):
        ctx.fail("loo-batches", f"{what}: trained in batches {tr.batches}")
    want_dirs = {f"index_{i}" for i in asked} | (
        {"index_0", f"index_{n - 1}"} if twice else set())
    got_dirs = {d for d in os.listdir(path) if os.path.isdir(os.path.join(path, d))}
    if got_dirs != want_dirs:
        ctx.fail("loo-directories", f"{what}: {sorted(got_dirs)}")
        return
    for i in asked:
        m = torch.load(os.path.join(path, f"index_{i}", "model_weights.pt"),
                       weights_only=False)
        if ones(m) != sorted(ids[p] for p in range(n) if p != i):
            ctx.fail("loo-stored", f"{what}: index_{i} holds a model of {ones(m)}")
    with open(os.path.join(path, "metadata.yml")) as f:
        meta = yaml.safe_load(f)
    if meta.get("mode") != "loo" or list(meta.get("indices", [])) != asked \
            or set(meta.get("map_index_dir", {})) != set(asked):
        ctx.fail("loo-metadata", f"{what}: {meta}")
    else:
        for i in asked:
            d = str(meta["map_index_dir"][i])
            if os.path.basename(os.path.normpath(d)) != f"index_{i}":
                ctx.fail("loo-metadata", f"{what}: {i} -> {d}")
    ctx.outcome([ones(torch.load(os.path.join(path, f"index_{i}", "model_weights.pt"),
                                 weights_only=False)) for i in asked])


def read_subsets(path, ids, n, sub_ids, runs, size, ctx, what, calls=None):
    """Check the subset directories; returns {id: positions}."""
    out = {}
    for i in sub_ids:
        with open(os.path.join(path, str(i), "indices.txt")) as f:
            pos = [int(x) for x in f.read().split()]
        out[i] = pos
        if len(pos) != size or len(set(pos)) != size or not all(
                0 <= p < n for p in pos):
            ctx.fail("subset-indices", f"{what}: subset {i} lists {pos}")
            continue
        want = sorted(ids[p] for p in pos)
        for j in range(runs):
            state = torch.load(os.path.join(path, str(i), f"model_weights_{j}.pt"))
            if ones(state) != want:
                ctx.fail("subset-stored", f"{what}: subset {i} run {j} trained on "
                                          f"{ones(state)}, recorded {want}")
        if os.path.exists(os.path.join(path, str(i), f"model_weights_{runs}.pt")):
            ctx.fail("subset-extra", f"{what}: more than {runs} models in subset {i}")
    return out


def check_meta(ctx, path, total, runs, what):
    f = os.path.join(path, "metadata.yml")
    if not os.path.exists(f):
        ctx.fail("subset-metadata", f"{what}: no metadata.yml")
        return
    with open(f) as h:
        meta = yaml.safe_load(h)
    dirs = meta.get("subset_dir_map", {})
    if meta.get("num_subsets") != total or meta.get("num_runs_per_subset") != runs \
            or sorted(dirs) != list(range(total)) or any(
                os.path.realpath(dirs[i]) != os.path.realpath(os.path.join(path, str(i)))
                for i in dirs):
        ctx.fail("subset-metadata", f"{what}: {meta}")


def run(case, ctx):
    from dattri.model_util.retrain import retrain_lds
    from mc import rng
    from mc.retrain import Trainer, loader

    kind = case["kind"]
    if kind == "loo":
        n, ld = case["n"], case["loader"]
        lists = [None, [11, 3, 23, 0, 10, 9, 2], list(range(23, 4, -1)), [13]] if n > 9 \
            else [None] + [list(p) for k in range(1, n + 1)
                          for p in itertools.permutations(range(n), k)]
        for q, indices in enumerate(lists):
            for seed in (None, 0, 7):
                path = fresh()
                target = os.path.join(path, "deep", "er") if q % 2 else path
                check_loo(ctx, n, ld, 1 + q % 3, indices, seed, target,
                          twice=q % 4 == 3)
                shutil.rmtree(path)
        return
    if kind == "draw":
        n, ratio = case["n"], case["ratio"]
        size = int(n * ratio)
        ld, ids = loader(n, case["loader"], 2)

        def body():
            path = fresh()
            tr = Trainer()
            retrain_lds(tr, ld, path, num_subsets=1, subset_ratio=ratio,
                        num_runs_per_subset=2, seed=5)
            return path, tr

        draws = set()
        for (path, tr), _ in rng.explore(body, limit=400):
            what = f"n={n} ratio={ratio} {case['loader']}"
            got = read_subsets(path, ids, n, [0], 2, size, ctx, what)
            check_meta(ctx, path, 1, 2, what)
            ctx.execution()
            ctx.outcome([sorted(r[0]) for r in tr.runs])
            draws.add(tuple(got[0]))
            if any(b != batches(size, 2) for b in tr.batches):
                ctx.fail("batches", f"{what}: trained in batches {tr.batches}")
            if len(tr.runs) != 2 or len({r[1] for r in tr.runs}) != 2:
                ctx.fail("runs", f"{what}: training calls {tr.runs}")
            shutil.rmtree(path)
            if ctx.failures:
                return
        ctx.count("draws", len(draws))
        return
    if kind == "refused":
        ld, _ = loader(4, "seq", 2)
        for kw in ({"total_num_subsets": -4, "num_subsets": 2},
                   {"total_num_subsets": 5, "num_subsets": 2},
                   {"total_num_subsets": 1, "num_subsets": 2}):
            path = fresh()
            tr = Trainer()
            try:
                retrain_lds(tr, ld, path, **kw)
                ctx.fail("refused", f"{kw} accepted")
            except ValueError:
                pass
            if tr.runs:
                ctx.fail("refused-trained", f"{kw}: trained before refusing")
            ctx.execution()
        for seed in (None, None):
            path = fresh()
            tr = Trainer()
            retrain_lds(tr, ld, path, num_subsets=3, num_runs_per_subset=2, seed=seed,
                        start_id=1)
            read_subsets(path, list(range(4)), 4, range(3), 2, 2, ctx, "unseeded")
            check_meta(ctx, path, 3, 2, "unseeded")
            if len({r[1] for r in tr.runs}) != 6:
                ctx.fail("seeds", f"unseeded run repeats training seeds {tr.runs}")
            ctx.execution()
        return
    if kind == "default":
        for n, bs in ((4, 3), (7, 2)):
            ld, ids = loader(n, case["loader"], bs)
            for kw, size, runs in (({}, n // 2, 1), ({"num_runs_per_subset": 2}, n // 2, 2),
                                   ({"subset_ratio": 0.8}, int(n * 0.8), 1)):
                path, tr = fresh(), Trainer()
                retrain_lds(tr, ld, path, seed=3, **kw)
                got = read_subsets(path, ids, n, range(100), runs, size, ctx, f"{kw}")
                if {d for d in os.listdir(path) if d.isdigit()} != {str(i) for i in range(100)}:
                    ctx.fail("default-directories", f"{kw}: {len(os.listdir(path))} entries")
                check_meta(ctx, path, 100, runs, f"default {kw}")
                ctx.execution()
                ctx.outcome(got)
                shutil.rmtree(path)
        return
    total = case["total"]
    n, ratio = case.get("n", 5), case.get("ratio", 0.6)
    ld, ids = loader(n, case["loader"], 2)
    sizes = [k for k in range(1, total + 1) if total % k == 0]
    for seed in range(case["seeds"]):
        for runs in (1, 2, 3):
            base = None
            for per in sizes:
                starts = list(range(0, total, per))
                orders = list(itertools.permutations(starts)) if len(starts) <= 3 else \
                    [starts, starts[::-1], starts[1::2] + starts[::2]]
                for order in orders:
                    path = fresh()
                    seeds_seen = []
                    for s in order:
                        tr = Trainer()
                        kw = {"total_num_subsets": total, "start_id": s}
                        if per == total and seed % 2:
                            kw = {}
                        retrain_lds(tr, ld, path, num_subsets=per, subset_ratio=ratio,
                                    num_runs_per_subset=runs, seed=seed, extra=1, **kw)
                        seeds_seen += [r[1] for r in tr.runs]
                        if any(r[2] != {"extra": 1} for r in tr.runs):
                            ctx.fail("arguments", "extra arguments not passed on")
                        ctx.step()
                    what = f"seed={seed} total={total} order={order} x{per} runs={runs}"
                    got = read_subsets(path, ids, n, range(total), runs, int(n * ratio),
                                       ctx, what)
                    got = {k: sorted(v) for k, v in got.items()}
                    check_meta(ctx, path, total, runs, what)
                    ctx.execution()
                    ctx.state([sorted(got.items())])
                    if len(seeds_seen) != total * runs or None in seeds_seen or len(
                            set(seeds_seen)) != total * runs:
                        ctx.fail("seeds", f"{what}: training seeds {seeds_seen}")
                    if base is None:
                        base = got
                    elif got != base:
                        ctx.fail("partition", f"{what}: subsets {got} differ from {base}")
                    ctx.outcome(sorted(got.items()))
                    shutil.rmtree(path)
                    if ctx.failures:
                        return
