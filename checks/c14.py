"""C14: random projection is one fixed linear map per seed and ensemble.

Explicit-state exploration of the projector object: from a new projector, every
sequence (to the stated depth) of the operations

    project ensemble e (as tensor or dict, in one batch or row by row)
    free_memory       reseed / advance the global random generators

is executed on the real code.  The abstract state is (current ensemble, memory freed,
global generator disturbed, last form); the monitor compares every result with the
map M_e obtained from a fresh projector by projecting the unit vectors.
"""

from __future__ import annotations

import itertools

import numpy as np
import torch

from mc import core

PID = "C14"
LEVEL = "model_checking"
RULE = ("all operation sequences up to depth 4 (5 thorough) per projector "
        "configuration; every sequence runs on the real projector")
ASSUMPTIONS = ["CPU projector types (normal, rademacher, random_mask, identity); the "
               "CUDA-only types are only checked to be refused on the CPU"]

OPS = ("p0t", "p1t", "p0d", "p1d", "p0r", "p7t", "free", "seed", "draw")


def configs(tier):
    for ptype in ("normal", "rademacher", "random_mask", "identity"):
        for d, k, block in ((5, 3, 100), (4, 5, 2), (6, 4, 2), (3, 7, 3), (7, 1, 1)):
            if ptype == "random_mask" and k > d:
                continue
            if ptype == "identity" and block != 100:
                continue
            for seed in (0, 3):
                for dtype in ("float32", "float64"):
                    yield {"ptype": ptype, "d": d, "k": k, "block": block, "seed": seed,
                           "dtype": dtype}


def cases(tier):
    for i, c in enumerate(configs(tier)):
        # deep exploration for one configuration per type and block layout
        deep = c["seed"] == 3 and c["dtype"] == "float32"
        depth = (4 if deep else 2) + (tier == "thorough")
        for first in OPS:
            yield {"id": f"{c['ptype']}-{c['d']}x{c['k']}b{c['block']}s{c['seed']}"
                         f"{c['dtype'][5:]}-{first}", "kind": "hist", **c,
                   "first": first, "depth": depth}
    for ptype in ("normal", "rademacher", "random_mask", "identity"):
        for k in (2, 130, 205):
            yield {"id": f"factory-{ptype}-{k}", "kind": "factory", "ptype": ptype, "k": k}
    for ptype in ("normal", "rademacher", "random_mask"):
        yield {"id": f"entries-{ptype}", "kind": "entries", "ptype": ptype}
    yield {"id": "refused", "kind": "refused"}


def rows(d, n, dtype):
    x = torch.arange(n * d).reshape(n, d).to(dtype)
    return (x * 7 + 3) % 11 - 5 + x / 16


def as_dict(x):
    """The same features as a dict of blocks with differently shaped entries."""
    d = x.shape[1]
    if d < 3:
        return {"a": x.clone()}
    return {"w": x[:, :d - 2].reshape(len(x), 1, d - 2).clone(),
            "s": x[:, d - 2].clone(), "b": x[:, d - 1:].clone()}


def run(case, ctx):
    from dattri.func.projection import BasicProjector, ProjectionType, random_project
    from dattri.params.projection import RandomProjectionParams

    kind = case["kind"]
    if kind == "hist":
        dtype = getattr(torch, case["dtype"])
        d, k, seed = case["d"], case["k"], case["seed"]

        def new(**kw):
            return BasicProjector(feature_dim=d, proj_dim=k, seed=seed,
                                  proj_type=ProjectionType(case["ptype"]),
                                  device=torch.device("cpu"), block_size=case["block"],
                                  dtype=dtype, **kw)

        x = rows(d, 3, dtype)
        maps = {}
        for e in (0, 1, 7):
            torch.manual_seed(11 + e)
            maps[e] = new(ensemble_id=e).project(torch.eye(d, dtype=dtype), e).clone()
        if case["ptype"] in ("normal", "rademacher") and (
                torch.equal(maps[0], maps[1]) or torch.equal(maps[1], maps[7])):
            ctx.fail("ensembles", "different ensembles share one map")
        if case["depth"] > 0:
            check_map(ctx, case["ptype"], maps[0], d, k)
        for tail in itertools.chain.from_iterable(
                itertools.product(OPS, repeat=r) for r in range(case["depth"])):
            hist = (case["first"], *tail)
            if not hist[-1].startswith("p"):
                continue  # covered by its extensions
            p = new()
            freed, disturbed, last = False, "", None
            for op in hist:
                if op == "free":
                    p.free_memory()
                    freed = True
                elif op == "seed":
                    torch.manual_seed(12345)
                    np.random.seed(5)
                    disturbed = "seed"
                elif op == "draw":
                    torch.rand(3)
                    disturbed = "draw"
                else:
                    e = int(op[1])
                    if op[2] == "t":
                        got = p.project(x.clone(), e)
                    elif op[2] == "d":
                        got = p.project(as_dict(x), e)
                    else:
                        got = torch.cat([p.project(x[i:i + 1].clone(), e)
                                         for i in range(len(x))])
                    if got.dtype != dtype:
                        ctx.fail("dtype", f"{hist}: {got.dtype}")
                        return
                    if not ctx.close("map", got, x @ maps[e], rtol=1e-5, atol=1e-5,
                                     what=f"{hist}"):
                        return
                    freed, last = False, op
                ctx.step()
                ctx.state([last, freed, disturbed, case["ptype"], case["block"] < k])
            ctx.execution()
        ctx.outcome(core.digest([maps[e] for e in maps]))
    elif kind == "factory":
        # the public factory: two projectors with equal arguments are the same map,
        # whatever the row count, form, feature batch size and global state
        k, d = case["k"], 260
        x = rows(d, 4, torch.float32)

        def make(feature, fb, seed):
            return random_project(feature, RandomProjectionParams(
                proj_dim=k, proj_max_batch_size=8, proj_seed=seed, device="cpu",
                proj_type=case["ptype"], feature_batch_size=fb))

        maps = {}
        for seed in (0, 1):
            f = make(torch.eye(d), d, seed)
            maps[seed] = {e: f(torch.eye(d), ensemble_id=e).clone() for e in (0, 2)}
            if not torch.equal(f(torch.eye(d)), maps[seed][0]):
                ctx.fail("default-ensemble", "the default ensemble is not 0")
            check_map(ctx, case["ptype"], maps[seed][0], d, k)
        if case["ptype"] != "identity" and torch.equal(maps[0][0], maps[1][0]):
            ctx.fail("seeds", "different seeds give the same map")
        for seed, form, fb, order in itertools.product(
                (0, 1), ("t", "d"), (1, 2, 4), itertools.permutations((0, 2, 0))):
            torch.manual_seed(fb)
            first = x[:fb]
            f = make(first if form == "t" else as_dict(first), fb, seed)
            for e in order:
                for part in range(0, 4, fb):
                    b = x[part:part + fb]
                    got = f(b if form == "t" else as_dict(b), ensemble_id=e)
                    ctx.step()
                    if not ctx.close("factory", got, b @ maps[seed][e], rtol=1e-4,
                                     atol=1e-4, what=f"{form} fb={fb} ens {order}"):
                        return
                torch.rand(2)
            ctx.execution()
            ctx.state([seed, form, fb, order])
        ctx.outcome(core.digest(maps[0][0]))
    elif kind == "entries":
        # the documented entries, over all small sizes and a range of seeds
        for d, k, seed in itertools.product(range(1, 7), range(1, 7), range(12)):
            if case["ptype"] == "random_mask" and k > d:
                continue
            p = BasicProjector(feature_dim=d, proj_dim=k, seed=seed,
                               proj_type=ProjectionType(case["ptype"]),
                               device=torch.device("cpu"))
            m = p.project(torch.eye(d), seed % 3)
            ctx.execution()
            ctx.outcome(m)
            if not check_map(ctx, case["ptype"], m, d, k):
                return
    else:
        def params(**kw):
            return RandomProjectionParams(**{
                "proj_dim": 2, "proj_max_batch_size": 8, "proj_seed": 0, "device": "cpu",
                "proj_type": "normal", "feature_batch_size": 2, **kw})

        for bad in ("sjlt", "grass", "gaussian", "", "NORMAL", "grass_x"):
            for feature in (torch.ones(2, 3), {"a": torch.ones(2, 3)}):
                ctx.execution()
                try:
                    random_project(feature, params(proj_type=bad))(feature)
                except Exception:  # noqa: BLE001
                    ctx.count("refused")
                    continue
                ctx.fail("refused", f"projection type {bad!r} accepted on the CPU")
        for bad in ("sjlt", "grass"):
            ctx.execution()
            try:
                BasicProjector(feature_dim=3, proj_dim=2, seed=0,
                               proj_type=ProjectionType(bad),
                               device=torch.device("cpu")).project(torch.ones(2, 3), 0)
                ctx.fail("refused", f"projection type {bad!r} accepted by the projector")
            except Exception:  # noqa: BLE001
                ctx.count("refused")
        ctx.state("refused")


def check_map(ctx, ptype, m, d, k):
    """Entries and scale of a map, by type."""
    if ptype == "identity":
        return ctx.close("entries", m, torch.eye(d), what="identity")
    if tuple(m.shape) != (d, k):
        ctx.fail("entries", f"{ptype}: map shape {tuple(m.shape)} for {d}->{k}")
        return False
    if ptype == "rademacher":
        return ctx.close("entries", m.abs(), torch.full((d, k), k ** -0.5),
                         rtol=1e-6, what="rademacher entries are +-1/sqrt(proj_dim)")
    if ptype == "random_mask":
        cols = [c.nonzero().flatten().tolist() for c in m.T]
        if any(len(c) != 1 for c in cols) or len({c[0] for c in cols}) != k \
                or not torch.all((m == 0) | (m == 1)):
            ctx.fail("entries", f"random_mask is not a selection of {k} columns: "
                                f"{m.tolist()}")
            return False
        return True
    # normal: distinct, finite, of the documented magnitude (a fixed, seeded draw)
    v = m.double() * k ** 0.5
    if not torch.isfinite(v).all() or len(set(v.flatten().tolist())) < 0.99 * v.numel():
        ctx.fail("entries", "normal entries repeat or are not finite")
        return False
    n = v.numel()
    if n >= 500 and not (abs(v.mean()) < 6 / n ** 0.5
                         and abs(v.var() - 1) < 6 * (2 / n) ** 0.5):
        ctx.fail("entries", f"normal entries: mean {v.mean():.4f} var {v.var():.4f}")
        return False
    if v.abs().max() > 6.5:
        ctx.fail("entries", f"normal entries too large: {v.abs().max():.3f}")
        return False
    return True
