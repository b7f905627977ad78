"""C15: parameter chunking partitions the features and preserves the projection.

All lists of up to four block sizes against all small chunk limits (the limit is set
through the batch size, as in real use), then the chunked projector on every call
sequence up to depth 3, with stale buffers, partial batches and freed memory.
"""

from __future__ import annotations

import itertools

import torch

PID = "C15"
LEVEL = "exploration"
RULE = ("all block-size lists x chunk limits; per splitting all call sequences up to "
        "depth 3 over rows x ensembles x forms; non-trivial = distinct splittings and "
        "projected values")
ASSUMPTIONS = ["the chunk limit is (2^32-1)//(2*batch size); CPU projectors stand in for "
               "the per-chunk CUDA projectors"]

UMAX = 2 ** 32 - 1


def batch_for(limit):
    """The smallest batch size whose chunk limit is `limit`."""
    b = UMAX // (2 * (limit + 1)) + 1
    assert UMAX // (2 * b) == limit
    return b


def cases(tier):
    top = 6 if tier == "quick" else 8
    for limit in range(1, top + 1):
        for n in range(0, 5):
            yield {"id": f"split-L{limit}-n{n}", "kind": "split", "limit": limit, "n": n,
                   "top": top}
    for limit in (2, 3, 4, 5):
        for a in range(1, limit + 3):
            yield {"id": f"project-L{limit}-{a}", "kind": "project", "limit": limit,
                   "a": a, "tier": tier}
    yield {"id": "real", "kind": "real"}


def check_split(ctx, sizes, limit, batch, got):
    most, chunks = got
    chunks = [int(c) for c in chunks]
    what = f"blocks {sizes} limit {limit}"
    if sum(chunks) != sum(sizes):
        ctx.fail("cover", f"{what}: chunks {chunks} cover {sum(chunks)} features of "
                          f"{sum(sizes)}")
        return None
    if any(c > limit for c in chunks) or any(c <= 0 for c in chunks if sum(sizes)):
        ctx.fail("limit", f"{what}: chunks {chunks}")
        return None
    if int(most) * 2 * batch > UMAX or max(chunks) > int(most):
        ctx.fail("limit", f"{what}: reported maximum {most}, chunks {chunks}")
        return None
    if all(s <= limit for s in sizes) and chunks != [0]:
        # no block is split when every block fits
        ends, acc = set(), 0
        for s in sizes:
            acc += s
            ends.add(acc)
        acc = 0
        for c in chunks:
            acc += c
            if acc not in ends:
                ctx.fail("split-block", f"{what}: chunks {chunks} cut a block that fits")
                return None
    return int(most), chunks


def run(case, ctx):
    from dattri.func.utils import get_parameter_chunk_sizes

    kind = case["kind"]
    if kind == "split":
        limit = case["limit"]
        low = batch_for(limit)
        high = UMAX // (2 * limit)  # the largest batch size with this limit
        for sizes in itertools.product(range(1, case["top"] + 3), repeat=case["n"]):
            for batch in (low, high):
                given = list(sizes)
                got = get_parameter_chunk_sizes(given, batch)
                ctx.execution()
                ctx.outcome(str((limit, got[1])))
                if check_split(ctx, list(sizes), limit, batch, got) is None:
                    return
                if given != list(sizes):
                    ctx.fail("mutated", str(sizes))
        return
    if kind == "real":
        for batch in (1, 8, 32, 100, 4096):
            limit = UMAX // (2 * batch)
            for sizes in ([10, 20, 30], [limit], [limit - 1, 1], [limit, 1], [limit + 1],
                          [1, limit], [limit // 2] * 5, [3 * limit + 7, 2],
                          [limit - 1, 2, limit - 2, 3]):
                got = get_parameter_chunk_sizes(sizes, batch)
                ctx.execution()
                ctx.outcome(str(got))
                if check_split(ctx, sizes, limit, batch, got) is None:
                    return
        return

    from dattri.func.projection import BasicProjector, ChunkedCudaProjector, ProjectionType

    limit, a = case["limit"], case["a"]
    fb, k = 3, 2
    for rest in itertools.chain.from_iterable(
            itertools.product(range(1, limit + 2), repeat=r) for r in range(3)):
        sizes = [a, *rest]
        if sum(s > limit for s in sizes) > 1:
            continue
        most, chunks = get_parameter_chunk_sizes(sizes, batch_for(limit))
        chunks = [int(c) for c in chunks]

        def build():
            return [BasicProjector(c, k, 17 + 5 * i, ProjectionType.normal,
                                   torch.device("cpu")) for i, c in enumerate(chunks)]

        total = sum(sizes)
        maps = {e: torch.cat([p.project(torch.eye(p.feature_dim), e)
                              for p in build()]) for e in (0, 1)}
        ops = [(r, e, form) for r in (1, 3) for e in (0, 1) for form in ("dict", "flat")]
        ops += [(2, 0, "dict"), ("free", 0, "")]
        depth = 3 if len(rest) == 2 and rest == (1, 2) else 2
        if case["tier"] == "thorough":
            depth = 3
        for hist in itertools.product(ops, repeat=depth):
            if hist[-1][0] == "free":
                continue
            proj = ChunkedCudaProjector(build(), most, chunks, fb, torch.device("cpu"),
                                        torch.float32)
            for step, (r, e, form) in enumerate(hist):
                if r == "free":
                    proj.free_memory()
                    continue
                x = ((torch.arange(r * total).reshape(r, total) * (step + 3)) % 13
                     - 6.0) / 4
                what = f"blocks {sizes} chunks {chunks} history {hist}"
                want = x @ maps[e]
                if form == "flat":
                    got = proj.project(x.clone(), ensemble_id=e)
                else:
                    feats, at = {}, 0
                    for i, s in enumerate(sizes):
                        v = x[:, at:at + s].clone()
                        feats[f"b{i}"] = v[:, 0] if s == 1 and i % 2 else \
                            v.reshape(r, s // 2, 2) if s % 2 == 0 else v
                        at += s
                    try:
                        got = proj.dict_project(feats, e)
                    except (ValueError, RuntimeError):
                        if all(s <= limit for s in sizes):
                            ctx.fail("refused", f"{what}: blocks that fit are refused")
                            return
                        ctx.count("refused")
                        continue
                ctx.step()
                if not ctx.close(f"chunked-{form}", got, want, rtol=1e-5, atol=1e-5,
                                 what=what):
                    return
                ctx.outcome(got)
            ctx.execution()
            ctx.state(str((sizes, hist)))
