"""C18: chunk files round-trip exactly; range reads, iteration and discovery are exact."""

from __future__ import annotations

import itertools
import os

import torch

from mc import block as B

PID = "C18"
LEVEL = "exploration"
RULE = ("chunk files: every list of up to 4 batch sizes x batch numbering x storage kind x "
        "flush mode, read back through every read function and every sub-range; stores: every "
        "permutation of storing up to 4 batches, with layers left empty, for every chunk size, "
        "read back batch by batch, for every aligned range, every loader batch size and by "
        "another handle; directories mixing kinds and 1-3 digit batch numbers; non-trivial = "
        "distinct contents read back")
ASSUMPTIONS = ["values are representable in the storage dtype asked for",
               "polling sleeps shortened"]


def _h():
    from dattri.algorithm.block_projected_if.offload.disk_io.memory_map import (
        ChunkedMemoryMapHandler,
    )
    return ChunkedMemoryMapHandler


DTYPES = {"f32": (torch.float32, "float32"), "f64": (torch.float64, "float64"),
          "f16": (torch.float16, "float16"), "f16as32": (torch.float16, "float32"),
          "bf16": (torch.bfloat16, "float32")}


def cases(tier):
    big = tier == "thorough"
    top = 4 if big else 3
    for k in range(1, top + 1):
        for sizes in itertools.product((1, 2, 3), repeat=k):
            for num in ("seq", "off", "gap", "rev", "k", "m"):
                if num in "km" and k > 2:
                    continue
                yield dict(kind="file", sizes=sizes, num=num, dt=list(DTYPES),
                           id=f"file-{''.join(map(str, sizes))}-{num}")
    for k in range(1, 5):
        for i, perm in enumerate(itertools.permutations(range(k))):
            for ch in range(1, k + 2):
                if k == 4 and not big and (i + ch) % 2:
                    continue
                yield dict(kind="store", perm=perm, ch=ch, pool=(i % 2) * 2 + 1,
                           id=f"store-{''.join(map(str, perm))}-c{ch}")
    for ch in (1, 2, 3, 4, 7):
        for n in (9, 12) + ((101,) if big or ch in (3, 7) else ()):
            yield dict(kind="many", ch=ch, n=n, id=f"many-{n}-c{ch}")
    for over in ((2, 2, 2, 2), (1, 3, 1, 2), (3, 3), (2, 1, 3, 3, 1), (4, 1), (1, 5, 1), (6, 6)):
        for ch in (1, 2, 3, 8):
            yield dict(kind="over", sizes=over, ch=ch, id=f"over-{''.join(map(str, over))}-c{ch}")
    yield dict(kind="find", id="find")


VALS = [0.0, -0.0, 1.0, -1.0, 0.5, -3.25, 1024.0, -65504.0, 2.0 ** -14, float("inf"),
        float("-inf"), 3.0, -7.5, 0.125]


def fill(rows, cols, off, dtype):
    v = torch.tensor([VALS[(off + 3 * i) % len(VALS)] for i in range(rows * cols)],
                     dtype=torch.float64).reshape(rows, cols)
    return v.to(dtype)


def same(a, b):
    return a.shape == b.shape and a.dtype.is_floating_point and \
        torch.equal(a.double(), b.double())


def numbering(num, k):
    return {"seq": list(range(k)), "off": list(range(9, 9 + k)),
            "gap": [2 + 3 * i for i in range(k)], "rev": list(range(5 + k, 5, -1)),
            "k": [999 + i for i in range(k)], "m": [99999 + i for i in range(k)]}[num]


def run_file(case, ctx):
    H = _h()
    ids = numbering(case["num"], len(case["sizes"]))
    rows, info = 0, []
    for b, s in zip(ids, case["sizes"]):
        info.append({"batch_idx": b, "start_row": rows, "end_row": rows + s})
        rows += s
    for dims in ([2, 3], [1], [0, 2, 0]):
        for dt, mode, kind in itertools.product(case["dt"], ("async", "sync", "none"),
                                                ("gradients", "ifvp")):
            torch_dt, store = DTYPES[dt]
            if torch_dt != torch.float32 and (mode == "none" or dims != [2, 3]) \
                    and dt != "bf16":
                continue
            if kind == "ifvp" and mode != "async":
                continue
            with B.scratch() as d:
                # a stale file of the same name must not shine through
                t = fill(rows, sum(dims), rows, torch_dt)
                if mode == "async" and dims == [2, 3]:
                    H.write_chunk(d, kind, torch.full((2 * rows, 9), 7.0), info, [4, 5])
                name = H.write_chunk(d, kind, t, info, dims, dtype=store, flush_mode=mode)
                ctx.execution()
                ctx.step()
                what = f"{dims} {dt} {mode} {kind}"
                if H.find_chunk_files(d, kind) != [name]:
                    ctx.fail("discovery", f"{what}: {H.find_chunk_files(d, kind)}")
                full, meta = H.load_chunk_tensor(d, name)
                if not same(full, t):
                    ctx.fail("load", f"{what}: got {full.flatten()[:9]} want {t.flatten()[:9]}")
                if meta["layer_dims"] != dims or H.read_chunk_metadata(d, name)["batches"] != info:
                    ctx.fail("metadata", f"{what}: {meta}")
                if dt == "bf16" and full.dtype != torch.bfloat16:
                    ctx.fail("dtype", f"{what}: {full.dtype}")
                for force in (False, True):
                    with H.read_chunk(d, name, force_load=force) as (got, _):
                        if not same(got, t):
                            ctx.fail("read", f"{what} force={force}: got {got.flatten()[:9]} "
                                             f"want {t.flatten()[:9]}")
                        ctx.outcome(got.double())
                for m in info:
                    got = H.load_batch_slice(d, name, m["batch_idx"])
                    if got is None or not same(got, t[m["start_row"]:m["end_row"]]):
                        ctx.fail("slice", f"{what} batch {m['batch_idx']}: {got}")
                if H.load_batch_slice(d, name, 4321) is not None:
                    ctx.fail("slice-absent", what)
                if not H.ensure_chunk_written(d, name, timeout=0.3):
                    ctx.fail("written", what)
                lo, hi = min(ids), max(ids)
                for rng in [None, *itertools.combinations(range(lo, hi + 2), 2)]:
                    got, mp = H.load_chunk_batch_range(d, name, rng)
                    ctx.step()
                    want = {m["batch_idx"]: t[m["start_row"]:m["end_row"]] for m in info
                            if rng is None or rng[0] <= m["batch_idx"] < rng[1]}
                    if set(mp) != set(want) or \
                            got.shape != (sum(len(v) for v in want.values()), sum(dims)):
                        ctx.fail("range", f"{what} {rng}: {mp} {tuple(got.shape)}")
                        continue
                    for b, v in want.items():
                        if not same(got[mp[b][0]:mp[b][1]], v):
                            ctx.fail("range", f"{what} {rng} batch {b}")
            if ctx.failures:
                return


def manager(d, ch, cap=2048, pool=4):
    from dattri.algorithm.block_projected_if.offload.disk_io.manager import ChunkedDiskIOManager

    return ChunkedDiskIOManager(d, "t", num_threads=2, chunk_size=ch, max_samples_per_chunk=cap,
                                buffer_pool_size=pool, write_queue_size=2, num_write_workers=2)


DIMS = [2, 1, 3]


def layers(b, rows, kind, drop):
    """The per-layer tensors of batch b; layer b % 3 left out when drop is set."""
    full = [fill(rows, c, 5 * b + 2 * i + (7 if kind == "ifvp" else 0), torch.float32)
            for i, c in enumerate(DIMS)]
    give = list(full)
    if drop and b > 0:
        j = b % 3
        full[j] = torch.zeros_like(full[j])
        give[j] = torch.tensor([])
    return give, torch.cat(full, 1)


def check_handle(m, want, kind, ch, ctx, what, ranges=True):
    n = max(want) + 1
    get = m.retrieve_gradients if kind == "gradients" else m.retrieve_ifvp
    for b, v in want.items():
        for _ in range(2):
            got = get(b)
            ctx.step()
            if [tuple(g.shape) for g in got] != [(len(v), c) for c in DIMS] or \
                    not same(torch.cat(got, 1), v):
                ctx.fail("retrieve", f"{what} {kind} batch {b}: {got} want {v}")
                return
    rngs = [None]
    if ranges:
        rngs += [(s, e) for s in range(n) for e in range(s + 1, n + 1)
                 if n <= 5 or (s % ch == 0 and (e % ch == 0 or e == n))]
    for rng in rngs:
        for bs in (1, 2, 4):
            dl = m.create_gradient_dataloader(kind, batch_size=bs, pin_memory=False,
                                              batch_range=rng)
            order = []
            for tensor, mp in dl:
                ctx.step()
                rows = sum(e - s for s, e in mp.values())
                if rows != len(tensor):
                    ctx.fail("rows", f"{what} {rng} bs {bs}: {mp} {tuple(tensor.shape)}")
                for b, (s, e) in mp.items():
                    order.append(b)
                    if b not in want or not same(tensor[s:e], want[b]):
                        ctx.fail("iterate", f"{what} {kind} range {rng} bs {bs} batch {b}: "
                                            f"{tensor[s:e]} want {want.get(b)}")
            dl.dataset._stop_prefetch.set() if hasattr(dl.dataset, "_stop_prefetch") else None
            exp = [b for b in sorted(want) if rng is None or rng[0] <= b < rng[1]]
            if sorted(order) != exp:
                ctx.fail("iterate-set", f"{what} {kind} range {rng} bs {bs}: {order} not {exp}")
            if ctx.failures:
                return


def run_store(case, ctx):
    if case["kind"] == "store":
        order, size, cap = list(case["perm"]), lambda b: 1 + b % 2 + b // 3, 2048
    elif case["kind"] == "many":
        order, size, cap = list(range(case["n"])), lambda b: 1 + b % 2, 2048
    else:
        s = case["sizes"]
        order, size, cap = list(range(len(s))), lambda b: s[b], 4
    for drop in (False, True):
        with B.scratch() as d:
            m = manager(d, case["ch"], cap, case.get("pool", 4))
            wants = {}
            for kind, store in (("gradients", m.store_gradients), ("ifvp", m.store_ifvp)):
                m.start_batch_range(0, len(order))
                want = {}
                for b in order:
                    give, want[b] = layers(b, size(b), kind, drop and b != order[0])
                    store(b, give)
                    ctx.step()
                m.finalize_batch_range()
                m.wait_for_async_operations()
                wants[kind] = {b: want[b] for b in sorted(want)}
            for i, p in enumerate((torch.eye(2), torch.arange(6.0).reshape(2, 3))):
                m.store_preconditioner(i, p)
            m.wait_for_async_operations()
            ctx.execution()
            other = manager(d, case["ch"], cap)
            for h, nm in ((m, "same handle"), (other, "other handle")):
                for kind in ("gradients", "ifvp"):
                    check_handle(h, wants[kind], kind, case["ch"], ctx, f"{nm} drop={drop}",
                                 ranges=not drop and h is m)
                if not torch.equal(h.retrieve_preconditioner(1),
                                   torch.arange(6.0).reshape(2, 3)):
                    ctx.fail("precond", nm)
                if h.retrieve_preconditioner(2) is not None:
                    ctx.fail("precond-absent", nm)
            ctx.outcome([wants["gradients"][0], wants["ifvp"][0]])
            if ctx.failures:
                return


def run_find(ctx):
    H = _h()
    spans = [(0, 9), (100, 101), (10, 19), (2, 2), (20, 99), (102, 997), (998, 999),
             (1000, 1001), (99999, 100000)]
    for perm in itertools.permutations(spans, 3):
        with B.scratch() as d:
            for kind in ("ifvp", "gradients"):
                for a, b in perm if kind == "gradients" else perm[:2]:
                    H.write_chunk(d, kind, torch.ones(2, 1), [
                        {"batch_idx": b, "start_row": 0, "end_row": 1},
                        {"batch_idx": a, "start_row": 1, "end_row": 2}], [1])
            for junk in ("layer_0.pt", "chunk_gradients_5_5.mmap", "batch_metadata.json",
                         "chunk_gradients_7_7_metadata.json.tmp"):
                open(os.path.join(d, junk), "w").close()
            for kind, sel in (("gradients", perm), ("ifvp", perm[:2]), ("preconditioners", ())):
                got = H.find_chunk_files(d, kind)
                want = [f"chunk_{kind}_{a}_{b}" for a, b in sorted(sel)]
                ctx.execution()
                ctx.outcome(repr(got))
                if got != want:
                    ctx.fail("find", f"{got} want {want}")
    if H.find_chunk_files("/nonexistent-dir", "ifvp") != []:
        ctx.fail("find-missing-dir", "not empty")


def run(case, ctx):
    B.fast_polling()
    if case["kind"] == "file":
        run_file(case, ctx)
    elif case["kind"] == "find":
        run_find(ctx)
    else:
        run_store(case, ctx)
