"""C16: the asynchronous disk storage under every schedule (bounded preemptions)."""

from __future__ import annotations

import gc
import itertools
import os
import shutil
import tempfile

import torch

from mc import block as B
from mc import sched as S

PID = "C16"
LEVEL = "model_checking"
RULE = ("the real ChunkedDiskIOManager, its writer threads, its executor and the prefetching "
        "readers run under a controlled scheduler; for each history of store / finalise / "
        "read / clear / reopen (and one whole attributor run) every schedule with the stated "
        "number of preemptions is executed, without faults and with a failure injected at "
        "every write operation; states = distinct (history, schedule) executions, transitions "
        "= scheduling points executed")
ASSUMPTIONS = ["interleavings at operations on locks, queues, events, threads, sleeps, futures "
               "and files (the code between two such operations is atomic)",
               "time-outs expire only when nothing else can run; sleeps may also end early",
               "two writer threads (four through the attributor); idle writers waiting on the "
               "same queue are interchangeable"]
CHUNK = 1
DIMS = [2, 1]

# name -> (number of batches, rows of batch b, order, chunk size, buffer rows, queue size, pool)
SHAPES = {
    "one": (1, 1, [0], 1, 64, 4, 4),
    "two": (2, 2, [0, 1], 1, 64, 4, 4),
    "chunk2": (3, 1, [0, 1, 2], 2, 64, 4, 4),
    "rev": (3, 1, [2, 1, 0], 2, 64, 4, 4),
    "mixed": (4, 1, [2, 0, 3, 1], 2, 64, 4, 4),
    "queue1": (3, 1, [0, 1, 2], 1, 64, 1, 1),
    "overflow": (4, 2, [0, 1, 2, 3], 4, 4, 4, 4),
    "big": (2, 5, [0, 1], 2, 4, 4, 4),
    "reuse": (19, 1, list(range(19)), 2, 4, 32, 4),    # more chunks than pooled buffers
    "reuse1": (12, 1, list(range(12)), 1, 2, 2, 4),
    "six": (6, 1, [5, 1, 3, 0, 2, 4], 1, 4, 8, 4),     # more chunks than the read cache holds
}


def value(kind, b, rows, gen=0):
    base = {"gradients": 1.0, "ifvp": 100.0}[kind] + 10 * b + 1000 * gen
    return base + torch.arange(rows * sum(DIMS), dtype=torch.float32).reshape(rows, -1)


def parts_of(t):
    return list(torch.split(t, DIMS, 1))


def manager(d, sh):
    from dattri.algorithm.block_projected_if.offload.disk_io.manager import ChunkedDiskIOManager

    _, _, _, ch, cap, qs, pool = sh
    return ChunkedDiskIOManager(d, "t", num_threads=2, chunk_size=ch, max_samples_per_chunk=cap,
                                buffer_pool_size=pool, write_queue_size=qs, num_write_workers=2)


def store(m, sh, kind, gen=0):
    n, rows, order = sh[:3]
    m.start_batch_range(0, n)
    for b in order:
        (m.store_gradients if kind == "gradients" else m.store_ifvp)(
            b, parts_of(value(kind, b, rows, gen)))
    m.finalize_batch_range()


def check_read(m, sh, kind, gen=0, what=""):
    n, rows = sh[:2]
    get = m.retrieve_gradients if kind == "gradients" else m.retrieve_ifvp
    for b in range(n):
        got = get(b)
        want = parts_of(value(kind, b, rows, gen))
        if [tuple(g.shape) for g in got] != [tuple(w.shape) for w in want] or \
                any(not torch.equal(g, w) for g, w in zip(got, want)):
            return f"{what}{kind} batch {b} read back as {[g.tolist() for g in got]}"
    return None


def check_iter(dl, n, rows, kind, gen=0, what="", each=None):
    seen = []
    for tensor, mp in dl:
        for b, (s, e) in mp.items():
            seen.append(b)
            if not torch.equal(tensor[s:e], value(kind, b, rows, gen)):
                return f"{what}{kind} batch {b} iterated as {tensor[s:e].tolist()}"
        if each is not None:
            each(mp)
    if sorted(seen) != list(range(n)):
        return f"{what}{kind} iteration gave batches {seen}"
    return None


def loader(m, kind, bs=1):
    return m.create_gradient_dataloader(kind, batch_size=bs, pin_memory=False)


def h_store(d, sh):
    m = manager(d, sh)
    store(m, sh, "gradients")
    return check_read(m, sh, "gradients") or check_read(manager(d, sh), sh, "gradients",
                                                        what="other handle: ")


def h_iter(d, sh):
    m = manager(d, sh)
    store(m, sh, "gradients")
    n, rows = sh[:2]
    return check_iter(loader(m, "gradients", 2), n, rows, "gradients") or \
        check_iter(loader(m, "gradients"), n, rows, "gradients", what="second loader: ")


def h_ifvp(d, sh):
    """Read gradients while storing the ifvp (what compute_ifvp does)."""
    m = manager(d, sh)
    n, rows = sh[:2]
    store(m, sh, "gradients")
    m.start_batch_range(0, n)

    def put(mp):
        for b in mp:
            m.store_ifvp(b, parts_of(value("ifvp", b, rows)))

    bad = check_iter(loader(m, "gradients"), n, rows, "gradients", each=put)
    m.finalize_batch_range()
    m.wait_for_async_operations()
    return bad or check_read(m, sh, "ifvp") or \
        check_iter(loader(m, "ifvp"), n, rows, "ifvp", what="then ")


def h_zip(d, sh):
    """Two prefetching readers at once, and direct reads in between."""
    m = manager(d, sh)
    n, rows = sh[:2]
    store(m, sh, "gradients")
    store(m, sh, "ifvp")
    seen = []
    for (a, am), (b, bm) in zip(loader(m, "gradients"), loader(m, "ifvp")):
        if am != bm:
            return f"mappings {am} {bm}"
        for i, (s, e) in am.items():
            seen.append(i)
            if not torch.equal(a[s:e], value("gradients", i, rows)) or \
                    not torch.equal(b[s:e], value("ifvp", i, rows)):
                return f"batch {i} mixed: {a[s:e].tolist()} {b[s:e].tolist()}"
    if sorted(seen) != list(range(n)):
        return f"zip gave batches {seen}"
    return check_read(m, sh, "gradients", what="afterwards ")


def h_both(d, sh):
    """Both kinds stored batch by batch in turn, then read in turn, twice, and rewritten."""
    m = manager(d, sh)
    n, rows, order = sh[:3]
    for gen in (0, 1):
        m.start_batch_range(0, n)
        for b in order:
            m.store_gradients(b, parts_of(value("gradients", b, rows)))
            m.store_ifvp(b, parts_of(value("ifvp", b, rows)))
        m.finalize_batch_range()
        m.wait_for_async_operations()
        for h in (m, m, manager(d, sh)):
            for b in list(range(n)) + order:
                for kind in ("gradients", "ifvp"):
                    get = h.retrieve_gradients if kind == "gradients" else h.retrieve_ifvp
                    if not torch.equal(torch.cat(get(b), 1), value(kind, b, rows)):
                        return f"pass {gen}: {kind} batch {b} read back as {get(b)}"
    return None


def h_precond(d, sh):
    m = manager(d, sh)
    store(m, sh, "gradients")
    ps = [torch.eye(2) * (i + 1) for i in range(2)]
    for i, p in enumerate(ps):
        m.store_preconditioner(i, p)
    m.wait_for_async_operations()
    for h in (m, manager(d, sh)):
        for i, p in enumerate(ps):
            got = h.retrieve_preconditioner(i)
            if got is None or not torch.equal(got, p):
                return f"preconditioner {i} read back as {got}"
    return None


def h_clear(d, sh):
    """Store, clear, store other values under the same batch numbers, read."""
    from dattri.algorithm.block_projected_if.offload.disk import DiskOffloadManager

    n, rows, order, ch = sh[:4]
    m = DiskOffloadManager("cpu", ["a", "b"], d, ch)
    for gen in (0, 1):
        m.clear_cache()
        m.start_batch_range_processing(0, n)
        for b in order:
            m.store_gradients(b, parts_of(value("gradients", b, rows, gen)))
        m.finish_batch_range_processing()
        for b in range(n):
            got = m.retrieve_gradients(b)
            if not torch.equal(torch.cat(got, 1), value("gradients", b, rows, gen)):
                return f"generation {gen} batch {b} read back as {[g.tolist() for g in got]}"
    m.wait_for_async_operations()
    return None


def h_attr(d, sh):
    n = sh[0]
    t = B.task("nb", [B.state("nb", 3)])
    tr, te = B.samples("nb", n, 0), B.samples("nb", 2, 1)
    a, _, _ = B.make("base", t, ["fc2"], "eFIM", 0.3, "disk", d, sh[3])
    a.cache(B.loader(*tr, 1))
    got = a.attribute(B.loader(*tr, 1), B.loader(*te, 2))
    self_ = a.compute_self_attribution()
    ref, sref = _attr_ref(n)
    if got.shape != ref.shape or (got - ref).abs().max() > 1e-3 * ref.abs().max():
        return f"scores {got.tolist()} expected {ref.tolist()}"
    if (self_ - sref).abs().max() > 1e-3 * sref.abs().max():
        return f"self scores {self_.tolist()} expected {sref.tolist()}"
    return None


_REF = {}


def _attr_ref(n):
    if n not in _REF:
        tr, te = B.samples("nb", n, 0), B.samples("nb", 2, 1)
        ck = B.state("nb", 3)
        _REF[n] = (B.scores("nb", ck, ["fc2"], tr, te).float(),
                   B.scores("nb", ck, ["fc2"], tr, tr).diagonal().float())
    return _REF[n]


HIST = {"store": h_store, "iter": h_iter, "ifvp": h_ifvp, "zip": h_zip, "both": h_both, "precond": h_precond,
        "clear": h_clear, "attr": h_attr}

# history, shape, preemption bound (quick, thorough), parts
PLAN = [
    ("store", "one", 2, 3, 8), ("store", "two", 1, 2, 4), ("store", "chunk2", 1, 2, 4),
    ("store", "rev", 1, 2, 4), ("store", "mixed", 1, 2, 4), ("store", "queue1", 1, 2, 4),
    ("store", "overflow", 1, 2, 4), ("store", "big", 1, 2, 4),
    ("store", "reuse", 0, 1, 8), ("store", "reuse1", 0, 1, 8), ("ifvp", "reuse", 0, 1, 8),
    ("both", "one", 1, 2, 8), ("both", "two", 0, 1, 8), ("both", "six", 0, 1, 8),
    ("iter", "one", 1, 2, 8), ("iter", "two", 1, 2, 8), ("iter", "chunk2", 1, 2, 8),
    ("iter", "overflow", 1, 2, 8),
    ("ifvp", "one", 1, 2, 8), ("ifvp", "two", 1, 2, 8), ("ifvp", "chunk2", 1, 2, 8),
    ("zip", "one", 1, 2, 8), ("zip", "two", 1, 2, 8),
    ("precond", "one", 1, 2, 4), ("clear", "one", 1, 2, 8), ("clear", "chunk2", 1, 1, 8),
    ("attr", "one", 0, 1, 8), ("attr", "two", 0, 1, 8),
]
FAULTS = [("store", "one", 1, 2), ("store", "chunk2", 0, 1), ("store", "queue1", 0, 1),
          ("ifvp", "one", 0, 1), ("precond", "one", 0, 1), ("clear", "one", 0, 1)]
MAXW = 14


def cases(tier):
    big = tier == "thorough"
    for h, sh, q, t, parts in PLAN:
        p = (parts * 4 if big and t > 1 else parts) if (t if big else q) else 1
        for i in range(p):
            yield dict(hist=h, shape=sh, bound=t if big else q, part=i, parts=p, fault=None,
                       id=f"{h}-{sh}-p{i}of{p}")
    for (h, sh, q, t), w in itertools.product(FAULTS, range(MAXW)):
        yield dict(hist=h, shape=sh, bound=t if big else q, part=0, parts=1, fault=w,
                   id=f"fault{w}-{h}-{sh}")


def run(case, ctx):
    sh, hist, at = SHAPES[case["shape"]], HIST[case["hist"]], case["fault"]
    with B.scratch() as d:      # one free-running execution: lazy imports
        B.fast_polling()
        hist(d, sh)
    gc.collect()
    gc.freeze()

    def make_body():
        d = tempfile.mkdtemp(dir=os.getcwd())
        box = {}

        def body():
            box["bad"] = hist(d, sh)

        writes = {"n": 0}

        def fault(kind, path):
            if at is None or kind != "write" or not path.startswith(d):
                return
            if "metadata.json" in path and "chunk_" not in path:
                return
            k = writes["n"]
            writes["n"] += 1
            if k == at:
                box["hit"] = path
                raise OSError(28, "No space left on device (injected)")

        def judge(res, s, dec):
            stop = False
            ctx.execution()
            ctx.step(s.steps)
            ctx.state(f"{case['id']}:{dec}")
            key = "fault" if at is not None else "schedule"
            where = f"{case['hist']}/{case['shape']} decisions {dec}"
            if isinstance(res, RuntimeError):
                raise res
            if isinstance(res, S.Blocked):
                ctx.fail(key + "-blocked", f"{where}: {res}"
                         + (f" after the write of {os.path.basename(box['hit'])} failed"
                            if "hit" in box else ""))
            elif res.exc is not None:
                ctx.outcome(type(res.exc).__name__)
                if "hit" not in box:
                    ctx.fail(key + "-exception", f"{where}: {type(res.exc).__name__} {res.exc}")
                else:
                    ctx.count("failures_reported")
            else:
                ctx.outcome(repr(box.get("bad")))
                if "hit" in box:
                    ctx.fail("fault-silent", f"{where}: the write of "
                                             f"{os.path.basename(box['hit'])} failed silently")
                elif box.get("bad"):
                    ctx.fail(key + "-data", f"{where}: {box['bad']}")
                if at is not None and "hit" not in box:
                    ctx.count("histories_with_every_write_failed", int(not dec))
                    stop = True
            s.threads.clear()
            gc.collect()
            shutil.rmtree(d, ignore_errors=True)
            return not ctx.failures and not stop

        return body, fault, judge

    S.explore(make_body, case["bound"], case["part"], case["parts"])

