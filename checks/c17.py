"""C17: crash points while caching, damaged and missing files."""

from __future__ import annotations

import gc
import hashlib
import json
import os
import shutil
import sys
import tempfile

import torch

from mc import block as B
from mc import sched as S

PID = "C17"
LEVEL = "fault_enumeration"
RULE = ("the real caching code runs under the controlled scheduler; the cache directory is "
        "copied before and after every file operation (every crash point of the execution), "
        "for every schedule within the preemption bound, starting from an empty directory and "
        "from the finished cache of another data set; each distinct copy, and each copy with "
        "the file touched last cut to 0 / half / all but one byte, is given to new readers; in "
        "addition every file of a finished cache is removed or cut, alone and in pairs. A "
        "reader must raise, report the batch as absent or give the values of an undamaged run")
ASSUMPTIONS = ["process crash: what was written to a file before stays (no power loss)",
               "CPU; two writer threads below the attributor level"]
CHUNK = 1

# (samples, batch size, seed): the data set, and the one cached before it
A = (3, 1, 0)
OTHERS = [None, (2, 1, 3), (4, 1, 5), (3, 1, 7), (5, 2, 8)]
Bset = OTHERS[1]
# metadata: samples, batch size, layer widths
METAS = [None, (3, 2, (2,)), (5, 2, (2, 3)), (12, 1, None), (1, 4, (7, 1))]


def cases(tier):
    big = tier == "thorough"
    for ch, n in ((1, 2), (2, 3)):
        for i in range(4):
            yield dict(kind="handle", chunk=ch, n=n, bound=2 if big else 1, part=i, parts=4,
                       id=f"handle-c{ch}-p{i}")
    for hes in ("eFIM", "Identity"):
        for stale in range(len(OTHERS)):
            parts = 8 if big else 1
            for i in range(parts):
                yield dict(kind="attr", hes=hes, stale=stale, chunk=1 if hes == "eFIM" else 2,
                           bound=1 if big else 0, part=i, parts=parts,
                           id=f"attr-{hes}-stale{stale}-p{i}")
    for hes, ch in (("eFIM", 1), ("eFIM", 2), ("Identity", 1)):
        for op in ("gone", "zero", "half", "less1", "swap", "pair"):
            yield dict(kind="damage", hes=hes, chunk=ch, op=op, id=f"damage-{hes}-c{ch}-{op}")
    for i, old in enumerate(METAS):
        for j, new in enumerate(METAS[1:]):
            yield dict(kind="meta", old=old, new=new, chunk=1, id=f"meta-{i}-{j + 1}")


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def put(d, files):
    for k, v in files.items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(v)


def sig(files):
    h = hashlib.sha1()
    for k in sorted(files):
        v = files[k]
        if k.endswith("batch_metadata.json"):
            try:
                j = json.loads(v)
                j.pop("timestamp", None)
                v = json.dumps(j, sort_keys=True).encode()
            except ValueError:
                pass
        h.update(k.encode() + b"\0" + v + b"\1")
    return h.hexdigest()[:16]


class Snap:
    """Copies of the directory before and after every file operation."""

    def __init__(self, d):
        self.d, self.seen = d, {}

    def __call__(self, kind, path):
        if kind != "read":
            self.take(None)

    def after(self, kind, path):
        if kind != "read":
            self.take(path)

    def take(self, path):
        files = tree(self.d)
        self.seen.setdefault(sig(files), files)
        rel = os.path.relpath(path, self.d) if path and path.startswith(self.d) else None
        if rel is None and files:
            rel = max(files, key=lambda k: os.stat(os.path.join(self.d, k)).st_mtime_ns)
        if rel in files:
            for cut in cuts(files[rel]):
                f2 = dict(files)
                f2[rel] = cut
                self.seen.setdefault(sig(f2), f2)


def cuts(v):
    return {v[:0], v[:len(v) // 2], v[:-1]} - {v} if v else set()


# ---- readers --------------------------------------------------------------
def task():
    return B.task("nb", [B.state("nb", 3)])


def attr(d, hes, chunk, names=("fc2",)):
    return B.make("base", task(), list(names), hes, 0.3, "disk", d, chunk)[0]


_REF = {}


def ref(ds, hes):
    if (ds, hes) not in _REF:
        n, _, seed = ds
        tr, te = B.samples("nb", n, seed), B.samples("nb", 2, 1)
        ck = B.state("nb", 3)
        _REF[ds, hes] = (B.scores("nb", ck, ["fc2"], tr, tr, hessian=hes).diagonal(),
                         B.scores("nb", ck, ["fc2"], tr, te, hessian=hes))
    return _REF[ds, hes]


def near(got, want):
    return got.shape == want.shape and \
        bool((got.double() - want).abs().max() <= 1e-6 + 1e-3 * want.abs().max())


def read_attr(files, hes, chunk, allowed, ctx, what, key):
    """All documented ways to use an existing cache directory."""
    def ops():
        yield "self", lambda a: a.compute_self_attribution()
        yield "ifvp+self", lambda a: (a.compute_ifvp(), a.compute_self_attribution())[1]
        if hes == "eFIM":
            yield "precond+ifvp+self", lambda a: (
                a.compute_preconditioners(), a.compute_ifvp(), a.compute_self_attribution())[2]

    for name, op in ops():
        with B.scratch() as d:
            put(d, files)
            ctx.execution()
            ctx.step()
            try:
                got = op(attr(d, hes, chunk))
            except Exception as e:  # noqa: BLE001
                ctx.outcome(f"{name} refused {type(e).__name__}")
                ctx.count("refused")
                continue
            ok = [ds for ds in allowed if near(got, ref(ds, hes)[0])]
            if not ok:
                ctx.fail(key, f"{what}: {name} of a new attributor returned {got.tolist()}, "
                              f"undamaged: {[ref(x, hes)[0].tolist() for x in allowed]}; "
                              f"files {sorted((k, len(v)) for k, v in files.items())}")
                return
            ctx.count("recovered")
            ctx.outcome(f"{name} equals {ok}")
    with B.scratch() as d:          # caching again on the remains is always right
        put(d, files)
        n, bs, seed = A
        got = attr(d, hes, chunk).attribute(
            B.loader(*B.samples("nb", n, seed), bs), B.loader(*B.samples("nb", 2, 1), 2))
        ctx.execution()
        if not near(got, ref(A, hes)[1]):
            ctx.fail(key + "-recache", f"{what}: caching again gave {got.tolist()}")


def read_handle(files, n, chunk, ctx, what, key):
    from checks.c16 import DIMS, parts_of, value
    from dattri.algorithm.block_projected_if.offload.disk_io.manager import ChunkedDiskIOManager

    with B.scratch() as d:
        put(d, files)
        ctx.execution()
        for b in range(n):
            m = ChunkedDiskIOManager(d, "t", num_threads=1, chunk_size=chunk,
                                     max_samples_per_chunk=64, num_write_workers=1)
            ctx.step()
            try:
                got = m.retrieve_gradients(b)
            except Exception as e:  # noqa: BLE001
                ctx.outcome(f"refused {type(e).__name__}")
                ctx.count("refused")
                continue
            want = parts_of(value("gradients", b, 2))
            if len(got) == len(DIMS) and all(torch.equal(g, w) for g, w in zip(got, want)):
                ctx.count("recovered")
                ctx.outcome(f"batch {b} exact")
            elif all(g.numel() == 0 for g in got):
                ctx.count("absent")
                ctx.outcome("absent")
            else:
                ctx.fail(key, f"{what}: batch {b} read back as {[g.tolist() for g in got]}")
                return
        m = ChunkedDiskIOManager(d, "t", num_threads=1, chunk_size=chunk,
                                 max_samples_per_chunk=64, num_write_workers=1)
        try:
            dl = m.create_gradient_dataloader("gradients", batch_size=2, pin_memory=False)
            for t, mp in dl:
                for b, (s, e) in mp.items():
                    if not torch.equal(t[s:e], value("gradients", b, 2)):
                        ctx.fail(key, f"{what}: batch {b} iterated as {t[s:e].tolist()}")
        except Exception as e:  # noqa: BLE001
            ctx.outcome(f"iteration refused {type(e).__name__}")
            ctx.count("refused")


def finished(ds, hes, chunk):
    """The files of a finished cache of data set ds."""
    n, bs, seed = ds
    with B.scratch() as d:
        a = attr(d, hes, chunk)
        a.cache(B.loader(*B.samples("nb", n, seed), bs))
        if hes == "Identity":
            a.compute_ifvp()
        return tree(d)


def run(case, ctx):
    B.fast_polling()
    if case["kind"] == "damage":
        return damage(case, ctx)
    if case["kind"] == "meta":
        return meta(case, ctx)
    key = case["kind"]
    hes, chunk = case.get("hes"), case["chunk"]
    if key == "attr":
        old = OTHERS[case["stale"]]
        allowed = [A] + ([old] if old else [])
        start = finished(old, hes, chunk) if old else {}
        n, bs, seed = A
        data = B.samples("nb", n, seed)
        finished(A, hes, chunk)   # lazy imports
    else:
        from checks.c16 import manager, parts_of, value
        n, start = case["n"], {}
    done = {}
    gc.collect()
    gc.freeze()

    def make_body():
        d = tempfile.mkdtemp(dir=os.getcwd())
        put(d, start)
        snap = Snap(d)

        def body():
            if key == "attr":
                a = attr(d, hes, chunk)
                a.cache(B.loader(*data, bs))
                if hes == "Identity":
                    a.compute_ifvp()
            else:
                m = manager(d, (n, 2, None, chunk, 64, 4, 4))
                m.start_batch_range(0, n)
                for b in range(n):
                    m.store_gradients(b, parts_of(value("gradients", b, 2)))
                m.finalize_batch_range()
            snap.take(None)

        def judge(res, s, dec):
            ctx.execution()
            ctx.step(s.steps)
            if isinstance(res, (RuntimeError, S.Blocked)) or res.exc is not None:
                ctx.fail(key + "-run", f"{dec}: {res if not hasattr(res, 'exc') else res.exc}")
            for k, v in snap.seen.items():
                done.setdefault(k, (v, list(dec)))
            s.threads.clear()
            gc.collect()
            shutil.rmtree(d, ignore_errors=True)
            return not ctx.failures

        return body, snap, judge

    S.explore(make_body, case["bound"], case["part"], case["parts"])
    for k, (files, dec) in done.items():
        ctx.state(f"{case['kind']}-{case.get('hes')}-{chunk}:{k}")
        what = f"crash image {k} (decisions {dec})"
        if key == "attr":
            read_attr(files, hes, chunk, allowed, ctx, what, "crash")
        else:
            read_handle(files, n, chunk, ctx, what, "crash")
        if ctx.failures:
            return
    ctx.count("crash_images", len(done))


def damage(case, ctx):
    hes, chunk, op = case["hes"], case["chunk"], case["op"]
    full = finished(A, hes, chunk)
    names = sorted(full)

    def variants():
        for f in names:
            v = full[f]
            if op == "gone":
                yield f, {k: x for k, x in full.items() if k != f}
            elif op in ("zero", "half", "less1"):
                yield f, {**full, f: {"zero": b"", "half": v[:len(v) // 2],
                                      "less1": v[:-1]}[op]}
        if op == "pair":
            # a chunk pair of one batch lost together, or one subdirectory
            stems = {f.replace("_metadata.json", "").replace(".mmap", "") for f in names
                     if "chunk_" in f}
            for s in sorted(stems):
                yield s, {k: x for k, x in full.items() if not k.startswith(s)}
            for sub in ("grad", "ifvp", "precond"):
                yield sub, {k: x for k, x in full.items() if not k.startswith(sub)}
            grads = [s for s in sorted(stems) if "ifvp" not in s]
            for s in grads:
                o = s.replace("grad/chunk_gradients", "ifvp/chunk_ifvp")
                yield s + "+ifvp", {k: x for k, x in full.items()
                                    if not k.startswith(s) and not k.startswith(o)}
        elif op == "swap":
            # the finished cache of a smaller data set under the metadata of this one
            other = finished(Bset, hes, chunk)
            yield "metadata", {**other, "batch_metadata.json": full["batch_metadata.json"]}

    for name, files in variants():
        ctx.state(sig(files))
        read_attr(files, hes, chunk, [A], ctx, f"{op} {name}", f"damage:{name}")
    ctx.count("damaged_images")


def meta(case, ctx):
    """Saving metadata over older metadata, stopped at any line: the old or the new one."""
    from dattri.algorithm.block_projected_if.core.metadata import MetadataManager

    def view(m):
        return (m.get_batch_to_sample_mapping(), m.get_total_samples(), m.get_total_batches(),
                m.layer_dims)

    def save(m, spec):
        n, bs, dims = spec
        m.initialize_complete_dataset(B.loader(*B.samples("nb", n, 0), bs))
        if dims:
            m.set_layer_dims(list(dims))
            m.save_metadata()

    def fresh(d):
        return view(MetadataManager(d, ["a", "b"]))

    old, new = case["old"], case["new"]
    images = {}
    with B.scratch() as d:
        allowed = [fresh(d)]
        m = MetadataManager(d, ["a", "b"])
        if old:
            save(m, old)
            allowed.append(fresh(d))
            m = MetadataManager(d, ["a", "b"])
        floor = len(allowed) - 1
        n, bs, dims = new
        last = [None]

        def take():
            sizes = {}
            for r, _, fs in os.walk(d):
                for f in fs:
                    st = os.stat(os.path.join(r, f))
                    sizes[os.path.relpath(os.path.join(r, f), d)] = (st.st_size, st.st_mtime_ns,
                                                                     st.st_ino)
            if sizes == last[0]:
                return
            files = tree(d)
            images.setdefault(sig(files), files)
            for k in sizes:
                if last[0] is not None and sizes[k] != last[0].get(k) and \
                        (k not in last[0] or sizes[k][2] == last[0][k][2]) and \
                        all(sizes[k][2] != v[2] for kk, v in last[0].items() if kk != k):
                    for cut in cuts(files[k]):      # written where it lies, not moved there
                        f2 = {**files, k: cut}
                        images.setdefault(sig(f2), f2)
            last[0] = sizes

        def trace(frame, event, arg):
            take()
            return trace

        take()
        sys.settrace(trace)
        try:
            save(m, new)
        finally:
            sys.settrace(None)
        take()
        done = fresh(d)
    with B.scratch() as d:
        save(MetadataManager(d, ["a", "b"]), (n, bs, None))
        allowed.append(fresh(d))
    with B.scratch() as d:
        save(MetadataManager(d, ["a", "b"]), new)
        allowed.append(fresh(d))
    ctx.execution()
    if done != allowed[-1]:
        ctx.fail("meta-final", f"saved {done}, alone {allowed[-1]}")
    for k, files in images.items():
        ctx.state(k)
        ctx.step()
        with B.scratch() as d:
            put(d, files)
            got = fresh(d)
        ctx.outcome(got)
        if got not in allowed[floor:]:
            ctx.fail("meta", f"crash image {k} {[(f, v[:60]) for f, v in files.items()]} reads as "
                             f"{got}; before {allowed[floor]}, after {allowed[-1]}")
            return
    ctx.count("crash_images", len(images))
