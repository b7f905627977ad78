"""C10: histories of cache and attribute calls, attributors sharing a cache directory."""

from __future__ import annotations

import itertools

from mc import block as B

PID = "C10"
LEVEL = "model_checking"
CHUNK = 1
RECYCLE = 6      # the storage code leaves threads behind
RULE = ("every operation sequence up to the depth bound over {cache A/B/C, attribute with "
        "train loader A/B (alternating test sets), self-attribution, drop the last batch set "
        "by starting a new attributor on the same cache directory, the same with another "
        "layer choice} on each backend and Hessian kind, executed on the real attributor and "
        "compared after every operation with the reference state (last cached set, layers); "
        "data sets differ in size, batch size and number of chunks")
ASSUMPTIONS = ["tiny model, CPU", "self-attribution of a new attributor without a finished "
               "cache on disk may only raise"]

# P and Q: as many samples in as many batches, but other batches
OPS2 = ["cP", "cQ", "aP", "aQ", "S", "N"]
OPS = ["cA", "cB", "cC", "aA", "aB", "S", "N", "M"]
SETS = {"A": (5, 2, 0), "B": (3, 3, 3), "C": (4, 1, 5), "P": (5, 4, 2),
        "Q": (5, 3, 6)}
NAMES = {"N": None, "M": ["fc2"]}


def useful(seq, off):
    if seq[-1][0] not in "aS":
        return False
    for a, b in zip(seq, seq[1:]):
        if a in NAMES and b in NAMES or a == b == "S":
            return False
        if a[0] == b[0] == "c" and a == b:
            return False
    return seq[0] != "N"


def cases(tier):
    big = tier == "thorough"
    depth = {"none": 4, "cpu": 3, "disk": 4} if not big else {"none": 5, "cpu": 4, "disk": 5}
    for off, hes, ch in (("disk", "eFIM", 2), ("none", "eFIM", 2), ("cpu", "eFIM", 2),
                         ("disk", "Identity", 1), ("none", "Identity", 2), ("cpu", "Identity", 2)):
        dp = depth[off] - (1 if hes == "Identity" and not big and off != "cpu" else 0)
        for k in range(1, dp + 1):
            seqs = [s for s in itertools.product(OPS, repeat=k) if useful(s, off)]
            # a proper prefix ending in an observation is checked by its extensions
            if k < dp:
                continue
            group = 24
            for i in range(0, len(seqs), group):
                yield dict(off=off, hes=hes, chunk=ch, depth=k,
                           seqs=["-".join(s) for s in seqs[i:i + group]],
                           id=f"{off}-{hes}-k{k}-{i // group}")
        dp = 3 if not big else 4
        seqs = [s for s in itertools.product(OPS2, repeat=dp) if useful(s, off)]
        for i in range(0, len(seqs), 24):
            yield dict(off=off, hes=hes, chunk=1, depth=dp,
                       seqs=["-".join(s) for s in seqs[i:i + 24]],
                       id=f"{off}-{hes}-equal-k{dp}-{i // 24}")


_REF = {}


def data(name):
    n, bs, seed = SETS[name]
    return B.samples("mlp", n, seed), bs


def ref(x, te, names, hes, cks):
    """Scores of set x; te is a test set index or 'self'."""
    key = (x, te, str(names), hes)
    if key not in _REF:
        tr, _ = data(x)
        if te == "self":
            s = B.scores("mlp", cks[0], names or B.LINEARS["mlp"], tr, tr, False, hes)
            _REF[key] = s.diagonal()
        else:
            _REF[key] = B.scores("mlp", cks[0], names or B.LINEARS["mlp"], tr,
                                 B.samples("mlp", 2 + te, 7 + te), True, hes)
    return _REF[key]


def run_seq(seq, case, ctx, cks):
    off, hes = case["off"], case["hes"]
    t = B.task("mlp", cks, True)
    with B.scratch() as d:
        def new(names):
            return B.make("base", t, names, hes, 0.3, off, d, case["chunk"])[0]

        names, a = None, new(None)
        explicit = implicit = None     # what this attributor has cached
        disk = None                    # (set, names) of the finished cache on disk
        ctx.state(("init", off, hes).__repr__())
        for pos, op in enumerate(seq):
            ctx.step()
            what = f"{'-'.join(seq[:pos + 1])}"
            key = f"{'-'.join(seq)}"
            if op in NAMES:
                names = NAMES[op]
                a = new(names)
                explicit = implicit = None
            elif op[0] == "c":
                (x, y), bs = data(op[1])
                a.cache(B.loader(x, y, bs))
                explicit, implicit = op[1], None
                disk = (op[1], str(names))
            elif op[0] == "a":
                (x, y), bs = data(op[1])
                te = pos % 2
                tx, ty = B.samples("mlp", 2 + te, 7 + te)
                got = a.attribute(B.loader(x, y, bs), B.loader(tx, ty, 2))
                if explicit is None:
                    implicit = op[1]
                    disk = (op[1], str(names))
                ctx.outcome(got)
                if not ctx.close(key, got, ref(explicit or implicit, te, names, hes, cks),
                                 rtol=1e-3, what=what):
                    return
            else:
                have = explicit or implicit
                if have is None and off == "disk" and disk is not None:
                    if disk[1] != str(names):
                        continue            # other layers than the stored ones
                    have = disk[0]
                try:
                    got = a.compute_self_attribution()
                except Exception as e:  # noqa: BLE001
                    if have is not None:
                        ctx.fail(key, f"{what}: {type(e).__name__} {e}")
                        return
                    ctx.count("refused_self")
                    continue
                if have is None:
                    if got.numel():
                        ctx.fail(key, f"{what}: self scores without a cached set")
                        return
                    continue
                ctx.outcome(got)
                if not ctx.close(key, got, ref(have, "self", names, hes, cks), rtol=1e-3,
                                 what=what):
                    return
            ctx.state(repr((off, hes, explicit, implicit, disk, str(names))))


def run(case, ctx):
    B.fast_polling()
    cks = [B.state("mlp", 3)]
    for s in case["seqs"]:
        run_seq(s.split("-"), case, ctx, cks)
        ctx.execution()
