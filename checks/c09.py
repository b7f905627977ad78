"""C09: device memory, host memory and disk backends give the same scores."""

from __future__ import annotations

import itertools
import json
import os
import subprocess
import sys

import torch

from mc import block as B

PID = "C09"
LEVEL = "exploration"
RULE = ("models and layer choices (unused and conditionally used layers, sequences, nested names) x Hessian kind and "
        "damping x compression family x every train batch size 1..n x every chunk size: the "
        "real attributor is run on the three backends and scores, repeated scores and "
        "self-attribution compared with the in-memory run; every finished disk cache is then "
        "reopened by a new attributor (for one case per family in a new process); chunk "
        "buffers are overflowed with more than 2048 samples per chunk and single batches "
        "above that; non-trivial = distinct score matrices")
ASSUMPTIONS = ["CPU float32 (device memory = CPU memory)", "polling sleeps shortened"]
CHUNK = 1

CHILD = """
import json, sys, torch
sys.path.insert(0, {verif!r})
from mc import block as B
case = json.loads(sys.argv[1])
t = B.task(case["kind"], [B.state(case["kind"], 3)], case["tgt"])
a, _, _ = B.make(case["fam"], t, case["names"], case["hes"], case["damp"], "disk",
                 sys.argv[2], case["chunk"], sp=case.get("sp"))
torch.save(a.compute_self_attribution(), sys.argv[3])
B.reap()
"""


def cases(tier):
    big = tier == "thorough"
    out = []
    for kind, names in (("mlp", None), ("mlp", ["fc2", "fc1"]), ("aux", None),
                        ("aux", ["aux", "fc1"]), ("seqnb", None), ("deep", ["head", "body.0"]),
                        ("mix", "fc2"), ("gate", None), ("gate", ["aux"])):
        for hes, damp in (("eFIM", 0.3), ("Identity", None), ("eFIM", None)):
            if hes == "eFIM" and damp is None and kind != "mlp":
                continue
            out.append(dict(fam="base", kind=kind, names=names, hes=hes, damp=damp))
    for fam, kind, seed, hes in itertools.product(("logra", "factgrass"), ("mlp", "deep"),
                                                  (0, 3), ("eFIM", "Identity")):
        out.append(dict(fam=fam, kind=kind, names=None, hes=hes, damp=0.3, sp={"seed": seed}))
    for i, c in enumerate(out):
        nm = c["names"] if isinstance(c["names"], str) else "+".join(c["names"] or ["all"])
        for n in ((4, 12) if not big else (3, 5, 12, 23)):
            if n == 12 and not big and i % 3:
                continue
            chunks = (1, 2, 3, 16) if not big else (1, 2, 3, 4, 5, 7, 12, 16)
            for bs in range(1, n + 1):
                if n == 12 and not big and bs not in (1, 5):
                    continue
                if n == 23 and bs not in (1, 2, 4, 11):
                    continue
                yield dict(c, n=n, bs=bs, chunks=chunks, tgt=bool((i + bs) % 2),
                           cont="dict" if (i + bs) % 3 == 0 else "list",
                           child=not big and n == 4 and bs == 3 and c["hes"] == "eFIM" and
                           i in (0, 9, 14, 18) or big and bs == 2,
                           id=f"{c['fam']}-{c['kind']}-{nm}-{c['hes']}-d{c['damp']}"
                              f"-s{(c.get('sp') or {}).get('seed', 0)}-n{n}-b{bs}")
    for n, bs, chunks in ((2400, 150, (16,)), (2500, 700, (2, 5)), (2049, 2048, (1, 4)),
                          (2100, 2100, (1,)), (4200, 2060, (2,)), (2300, 2, (2000,))):
        if n == 2300 and not big:
            continue
        yield dict(fam="base", kind="mlp", names=None, hes="eFIM", damp=0.3, n=n, bs=bs,
                   chunks=chunks, tgt=False, cont="list", child=False,
                   id=f"overflow-n{n}-b{bs}")


def run(case, ctx):
    B.fast_polling()
    kind, n, bs = case["kind"], case["n"], case["bs"]
    cks = [B.state(kind, 3)]
    tr, te = B.samples(kind, n, 0), B.samples(kind, 3, 1)
    ref = None

    def one(off, chunk, d):
        t = B.task(kind, cks, case["tgt"])
        a, _, _ = B.make(case["fam"], t, case["names"], case["hes"], case["damp"], off, d,
                         chunk, sp=case.get("sp"))
        a.cache(B.loader(*tr, bs, case["cont"]))
        first = a.attribute(B.loader(*tr, bs, case["cont"]), B.loader(*te, 2, case["cont"]))
        self_ = a.compute_self_attribution()
        again = a.attribute(B.loader(*tr, bs, case["cont"]), B.loader(*te, 3, case["cont"]))
        ctx.execution(3)
        return first, again, self_

    for off, chunk in [("none", 16), ("cpu", 16), *[("disk", c) for c in case["chunks"]]]:
        with B.scratch() as d:
            got = one(off, chunk, d)
            if ref is None:
                ref = got
                ctx.outcome([ref[0], ref[2]])
                ctx.close("repeat", ref[1], ref[0], what="second attribute call, memory")
                continue
            what = f"{off} chunk_size {chunk}"
            for k, i in (("scores", 0), ("repeat", 1), ("self", 2)):
                ctx.close(k, got[i], ref[i], what=f"{what} {k}")
            if off != "disk":
                continue
            ctx.count("disk_runs")
            t = B.task(kind, cks, case["tgt"])
            b, _, _ = B.make(case["fam"], t, case["names"], case["hes"], case["damp"], "disk",
                             d, chunk, sp=case.get("sp"))
            ctx.close("resume", b.compute_self_attribution(), ref[2],
                      what=f"{what}: self-attribution of a new attributor")
            ctx.execution()
            if case["child"]:
                out = os.path.join(d, "out.pt")
                verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
                r = subprocess.run(
                    [sys.executable, "-c", CHILD.format(verif=verif),
                     json.dumps(dict(case, chunk=chunk)), d, out],
                    capture_output=True, timeout=200)
                ctx.count("new_processes")
                ctx.execution()
                if r.returncode:
                    ctx.fail("process", r.stderr.decode()[-400:])
                else:
                    ctx.close("process", torch.load(out), ref[2],
                              what=f"{what}: self-attribution in a new process")
        if ctx.failures:
            return
