"""C08: LoGra / FactGraSS / block-projected influence equals the layer-wise dense formula."""

from __future__ import annotations

import itertools

from mc import block as B

PID = "C08"
LEVEL = "exploration"
RULE = ("models (biases, sequences, nested names, unused and conditionally used layers) x layer choices and orders x "
        "identity / random compression types and seeds x Hessian kind and damping x separate "
        "target or not x container x every pair of train and test batch sizes, compared with "
        "per-sample autograd gradients and a dense damped Fisher; checkpoint other than the "
        "first loaded before the calls; non-trivial = distinct score matrices")
ASSUMPTIONS = ["Linear layers called once per forward, mean-reduced loss",
               "projection matrices obtained by probing dattri's own random_project with the "
               "documented per-layer seeds (C14 checks those maps)", "CPU float32"]


def cases(tier):
    big = tier == "thorough"
    n, m = (7, 4) if big else (6, 3)
    out = []
    for kind in B.MODELS:
        lin = B.LINEARS[kind]
        orders = [None, *map(list, itertools.chain.from_iterable(
            itertools.permutations(lin, r) for r in range(1, len(lin) + 1)))]
        for o in orders + [lin[0], lin[-1]]:
            out.append(dict(fam="base", kind=kind, names=o, full=o is None or len(o) == len(lin)))
    full = []
    for c, hes, tgt in itertools.product(out, ("eFIM", "Identity"), (False, True)):
        if not big and not c["full"] and (hes == "Identity") != tgt:
            continue
        full.append(dict(c, hes=hes, damp=0.3, tgt=tgt))
    for fam, seed, kind, hes, damp, tgt in itertools.product(
            ("logra", "factgrass"), (0, 5), ("mlp", "mix", "seq", "deep"),
            ("eFIM", "Identity"), (None, 0.3), (False, True)):
        if hes == "Identity" and damp is None or damp is None and kind != "mlp":
            continue
        if not big and tgt == (kind == "mlp"):
            continue
        full.append(dict(fam=fam, kind=kind, names=None, hes=hes, damp=damp, tgt=tgt,
                         sp={"seed": seed}))
    # ordered layer lists of the derived attributors
    for fam, kind in itertools.product(("logra", "factgrass"), ("mlp", "mix")):
        lin = B.LINEARS[kind]
        subs = [list(o) for r in range(1, len(lin) + 1)
                for o in itertools.permutations(lin, r)][:-1 if len(lin) == 1 else None]
        for i, o in enumerate([*subs, lin[-1]]):
            full.append(dict(fam=fam, kind=kind, names=o, hes=("eFIM", "Identity")[i % 2],
                             damp=0.3, tgt=fam == "logra", sp={"seed": i % 3},
                             pairs=[(n, m), (4, 2), (1, 1)]))
    types = ({"proj_type": "normal", "proj_dim": 3, "seed": 2},
             {"proj_type": "rademacher", "proj_dim": 3, "seed": 1},
             {"proj_type": "random_mask", "proj_dim": 2, "seed": 7}, B.IDENT)
    for sp, pp, kind in itertools.product(types, types, ("mlp", "seqnb")):
        full.append(dict(fam="base", kind=kind, names=None, hes="eFIM", damp=0.5, tgt=True,
                         sp=sp, pp=pp))
    # more samples and batches than any internal block size
    for fam, kind, hes, (nn, mm) in itertools.product(
            ("base", "logra"), ("mlp", "seq"), ("eFIM", "Identity"),
            ((3, 31), (9, 33), (40, 35), (5, 64), (2, 70))):
        full.append(dict(fam=fam, kind=kind, names=None, hes=hes, damp=0.3, tgt=nn == 9,
                         sp={"seed": 1} if fam == "logra" else None, size=(nn, mm),
                         pairs=[(nn, mm), (2, 7), (1, 32), (7, mm - 1)]))
    for i, c in enumerate(full):
        nm = c["names"] if isinstance(c["names"], str) else "+".join(c["names"] or ["all"])
        sig = "".join(f"-{q['proj_type']}{q['proj_dim']}" for q in (c.get("sp"), c.get("pp"))
                      if q and "proj_type" in q) + \
            (f"-s{c['sp']['seed']}" if c["fam"] != "base" else "")
        c = dict(c, n=n, m=m, cont="dict" if i % 3 == 2 else "list", nck=1 + i % 2, big=big)
        if "size" in c:
            c["n"], c["m"] = c.pop("size")
            sig += f"-{c['n']}x{c['m']}"
        c["id"] = (f"{c['fam']}-{c['kind']}-{nm}-{c['hes']}-d{c['damp']}-t{int(c['tgt'])}"
                   f"{sig}").replace(",", "")
        yield c


def run(case, ctx):
    B.fast_polling()
    kind, n, m = case["kind"], case["n"], case["m"]
    cks = [B.state(kind, 3 + i) for i in range(case["nck"])]
    tr, te = B.samples(kind, n, 0), B.samples(kind, m, 1)
    names = case["names"]
    reflist = B.LINEARS[kind] if names is None else [names] if isinstance(names, str) else names
    full = case.get("full") or case["fam"] != "base" or case.get("sp")
    pairs = list(itertools.product(range(1, n + 1), range(1, m + 1)))
    if "pairs" in case:
        pairs = [(min(a, n), min(b, m)) for a, b in case["pairs"]]
    elif not case["big"]:
        pairs = [(a, b) for a, b in pairs if (a in (1, 4, n) and b in (2, m)) or
                 (full and (a + b) % 3 == 0)]
    want = None
    a = None
    for k, (btr, bte) in enumerate(pairs):
        with B.scratch() as d:
            t = B.task(kind, cks, case["tgt"])
            if case["nck"] > 1 and k % 2:
                t.get_param(1)
            a, sp, pp = B.make(case["fam"], t, names, case["hes"], case["damp"],
                               ("none", "cpu")[k % 2], d, sp=case.get("sp"),
                               pp=case.get("pp"))
            if want is None:
                want = B.scores(kind, cks[0], reflist, tr, te, case["tgt"], case["hes"],
                                case["damp"], sp, pp)
            if k % 3:
                a.cache(B.loader(*tr, btr, case["cont"]))
                if case["nck"] > 1:
                    t.get_param(1)
            got = a.attribute(B.loader(*tr, btr, case["cont"]),
                              B.loader(*te, bte, case["cont"]))
            ctx.execution()
            ctx.step()
            ctx.outcome(got)
            ctx.count("remainder_batches", int(n % btr != 0) + int(m % bte != 0))
            ctx.close("scores", got, want, rtol=2e-3 if case["damp"] else 2e-2, atol=1e-6,
                      what=f"batches {btr},{bte}")
        if ctx.failures:
            return
