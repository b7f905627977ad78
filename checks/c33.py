"""C33: the gradient stores (memory, host memory, disk) behave as one exact key-value store."""

from __future__ import annotations

import itertools

import torch

from mc import block as B

PID = "C33"
LEVEL = "model_checking"
RULE = ("every history of the store interface up to two epochs separated by clear_cache: per "
        "epoch every ordered selection of batches stored as gradients and every ordered "
        "selection of those batches stored as products (quick tier: every third of them for disk, every "
        "second for other layer widths), with the subsets of layers given a preconditioner rotating, run on the real memory, host-memory and disk managers (disk with several "
        "chunk sizes); at every state of the history everything readable (single batches, "
        "loaders of every batch size and batch range, preconditioners, has_* queries) is "
        "compared exactly with a dictionary; states = distinct dictionary contents per "
        "backend, transitions = store operations")
ASSUMPTIONS = ["a batch is stored once between two clears (as the attributors do)",
               "disk is read after its batch range was finished", "polling sleeps shortened"]
CHUNK = 1
RECYCLE = 4

DIMS = {"d23": [2, 3], "d02": [0, 2], "d30": [3, 0], "d2": [2], "d213": [2, 1, 3]}
NB = 3


def picks(items):
    for r in range(len(items) + 1):
        yield from itertools.permutations(items, r)


def cases(tier):
    big = tier == "thorough"
    chunks = (1, 2, 3, 16)
    for name in DIMS:
        for rows in ((2, 2, 1), (1, 1, 1)) if big or name == "d23" else ((2, 2, 1),):
            for back, ch in [("none", 0), ("cpu", 0), *[("disk", c) for c in chunks]]:
                if back == "disk" and not big and name != "d23" and ch in (1, 16):
                    continue
                for part in range(4):
                    yield dict(dims=name, rows=list(rows), back=back, chunk=ch, part=part, big=big,
                               id=f"{back}{ch or ''}-{name}-r{''.join(map(str, rows))}-p{part}")


def value(kind, b, rows, dims, gen):
    base = {"g": 1.0, "i": 1000.0, "t": 5000.0}[kind] + 50 * b + 20000 * gen
    flat = base + torch.arange(rows * sum(dims), dtype=torch.float32).reshape(rows, -1)
    return [p.clone() if p.numel() else torch.empty(0) for p in torch.split(flat, dims, 1)]


class Run:
    def __init__(self, case, ctx, d):
        from dattri.algorithm.block_projected_if.offload import create_offload_manager

        self.dims, self.rows, self.ctx = DIMS[case["dims"]], case["rows"], ctx
        self.m = create_offload_manager(
            case["back"], device="cpu", layer_names=[f"l{i}" for i in range(len(self.dims))],
            cache_dir=d, chunk_size=case["chunk"] or 16)
        self.case, self.store, self.gen, self.log, self.test = case, {}, 0, [], {}

    def phase(self, kind, order):
        m = self.m
        if not order:
            return
        if hasattr(m, "start_batch_range_processing"):
            m.start_batch_range_processing(0, NB)
        for b in order:
            v = value(kind, b, self.rows[b], self.dims, self.gen)
            self.store[kind, b] = [x.clone() for x in v]
            (m.store_gradients if kind == "g" else m.store_ifvp)(b, v)
            for x in v:  # the caller may reuse its tensors
                x.fill_(-7.0)
            self.ctx.step()
            self.log.append(f"{kind}{b}")
        if hasattr(m, "finish_batch_range_processing"):
            m.finish_batch_range_processing()
        m.wait_for_async_operations()

    def tests(self, order):
        for b in order:
            v = value("t", b, 2, self.dims, self.gen)
            self.test[b] = [x.clone() for x in v]
            self.m.store_gradients(b, v, is_test=True)
            for x in v:
                x.fill_(-8.0)
            self.ctx.step()
            self.log.append(f"t{b}")

    def read_tests(self):
        """The in-memory stores hold test gradients too; the disk store ignores them."""
        if self.case["back"] == "disk" or not self.store:
            return
        for b in range(NB):
            got, want = self.m.retrieve_gradients(b, is_test=True), self.test.get(b, [])
            got = [x for x in got if x.numel()]
            want = [x for x in want if x.numel()]
            if len(got) != len(want) or not all(map(torch.equal, got, want)):
                self.bad("test-batch", f"test gradients {b}: got {got} want {want}")
            self.ctx.execution()
        seen = [b for _, m in self.m.create_gradient_dataloader(
            "gradients", batch_size=2, pin_memory=False, is_test=True) for b in m]
        if seen != sorted(self.test):
            self.bad("test-loader", f"test loader: batches {seen}, want {sorted(self.test)}")

    def precond(self, layers):
        for k in layers:
            p = torch.arange(4.0).reshape(2, 2) + 10 * k + 100 * self.gen
            self.store["p", k] = p
            self.m.store_preconditioner(k, p.clone())
            self.ctx.step()
            self.log.append(f"p{k}")
        self.m.wait_for_async_operations()

    def clear(self):
        self.m.clear_cache()
        self.store, self.test, self.gen = {}, {}, self.gen + 1
        self.log.append("clear")
        self.ctx.step()

    def bad(self, key, msg):
        self.ctx.fail(key, f"after {' '.join(self.log)}: {msg}")

    def read(self):
        m, st, ctx = self.m, self.store, self.ctx
        ctx.state((self.case["back"], self.case["chunk"], self.case["dims"], self.gen,
                   tuple(sorted(st))))
        has = {k for k, _ in st}
        if bool(m.has_ifvp()) != ("i" in has):
            self.bad("has-ifvp", f"has_ifvp() is {m.has_ifvp()}")
        if bool(m.has_preconditioners()) != ("p" in has):
            self.bad("has-precond", f"has_preconditioners() is {m.has_preconditioners()}")
        for k in range(len(self.dims)):
            p, want = m.retrieve_preconditioner(k), st.get(("p", k))
            if (p is None) != (want is None) or p is not None and not torch.equal(p, want):
                self.bad("precond", f"layer {k}: got {p} want {want}")
        for kind, get, name in (("g", m.retrieve_gradients, "gradients"),
                                ("i", m.retrieve_ifvp, "ifvp")):
            if "g" in has:  # dimensions are known from the gradients
                for b in range(NB):
                    got, want = get(b), st.get((kind, b))
                    if want is None:
                        if any(x.numel() for x in got):
                            self.bad("absent", f"{name} {b} was never stored, got {got}")
                    elif len(got) != len(want) or any(
                            x.numel() != y.numel() or y.numel() and not torch.equal(x, y)
                            for x, y in zip(got, want)):
                        self.bad("batch", f"{name} {b}: got {got} want {want}")
                    ctx.execution()
            there = [b for b in range(NB) if (kind, b) in st]
            ranges = [None, *[(s, e) for s in range(NB) for e in range(s + 1, NB + 1)]]
            for rng, bs in itertools.product(ranges, (1, 2, 3)):
                if rng is not None and bs == 3 and not self.case["big"]:
                    continue
                want = [b for b in there if rng is None or rng[0] <= b < rng[1]]
                loader = m.create_gradient_dataloader(name, batch_size=bs, pin_memory=False,
                                                      batch_range=rng)
                seen, what = [], f"{name} loader of {bs}, range {rng}"
                for tensor, mapping in loader:
                    covered = 0
                    for b, (s, e) in mapping.items():
                        seen.append(b)
                        covered += e - s
                        if b not in want:
                            continue
                        full = torch.cat([x for x in st[kind, b] if x.numel()], 1)
                        if not torch.equal(tensor[s:e], full):
                            self.bad("loader", f"{what}: batch {b} is {tensor[s:e].tolist()}, "
                                     f"want {full.tolist()}")
                    if covered != len(tensor):
                        self.bad("rows", f"{what}: {covered} of {len(tensor)} rows mapped")
                if sorted(seen) != want or self.case["back"] != "disk" and seen != want:
                    self.bad("loader-set", f"{what}: batches {seen}, want {want}")
                ctx.execution()
        ctx.outcome([float(len(st)), float(self.gen), *[float(x) for k in sorted(st, key=str)
                                                       for x in (k[1], len(st[k]))]])


def histories(case):
    n = len(DIMS[case["dims"]])
    order = list(picks(range(NB)))
    subs = [s for r in range(n + 1) for s in itertools.combinations(range(n), r)]
    k = 0
    for g in order:
        for i in (o for o in picks(sorted(g)) if g or not o):
            k += 1
            if not case["big"] and (case["back"] == "disk" and k % 3
                                    or case["dims"] != "d23" and k % 2):
                continue
            yield g, subs[k % len(subs)], i
            if case["big"]:
                yield g, subs[(k + 1) % len(subs)], i


def run(case, ctx):
    B.fast_polling()
    hs = list(histories(case))
    mine = hs[case["part"]::4]
    second = [h for h in hs if h[0]]
    for j, (g, p, i) in enumerate(mine):
        with B.scratch() as d:
            r = Run(case, ctx, d)
            if j % 3 == 0:
                r.read()
            r.phase("g", g)
            r.tests(i if g else ())
            r.read()
            r.read_tests()
            r.precond(p)
            r.read()
            r.phase("i", i)
            r.read()
            r.clear()
            r.read()
            g2, p2, i2 = second[(7 * j + case["part"]) % len(second)]
            r.phase("g", g2)
            r.precond(p2)
            r.phase("i", i2)
            r.read()
            r.read_tests()
        if ctx.failures:
            return
