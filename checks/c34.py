"""C34: scores belong to samples; how a loader selects, orders and batches them is irrelevant."""

from __future__ import annotations

import itertools
import warnings

import torch
from torch.utils.data import DataLoader, Sampler, Subset, TensorDataset

from checks import c20, c31
from mc import block as B

PID = "C34"
LEVEL = "exploration"
CHUNK = 1
RULE = ("every ordered selection of up to 3 of 5 training samples (and all orders of larger ones "
        "in the thorough tier) and every ordered selection of 3 test samples, presented by a "
        "dataset of its own, a dataset view, dattri's subset sampler or an index-free sampler, "
        "with every batch size; compared with attributing all samples at once and picking rows "
        "and columns, or with the dataset of its own where scores depend on the training set; every "
        "combination of shuffling loaders must be reported; "
        "non-trivial = distinct score matrices")
ASSUMPTIONS = ["samplers that do not shuffle", "LiSSA with full-batch sampling",
               "the attributors' cached training set is presented in one batch where its "
               "batching enters the definition"]

ROWS = ("explicit", "explicit:2", "cg", "cg:2", "arnoldi:2", "datainf:2", "datainf", "ekfac",
        "lissa", "tracin:2", "tracin:2n", "tracin:2p")      # rows independent given the cache
SETS = ("trak", "trak:2", "block", "block:c", "block:i", "logra", "factgrass", "block:d", "rps",
        "knn")
COLS = ("dvemb-full", "dvemb-kron", "dvemb-full:p")
N, M_ = 5, 3


class Walk(Sampler):
    """A sampler without an `indices` attribute."""

    def __init__(self, order):
        self.order = list(order)

    def __iter__(self):
        return iter(self.order)

    def __len__(self):
        return len(self.order)


def samples(n, seed):
    g = torch.Generator().manual_seed(4400 + seed)
    return torch.randn(n, 2, generator=g), torch.tensor([(i + seed) % 2 for i in range(n)])


TR, TE = samples(N, 0), samples(M_, 1)
FORMS = ("own", "subset", "sampler", "walk")


def present(data, idx, form, bs):
    from dattri.benchmark.utils import SubsetSampler

    idx = list(idx)
    if form == "own":
        return DataLoader(TensorDataset(*(d[idx] for d in data)), batch_size=bs)
    ds = TensorDataset(*data)
    if form == "subset":
        return DataLoader(Subset(ds, idx), batch_size=bs)
    return DataLoader(ds, batch_size=bs,
                      sampler=SubsetSampler(idx) if form == "sampler" else Walk(idx))


def cases(tier):
    for name in (*ROWS, *SETS, *COLS):
        for form in FORMS[1:] if name in SETS else FORMS:
            for part in range(2):
                yield {"id": f"{name}-{form}-{part}", "name": name, "form": form, "part": part,
                       "big": tier == "thorough"}
        yield {"id": f"{name}-shuffled", "name": name, "form": "shuffled", "part": 0}


class Knn:
    def __init__(self):
        from dattri.algorithm.data_shapley import KNNShapleyAttributor

        self.att = KNNShapleyAttributor(k_neighbors=2)


class Sub(c31.Sub):
    def __init__(self, name, scratch):
        super().__init__(name, scratch)
        self.inp = None

    def build(self, fam, task, lay, scratch):
        if fam == "lissa":
            from dattri.algorithm.influence_function import IFAttributorLiSSA

            return IFAttributorLiSSA(task, recursion_depth=2, scaling=5.0, batch_size=8,
                                     damping=0.1)
        return super().build(fam, task, lay, scratch)


def fresh(name, d):
    c20.FAULT.arm()
    return Knn() if name == "knn" else Sub(name, d)


def orders(n, top):
    for r in range(1, top + 1):
        yield from itertools.permutations(range(n), r)


def train_dvemb(s):
    idx = ([0, 1], [3, 2], [4, 0])
    for step in idx:
        s.att.cache_gradients(0, (TR[0][step], TR[1][step]), torch.tensor(step), 0.2)
    s.att.cache()


def scores(name, s, tr, te, warm):
    """Scores of a training and a test presentation by a set-dependent attributor."""
    if name == "knn":
        return s.att.attribute(tr, te)
    if name.startswith("trak"):
        if warm:
            s.att.cache(tr)
            return s.att.attribute(te)
        return s.att.attribute(te, tr)
    if warm or name == "rps":
        s.att.cache(tr)
    return s.att.attribute(tr, te)


def run(case, ctx):
    warnings.simplefilter("ignore")
    B.fast_polling()
    name, form = case["name"], case["form"]
    if form == "shuffled":
        shuffled(name, ctx)
        return
    tops = (N if case["big"] else 3, M_)
    trs = [*orders(N, tops[0]), tuple(range(N)), tuple(range(N))[::-1], (3, 0, 4, 1, 2)]
    tes = list(orders(M_, tops[1]))
    plan = []
    for q, idx in enumerate(trs):
        plan.append((idx, tes[(7 * q + 3) % len(tes)], q))
    for q, jdx in enumerate(tes):
        plan.append((trs[(11 * q + 5) % len(trs)], jdx, q))
    # samples appearing more than once
    plan += [((0, 0), (1, 1), 1), ((2, 1, 2), (0,), 2), ((4,), (2, 0, 2, 2), 3)]
    plan = [p for i, p in enumerate(plan) if i % 2 == case["part"]]
    with B.scratch() as d:
        if name in SETS:
            pairs(case, ctx, plan, d)
            return
        s = fresh(name, d)
        if name in COLS:
            train_dvemb(s)
            base = s.att.attribute(present(TE, range(M_), "own", M_))
        else:
            if not name.startswith("tracin"):
                s.att.cache(present(TR, (4, 2, 0, 3, 1), form, N))
            base = s.att.attribute(present(TR, range(N), "own", N),
                                   present(TE, range(M_), "own", M_))
        base = base.detach().clone()
        for idx, jdx, q in plan:
            te = present(TE, jdx, form, 1 + q % (len(jdx) + 1))
            if name in COLS:
                got, want = s.att.attribute(te), base[:, list(jdx)]
            else:
                tr = present(TR, idx, form, 1 + q % (len(idx) + 1))
                got, want = s.att.attribute(tr, te), base[list(idx)][:, list(jdx)]
            ctx.execution()
            ctx.outcome(got)
            ctx.close("scores", got.detach(), want, 1e-3, 1e-5,
                      f"train {idx} test {jdx} as {form} batch choice {q}")
            if name in ROWS and q % 4 == 0:
                bs = 1 + q % 3
                mine = s.att.self_attribute(present(TR, idx, form, bs))
                ref = s.att.self_attribute(present(TR, idx, "own", bs))
                ctx.close("self", mine.detach(), ref.detach(), 1e-4, 1e-6, f"{idx} as {form}")
            if ctx.failures:
                return


def shuffled(name, ctx):
    """Loaders that shuffle are reported by a warning, others are not."""
    def mixed(data, on, bs):
        return DataLoader(TensorDataset(*data), batch_size=bs, shuffle=on)

    for a, b, own in itertools.product((False, True), (False, True), (False, True)):
        if own and (name in COLS or name == "knn" or name.startswith("tracin")):
            continue
        with B.scratch() as d, warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            s = fresh(name, d)
            tr, te = mixed(TR, a, 2), mixed(TE, b, 2)
            if name in COLS:
                train_dvemb(s)
                del seen[:]
                s.att.attribute(te)
            elif name in ROWS:
                if own or name.partition(":")[0] in c31.NEEDS_CACHE:
                    s.att.cache(mixed(TR, False, N))
                    del seen[:]
                s.att.attribute(tr, te)
            else:
                scores(name, s, tr, te, own)
            told = any("shuffling" in str(w.message) for w in seen)
            ctx.execution()
            ctx.outcome(told)
            # embeddings of recorded steps do not depend on a training loader
            if name not in COLS and told != (a or b):
                ctx.fail("warning", f"training shuffled {a}, test shuffled {b}, cached {own}: "
                                    f"warned {told}")


def pairs(case, ctx, plan, d):
    name, form = case["name"], case["form"]
    turn = {}  # scores of the samples in their natural order
    for idx, jdx, q in plan:
        if len(set(idx)) < 2 and name in ("trak", "trak:2"):
            continue
        bt, be = 1 + q % (len(idx) + 1), 1 + q % (len(jdx) + 1)
        got = []
        for f in (form, "own"):
            s = fresh(name, d)
            got.append(scores(name, s, present(TR, idx, f, bt), present(TE, jdx, f, be),
                              q % 2).detach().clone())
            B.reap()
            ctx.execution()
        ctx.outcome(got[0])
        what = f"train {idx} test {jdx} as {form} batches {bt},{be}"
        ctx.close("scores", got[0], got[1], 1e-5, 1e-7, what)
        # the same samples in another order: rows and columns move with their samples
        key = tuple(sorted(idx))
        full = turn.get(key)
        if full is None:
            s = fresh(name, d)
            full = scores(name, s, present(TR, key, "own", len(key)),
                          present(TE, range(M_), "own", M_), 1).detach().clone()
            turn[key] = full
            B.reap()
            ctx.execution()
        if len(set(idx)) == len(idx):
            rows, cols = [key.index(i) for i in idx], list(jdx)
            want = full[cols][:, rows] if name == "knn" else full[rows][:, cols]
            ctx.close("order", got[0], want, 2e-3, 2e-5, what)
        if ctx.failures:
            return
