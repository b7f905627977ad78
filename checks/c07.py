"""C07: data-value embeddings follow the recorded trajectory.

The real attributor records a training run performed by the check (plain SGD on a small
network).  Two explorations, both exhaustive within their bounds:

 * traj: every sequence of three batches (from all non-empty subsets of three samples, one
   of them also reversed and one with a repeated sample) x every split into epochs (numbered
   from 0, from 1 or with gaps) x every recording mode;
 * hist: every history of operations up to a depth over {step, step on another batch, next
   epoch, failed step (before / inside / after the model evaluation), compute embeddings
   keeping or clearing the record, attribute, clear}.

Oracle: per-sample gradients by autograd one sample at a time in float64, embeddings as the
explicit product of matrices (I - eta_k G_k) over the later steps - no running matrix.  The
training itself is compared bitwise with the same training without a recorder.
"""

from __future__ import annotations

import copy
import itertools
import math
import warnings

import torch
from torch import nn
from torch.func import functional_call
from torch.nn import functional as F
from torch.utils.data import DataLoader, TensorDataset

from dattri.algorithm.dvemb import DVEmbAttributor
from dattri.params.projection import DVEmbProjectionParams
from dattri.task import AttributionTask

PID = "C07"
LEVEL = "model_checking"
RULE = ("all step sequences x epoch splits x recording modes, and all operation histories "
        "up to a depth; non-trivial = distinct embedding/score matrices")
ASSUMPTIONS = ["each attributed layer is evaluated once per step and reached by the loss; "
               "losses are averaged over the batch; epochs are numbered in training order"]

MODES = ("full", "kron", "elem", "ctx-kron", "ctx-elem")
PROJ = ("full-p", "kron-p", "elem-p", "ctx-kron-p", "ctx-elem-p")


class Mlp(nn.Module):
    def __init__(self, bias=True):
        super().__init__()
        self.a = nn.Linear(2, 2, bias=bias)
        self.b = nn.Linear(2, 3)

    def forward(self, x):
        return self.b(torch.tanh(self.a(x)))


class Seq(nn.Module):
    """The same layers over a sequence axis: factors have three dimensions."""

    def __init__(self):
        super().__init__()
        self.a = nn.Linear(2, 2)
        self.b = nn.Linear(2, 3, bias=False)

    def forward(self, x):
        x = torch.stack([x, x.flip(1) * 0.5], 1)
        return self.b(torch.tanh(self.a(x))).sum(1)


class Nested(nn.Module):
    """A linear layer in a submodule, a buffer, and a parameter that is not linear."""

    def __init__(self):
        super().__init__()
        self.body = nn.Sequential(nn.Linear(2, 3), nn.Tanh(), nn.Linear(3, 2))
        self.head = nn.Linear(2, 3)

    def forward(self, x):
        return self.head(torch.tanh(self.body(x)))


NETS = {"mlp": lambda: Mlp(), "nobias": lambda: Mlp(bias=False), "seq": Seq,
        "nested": Nested}
LAYERS = {"mlp": (None, "b", ["b", "a"]), "nobias": (None,), "seq": (None,),
          "nested": (None, "body.2", ["head", "body.0"])}


def make_net(kind, dtype):
    m = NETS[kind]().to(dtype)
    g = torch.Generator().manual_seed(11)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g, dtype=torch.float64))
    return m


def pool(dtype, n=4):
    g = torch.Generator().manual_seed(5)
    return (torch.randn(n, 2, generator=g, dtype=torch.float64).to(dtype),
            torch.tensor([i % 3 for i in range(n)]))


TEST = ([0, 3, 1], 2)


class Boom(Exception):
    pass


class Rig:
    """One attributor under one recording mode, and its reference."""

    def __init__(self, mode, net="mlp", layers=None, lr=0.3, dtype=torch.float64, n=4,
                 test=TEST):
        self.test = test
        self.mode, self.lr, self.dtype = mode, lr, dtype
        self.proj = mode.endswith("-p")
        self.ctx_mode = mode.startswith("ctx")
        self.full = mode.startswith("full")
        self.elem = "elem" in mode
        self.model = make_net(net, dtype)
        self.shadow = copy.deepcopy(self.model)
        self.fail = False
        self.X, self.Y = pool(dtype, n)
        model = self.model

        def functional(params, batch):
            if self.fail:
                raise Boom
            x, y = batch
            return F.cross_entropy(functional_call(model, params, (x.unsqueeze(0),)), y.unsqueeze(0))

        def eager(mod, batch, device):
            x, y = batch
            out = mod(x.to(device))
            if self.fail:
                raise Boom
            return F.cross_entropy(out, y.to(device))

        task = AttributionTask(loss_func=functional if self.full else eager, model=model,
                               checkpoints=[model.state_dict()])
        pp = None
        self.dim = 4
        if self.proj:
            pp = DVEmbProjectionParams(proj_dim_per_layer=self.dim, proj_max_batch_size=32)
        self.att = DVEmbAttributor(
            task=task, proj_params=pp, layer_names=layers,
            factorization_type=("none" if self.full else
                                "elementwise" if self.elem else "kronecker"))
        names = [n for n, m in self.shadow.named_modules() if isinstance(m, nn.Linear)]
        if layers is not None and not self.full:
            names = [layers] if isinstance(layers, str) else list(layers)
        self.names = names
        self.log = {}          # epoch -> [(eta, indices, G)]
        self.emb = None
        self.pending = None

    # -- reference ------------------------------------------------------------
    def grads(self, model, x, y):
        """Per-sample gradient rows in the attributor's coordinate order."""
        rows = []
        for i in range(len(x)):
            xi = x[i:i + 1]
            ins, outs, hs = {}, {}, []
            mods = dict(model.named_modules())
            for n in self.names:
                def hook(_m, inp, out, n=n):
                    ins[n], outs[n] = inp[0], out
                hs.append(mods[n].register_forward_hook(hook))
            loss = F.cross_entropy(model(xi), y[i:i + 1])
            for h in hs:
                h.remove()
            if self.proj and not self.full:
                bs = torch.autograd.grad(loss, [outs[n] for n in self.names])
                parts = []
                for (pa, pb), n, b in zip(self.att.random_projectors, self.names, bs):
                    a = ins[n].detach()
                    a, b = a.reshape(-1, a.shape[-1]), b.reshape(-1, b.shape[-1])
                    u, v = pa(a.contiguous()), pb(b.contiguous())
                    if self.elem:
                        parts.append((u * v).sum(0) * math.sqrt(self.dim))
                    else:
                        parts.append((v.T @ u).flatten())
                rows.append(torch.cat(parts).double())
                continue
            if self.full:
                ps = list(model.parameters())
            else:
                ps = [p for n in self.names for p in mods[n].parameters()]
            gs = torch.autograd.grad(loss, ps)
            row = torch.cat([g.flatten() for g in gs])
            if self.proj:
                row = self.att.projector(row[None])[0]
            rows.append(row.double())
        return torch.stack(rows).detach()

    def embed(self):
        steps = [(e, s) for e in sorted(self.log) for s in self.log[e]]
        d = steps[0][1][2].shape[1]
        n = max(max(s[1]) for _, s in steps) + 1
        out = {}
        prod = torch.eye(d, dtype=torch.float64)
        for e, (eta, idx, g) in reversed(steps):
            cur = out.setdefault(e, torch.zeros(n, d, dtype=torch.float64))
            for j, i in enumerate(idx):
                cur[i] += eta * (prod @ g[j])
            prod = prod @ (torch.eye(d, dtype=torch.float64) - eta * g.T @ g)
        return out

    # -- operations -----------------------------------------------------------
    def train(self, model, idx, rec=None, fault=None):
        x, y = self.X[idx], self.Y[idx]
        model.zero_grad()
        if fault == "pre":
            raise Boom
        out = model(x)
        if fault == "mid":
            raise Boom
        F.cross_entropy(out, y).backward()
        if fault == "post":
            raise Boom
        self.sgd(model)

    def sgd(self, model):
        with torch.no_grad():
            for p in model.parameters():
                if p.grad is not None:
                    p -= self.lr * p.grad

    def step(self, epoch, idx, fault=None):
        idx = list(idx)
        ti = torch.tensor(idx)
        at = copy.deepcopy(self.shadow)
        boom = False
        if self.ctx_mode:
            try:
                with self.att.cache_gradients_context(epoch, ti, self.lr):
                    self.train(self.model, idx, fault=fault)
            except Boom:
                boom = True
        else:
            self.model.zero_grad()
            F.cross_entropy(self.model(self.X[idx]), self.Y[idx]).backward()
            self.fail = fault is not None
            x, y = self.X[idx].clone(), self.Y[idx].clone()
            try:
                self.att.cache_gradients(epoch, (x, y), ti, self.lr)
            except Boom:
                boom = True
            self.fail = False
            x.zero_()                      # the batch buffer is reused by the caller
            if not boom:
                self.sgd(self.model)
        ti.zero_()
        try:
            if self.ctx_mode or fault is None:
                self.train(self.shadow, idx, fault=fault)
            else:
                self.shadow.zero_grad()
                F.cross_entropy(self.shadow(self.X[idx]), self.Y[idx]).backward()
        except Boom:
            pass
        if fault is None:
            g = self.grads(at, self.X[idx], self.Y[idx])
            self.log.setdefault(epoch, []).append((self.lr / len(idx), idx, g))
        return boom

    def same_training(self):
        a, b = list(self.model.parameters()), list(self.shadow.parameters())
        for p, q in zip(a, b):
            if not torch.equal(p, q):
                return "parameters"
            if (p.grad is None) != (q.grad is None) or (
                    p.grad is not None and not torch.equal(p.grad, q.grad)):
                return "gradients"
        for m in self.model.modules():
            if m._forward_hooks or m._backward_hooks or m._forward_pre_hooks:
                return "hooks"
        return None

    def tol(self):
        return (1e-3, 2e-4) if self.proj else (1e-9, 1e-11)


def test_loader(rig):
    order, bs = rig.test
    return DataLoader(TensorDataset(rig.X[order] * 0.7 + 0.2, rig.Y[order]), batch_size=bs)


def check_scores(ctx, rig, key, epochs=(None,), idx=None):
    order, _ = rig.test
    t = rig.grads(rig.shadow, rig.X[order] * 0.7 + 0.2, rig.Y[order])
    for e in epochs:
        emb = sum(rig.emb.values()) if e is None else rig.emb[e]
        if idx is not None:
            emb = emb[idx]
        got = rig.att.attribute(test_loader(rig), epoch=e, train_data_indices=idx)
        ctx.step()
        r, a = rig.tol()
        ctx.close(f"{key}", got.double(), emb @ t.T, r, a, f"scores of epoch {e}")
        ctx.outcome((tuple(got.shape), round(float(got.double().sum()), 6)))
    bad = rig.same_training()
    if bad:
        ctx.fail(f"{key}-touched", f"attribute changed the model's {bad}")


SUBSETS = [(0,), (1,), (2,), (0, 1), (2, 0), (1, 2), (2, 1, 0), (0, 1, 2), (1, 1)]
SPLITS = {"1": [0, 0, 0], "2a": [0, 0, 1], "2b": [1, 2, 2], "3": [0, 1, 2], "gap": [2, 5, 9]}
OPS = ("s", "t", "n", "x", "m", "y", "c", "C", "a", "z")


def cases(tier):
    deep = tier == "thorough"
    for mode in MODES + PROJ:
        for split in SPLITS:
            for first in range(len(SUBSETS)):
                yield {"id": f"traj-{mode}-{split}-{first}", "kind": "traj", "mode": mode,
                       "split": split, "first": first, "net": "mlp", "layers": None,
                       "deep": deep}
        for net in NETS:
            for li, layers in enumerate(LAYERS[net]):
                if mode.startswith("full") and layers is not None:
                    continue
                yield {"id": f"net-{mode}-{net}-{li}", "kind": "net", "mode": mode,
                       "net": net, "layers": layers}
        depth = (4 if mode in ("full", "kron", "ctx-kron") else 3) + deep
        for a, b in itertools.product(OPS, repeat=2):
            yield {"id": f"hist-{mode}-{a}{b}", "kind": "hist", "mode": mode,
                   "prefix": [a, b], "depth": depth}
    for mode in MODES + PROJ:
        yield {"id": f"long-{mode}", "kind": "long", "mode": mode}
    for split in SPLITS:
        yield {"id": f"external-{split}", "kind": "external", "split": split}


def compute(ctx, rig, keep, key):
    """cache() against the reference; returns False when it had to be refused."""
    try:
        rig.att.cache(memory_saving=not keep)
        ok = True
    except ValueError:
        ok = False
    ctx.step()
    if not rig.log:
        if ok:
            ctx.fail(f"{key}-empty", "embeddings computed although no step is recorded")
        return
    if not ok:
        ctx.fail(f"{key}-refused", "embeddings refused although steps are recorded")
        return
    rig.emb = rig.embed()
    r, a = rig.tol()
    got = rig.att.embeddings
    if sorted(got) != sorted(rig.emb):
        ctx.fail(f"{key}-epochs", f"embeddings of epochs {sorted(got)}, recorded "
                                  f"{sorted(rig.emb)}")
        return
    # the order of coordinates is the attributor's own business: compare inner products
    g = torch.cat([got[e].double() for e in sorted(got)])
    w = torch.cat([rig.emb[e] for e in sorted(got)])
    ctx.close(f"{key}-emb", g @ g.T, w @ w.T, r, a, "inner products of embeddings")
    if not keep:
        rig.log = {}


def run(case, ctx):
    warnings.simplefilter("ignore")
    kind = case["kind"]
    if kind in ("traj", "net"):
        if kind == "traj":
            seqs = [(SUBSETS[case["first"]], b, c) for b in SUBSETS for c in SUBSETS]
            if case["mode"] not in ("full", "kron", "ctx-kron") and not case["deep"]:
                # every (first, second) pair once, every (first, third) pair once
                seqs = [seqs[9 * i + (i + case["first"]) % 9] for i in range(9)]
            split = SPLITS[case["split"]]
        else:
            seqs = [((0, 1), (2,), (1, 2, 0)), ((2,), (0, 1, 2), (1,)), ((3, 1), (0,), (2, 3))]
            split = [0, 1, 1]
        dtype = torch.float32 if case["mode"].endswith("-p") else torch.float64
        for seq in seqs:
            rig = Rig(case["mode"], case["net"], case["layers"], dtype=dtype)
            for e, b in zip(split, seq):
                rig.step(e, b)
                bad = rig.same_training()
                if bad:
                    ctx.fail("training", f"recording {seq} changed the model's {bad}")
                ctx.step()
            compute(ctx, rig, False, "cache")
            n = len(next(iter(rig.emb.values())))
            check_scores(ctx, rig, "score", [None, *sorted(rig.emb)])
            check_scores(ctx, rig, "score-idx", [None], idx=[n - 1, 0])
            ctx.execution()
    elif kind == "long":
        # many steps, uneven batches and epochs, a learning rate per step
        dtype = torch.float32 if case["mode"].endswith("-p") else torch.float64
        epochs = [0] * 5 + [1] + [2] * 7 + [10] * 3 + [11] * 2
        for test in (([*range(12)], 5), ([7, 11, 3], 1), ([*range(11)], 11)):
            rig = Rig(case["mode"], dtype=dtype, n=12, test=test)
            for k, e in enumerate(epochs):
                rig.lr = 0.02 + 0.03 * (k % 5)
                size = (3, 1, 7, 2, 11)[k % 5]
                rig.step(e, [(5 * j + 7 * k) % 12 for j in range(size)])
                ctx.step()
            if rig.same_training():
                ctx.fail("training", f"recording changed the model's {rig.same_training()}")
            compute(ctx, rig, False, "cache")
            check_scores(ctx, rig, "score", [None, *sorted(rig.emb)])
            check_scores(ctx, rig, "score-idx", [None, 2], idx=[11, 0, 5])
            ctx.execution()
    elif kind == "external":
        split = SPLITS[case["split"]]
        for seq in itertools.product(SUBSETS[3:7], repeat=3):
            rig = Rig("full")
            for e, b in zip(split, seq):
                rig.step(e, b)
            ext = {e: [(s[2] * 1.5 - 0.1).clone() for s in v] for e, v in rig.log.items()}
            rates = {e: [0.5 * s[0] + 0.1 * i for i, s in enumerate(v)]
                     for e, v in rig.log.items()}
            before = ({e: [g.clone() for g in v] for e, v in ext.items()},
                      copy.deepcopy(rates))
            rig.log = {e: [(rates[e][i], s[1], ext[e][i].double())
                           for i, s in enumerate(v)] for e, v in rig.log.items()}
            rig.att.cache(gradients=ext, learning_rates=rates)
            rig.emb = rig.embed()
            check_scores(ctx, rig, "external", [None, *sorted(rig.emb)])
            if rates != before[1] or sorted(ext) != sorted(before[0]) or any(
                    len(ext[e]) != len(before[0][e]) for e in ext):
                ctx.fail("external-lost", "cache() emptied the caller's gradients or rates")
            ctx.execution()
    else:
        hist(case, ctx)


def hist(case, ctx):
    dtype = torch.float32 if case["mode"].endswith("-p") else torch.float64
    tails = itertools.product(OPS, repeat=case["depth"] - 2)
    for tail in tails:
        ops = [*case["prefix"], *tail]
        if "c" not in ops and "C" not in ops:
            continue                 # nothing is observable without embeddings
        if ops[-1] in "na":
            continue                 # the prefix is checked within its other extensions
        rig = Rig(case["mode"], dtype=dtype)
        epoch = 0
        # (a last `attribute' is always observed)
        for k, op in enumerate([*ops, "a"]):
            if op == "n":
                epoch += 1
            elif op in "st":
                rig.step(epoch, (0, 1) if op == "s" else (2, 1))
            elif op in "xmy":
                boom = rig.step(epoch, (1, 2, 0), {"x": "pre", "m": "mid", "y": "post"}[op])
                if not boom:
                    ctx.fail("fault-swallowed", f"{ops[:k + 1]}: the failure of the step "
                                                "did not reach the caller")
            elif op in "cC":
                compute(ctx, rig, op == "C", "cache")
            elif op == "z":
                rig.att.clear_cache()
                rig.log = {}
            elif op == "a":
                if rig.emb is None:
                    try:
                        rig.att.attribute(test_loader(rig))
                        ctx.fail("unready", f"{ops}: scores without embeddings")
                    except RuntimeError:
                        pass
                else:
                    check_scores(ctx, rig, "score", [None, *sorted(rig.emb)][:3])
            bad = rig.same_training()
            if bad:
                ctx.fail("training", f"{ops[:k + 1]} changed the model's {bad}")
            ctx.state((case["mode"], tuple(ops[:k + 1])))
            ctx.step()
        ctx.execution()
