"""C20: fault injection at every evaluation of every attributor operation.

A clean run of each scenario counts the evaluation points its operation passes (model
forward, loss / target / probability function, backward, batch fetch, checkpoint load); the
operation is then executed once per point with that point raising (once or twice in a row).
After each failure the model is compared with its state before the call, then the operation
is retried, or skipped and other operations run, and every result is compared with a run
without faults.
"""

from __future__ import annotations

import itertools
import warnings

import torch
from torch import nn
from torch.func import functional_call
from torch.nn import functional as F
from torch.utils.data import DataLoader, TensorDataset

from mc import block as B

PID = "C20"
LEVEL = "fault_enumeration"
CHUNK = 1
RULE = ("every evaluation point of every operation in every scenario (quick tier: long "
        "operations at both ends, each kind first/middle/last and a spread) raises, once or twice, "
        "followed by a retry or by other operations; non-trivial = distinct (fault kind, "
        "outcome)")
ASSUMPTIONS = ["faults are exceptions raised by the user's model, losses, loaders and "
               "checkpoint loading", "whether the model is in training or evaluation mode "
               "and its .grad fields are outside the property"]


class Boom(Exception):
    pass


class Fault:
    """Counts evaluation points and raises at chosen ones."""

    def __init__(self):
        self.n, self.at, self.kind, self.kinds = 0, set(), None, []

    def arm(self, *at):
        self.n, self.at, self.kind, self.kinds = 0, set(at), None, []

    def tick(self, kind):
        self.kinds.append(kind)
        self.n += 1
        if self.n - 1 in self.at:
            self.kind = kind
            raise Boom(kind)


FAULT = Fault()


class Net(nn.Module):
    def __init__(self, frozen=False):
        super().__init__()
        self.fc1 = nn.Linear(2, 3)
        self.act = nn.Tanh()
        self.fc2 = nn.Linear(3, 2)
        self.register_buffer("offset", torch.tensor([0.1, -0.2]))
        if frozen == "bias":
            self.fc1.bias.requires_grad_(False)
        elif frozen:
            getattr(self, frozen).requires_grad_(False)

    def forward(self, x):
        FAULT.tick("forward")
        h = self.act(self.fc1(x))
        out = self.fc2(h)
        FAULT.tick("output")
        return out + self.offset


def ckpt(seed):
    g = torch.Generator().manual_seed(70 + seed)
    return {k: torch.randn(v.shape, generator=g) * 0.8
            for k, v in Net().state_dict().items()}


CKPTS = [ckpt(0), ckpt(1)]


class Loader(DataLoader):
    def __iter__(self):
        for b in super().__iter__():
            FAULT.tick("batch")
            yield b


def data(name):
    n, bs, seed = {"A": (3, 2, 0), "B": (2, 1, 1), "t": (2, 1, 2), "u": (2, 2, 3)}[name]
    g = torch.Generator().manual_seed(900 + seed)
    x = torch.randn(n, 2, generator=g)
    y = torch.tensor([(i + seed) % 2 for i in range(n)])
    return Loader(TensorDataset(x, y), batch_size=bs)


def load_func(model, c):
    """A checkpoint loader that can fail before, half-way and after loading."""
    FAULT.tick("load")
    own = model.state_dict()
    keys = list(c)
    with torch.no_grad():
        for i, k in enumerate(keys):
            if i == len(keys) // 2:
                FAULT.tick("load-half")
            own[k].copy_(c[k])
    FAULT.tick("load-done")
    model.eval()
    return model


def back(loss):
    if loss.requires_grad and not torch._C._functorch.is_functorch_wrapped_tensor(loss):
        loss.register_hook(lambda g: FAULT.tick("backward"))
    return loss


def functional(model, kind):
    def f(params, batch):
        x, y = batch
        out = functional_call(model, params, (x.reshape(-1, 2),))
        y = y.reshape(-1)
        if kind == "loss":
            v = F.cross_entropy(out, y.long())
        elif kind == "prob":
            v = torch.softmax(out, -1).gather(1, y[:, None].long())[0, 0]
            FAULT.tick("prob")
            return v
        else:
            v = out.gather(1, y[:, None].long()).sum() - 0.3 * (out ** 2).sum()
        FAULT.tick(kind)
        return back(v)
    return f


def eager(kind):
    def f(model, batch, device):
        x, y = batch
        out = model(x.to(device))
        if kind == "loss":
            v = F.cross_entropy(out, y.to(device))
        else:
            v = (out.gather(1, y[:, None].long())[:, 0] - 0.3 * (out ** 2).sum(1)).mean()
        FAULT.tick(kind)
        return back(v)
    return f


class Subject:
    """One fresh attributor and the operations on it."""

    def __init__(self, name, scratch):
        from dattri.task import AttributionTask

        self.name = name
        fam, _, opt = name.partition(":")
        self.fam, self.opt = fam, opt
        two = "2" in opt
        self.model = Net(frozen={"z": "bias", "f": "fc1", "g": "fc2"}.get(opt[:1]))
        self.ckpts = CKPTS[:2 if two else 1]
        ckpts = [{k: v.clone() for k, v in c.items()} for c in self.ckpts]
        if fam in ("block", "logra", "factgrass", "dvemb-ctx", "dvemb-kron"):
            fs = eager("loss"), eager("target")
        else:
            fs = functional(self.model, "loss"), functional(self.model, "target")
        lay = "fc2.weight" if "l" in opt else None
        if fam == "rps" or fam.startswith("dvemb"):
            self.model.load_state_dict(self.ckpts[0])
        if fam == "rps":
            task = AttributionTask(
                loss_func=lambda phi, y: (FAULT.tick("loss"), F.cross_entropy(phi, y))[1],
                model=self.model, checkpoints=ckpts, checkpoints_load_func=load_func)
        else:
            task = AttributionTask(loss_func=fs[0], model=self.model, checkpoints=ckpts,
                                   target_func=None if fam.startswith("dvemb") else fs[1],
                                   checkpoints_load_func=load_func)
        self.task = task
        self.att = self.build(fam, task, lay, scratch)
        self.step = 0

    def build(self, fam, task, lay, scratch):
        import dattri.algorithm.influence_function as I
        from dattri.algorithm.dvemb import DVEmbAttributor
        from dattri.algorithm.rps import RPSAttributor
        from dattri.algorithm.tracin import TracInAttributor
        from dattri.algorithm.trak import TRAKAttributor
        from dattri.params.projection import TRAKProjectionParams

        kw = {"layer_name": lay}
        if fam == "explicit":
            return I.IFAttributorExplicit(task, regularization=0.5, **kw)
        if fam == "cg":
            return I.IFAttributorCG(task, regularization=0.5, max_iter=2, **kw)
        if fam == "lissa":
            return I.IFAttributorLiSSA(task, recursion_depth=2, scaling=5.0, batch_size=4,
                                       damping=0.1, **kw)
        if fam == "arnoldi":
            return I.IFAttributorArnoldi(task, regularization=0.5, max_iter=3, proj_dim=2, **kw)
        if fam == "datainf":
            return I.IFAttributorDataInf(task, regularization=0.5, **kw)
        if fam == "ekfac":
            return I.IFAttributorEKFAC(task, damping=0.3)
        if fam == "tracin":
            return TracInAttributor(task, weight_list=[0.5] * len(self.ckpts),
                                    normalized_grad="n" in self.opt, **kw)
        if fam == "trak":
            return TRAKAttributor(task, functional(self.model, "prob"),
                                  proj_params=TRAKProjectionParams(proj_type="normal",
                                                                   proj_dim=2),
                                  regularization=0.2, **kw)
        if fam == "rps":
            return RPSAttributor(task, final_linear_layer_name="fc2", l2_strength=0.1, epoch=3)
        if fam.startswith("dvemb"):
            return DVEmbAttributor(task, factorization_type="none" if fam == "dvemb-full"
                                   else "kronecker")
        off = "disk" if "d" in self.opt else "cpu" if "c" in self.opt else "none"
        a, _, _ = B.make("base" if fam == "block" else fam, task, None,
                         "Identity" if "i" in self.opt else "eFIM", 0.3, off,
                         scratch if off == "disk" else None, 2)
        return a

    # -- operations: c<set> cache, a<set><test> attribute, s self-attribution, ... ------
    def do(self, op):
        fam, a = self.fam, self.att
        k, arg = op[0], op[1:]
        if k == "c":
            return a.cache(data(arg))
        if k == "s":
            if fam in ("block", "logra", "factgrass"):
                return a.compute_self_attribution()
            if fam == "trak" and not arg:
                return a.self_attribute()
            return a.self_attribute(data(arg))
        if k == "q":                       # relative influence
            return a.attribute(data(arg[0]), data(arg[1]), relatif_method="l")
        if k == "a":
            if fam == "trak":
                if arg[0] == "-":
                    return a.attribute(data(arg[1]))
                return a.attribute(data(arg[1]), data(arg[0]))
            if fam.startswith("dvemb"):
                return a.attribute(data(arg[1]))
            return a.attribute(data(arg[0]), data(arg[1]))
        if k == "e":
            return a.cache(memory_saving=False)
        if k == "r":                       # record one training step
            idx = [[0, 1], [1, 2], [2, 0, 1]][int(arg)]
            x, y = data("A").dataset.tensors
            x, y = x[idx], y[idx]
            if fam == "dvemb-ctx":
                with a.cache_gradients_context(0, torch.tensor(idx), 0.2):
                    self.model.zero_grad()
                    out = self.model(x)
                    v = back(F.cross_entropy(out, y))
                    v.backward()
                    FAULT.tick("step")
            else:
                a.cache_gradients(0, (x, y), torch.tensor(idx), 0.2)
            return None
        raise KeyError(op)


HOOKS = ("_forward_hooks", "_forward_pre_hooks", "_backward_hooks", "_backward_pre_hooks",
         "_state_dict_hooks", "_load_state_dict_pre_hooks")


def snapshot(model):
    out = []
    for n, m in model.named_modules():
        extra = {}
        for k, v in m.__dict__.items():
            if k.startswith("_") and k in nn.Module().__dict__ or k == "training":
                continue
            if k == "forward" and getattr(v, "__func__", None) is type(m).forward:
                continue
            extra[k] = repr(type(v)) if k != "forward" else repr(v)
        out.append(("module", n, id(m), type(m), tuple(sorted(extra.items())),
                    tuple(len(getattr(m, h, ())) for h in HOOKS)))
        out.append(("call", n, getattr(m.forward, "__func__", None) is type(m).forward))
    for n, p in [*model.named_parameters(), *model.named_buffers()]:
        out.append(("tensor", n, id(p), p.requires_grad, tuple(p.shape), p.dtype,
                    len(p._backward_hooks or ())))
    out.append(("grad mode", torch.is_grad_enabled()))
    return out


def values(model):
    return {k: v.clone() for k, v in model.state_dict().items()}


def holds(model, states):
    sd = model.state_dict()
    return any(all(torch.equal(sd[k], c[k]) for k in sd) for c in states)


# subject -> scenarios (prefix, operation that fails, tail, histories whose results are
# accepted for the tail when the operation is not retried)
IFS = [((), "aAt", ("aAt",)), (("cA",), "aBt", ("aBt", "aAu")), (("cA",), "sB", ("sB", "aBt")),
       (("cA",), "cB", ("aBt",)), ((), "cA", ("aAt",)), (("aAt",), "aBu", ("aAt",))]
NOCACHE = [((), "aAt", ("aAt", "aBt")), (("aAt",), "aBu", ("aAt",))]
BLK = [((), "aAt", ("aAt", "s")), (("cA",), "aBt", ("aAu",)), (("cA",), "s", ("s", "aAt")),
       (("cA",), "cB", ("aBt",)), ((), "cA", ("aAt", "s")), (("cB", "aAt"), "cA", ("s",))]
DV = [((), "r0", ("r1", "e", "a-t")), (("r0",), "r2", ("r1", "e", "a-t")),
      (("r0", "r1", "e"), "a-t", ("a-u", "a-t")), (("r0", "e"), "r1", ("e", "a-t"))]
SUBJECTS = {
    "explicit": IFS, "explicit:2": IFS[:4], "explicit:l2": IFS[:2], "explicit:z": IFS[:2],
    "cg": IFS, "cg:2": IFS[:1], "lissa": IFS, "lissa:2": IFS[:1],
    "arnoldi": IFS[1:5], "arnoldi:2": IFS[1:5], "arnoldi:l": IFS[1:2],
    "datainf": IFS[1:5], "datainf:2": IFS[1:5], "datainf:z": IFS[1:2],
    "ekfac": IFS[1:2] + IFS[3:5],
    "explicit:r": [(("cA",), "qBt", ("qBt", "aBt"))],
    "tracin": NOCACHE, "tracin:2": NOCACHE, "tracin:2n": NOCACHE, "tracin:l2": NOCACHE,
    "trak": [((), "aAt", ("aAt", "aBt")), ((), "cA", ("a-t", "s")), (("cA",), "a-t", ("a-u",)),
             (("cA",), "cB", ("a-t", "s")), ((), "sA", ("sA",))],
    "trak:2": [((), "aAt", ("aAt", "aBt")), ((), "cA", ("a-t", "s")), (("cA",), "a-t", ("a-u",)),
               (("cA",), "cB", ("a-t", "s"))],
    "trak:l2": [(("cA",), "cB", ("a-t",)), (("cA",), "a-t", ("a-u",))],
    "rps": [((), "aAt", ("aAt",)), ((), "cA", ("aAt",)), (("cA",), "aBt", ("aAu",)),
            (("cA",), "cB", ("aBt",))],
    "block": BLK, "block:i": BLK, "block:z": BLK[:2], "block:d": BLK, "block:c": BLK[:5],
    "block:f": BLK[:3], "block:g": BLK[:2], "logra:f": BLK[:2], "factgrass:gd": BLK[:2],
    "tracin:f": NOCACHE[:1], "explicit:g": IFS[1:2],
    "logra": BLK[:5], "factgrass": BLK[:5], "factgrass:d": BLK[3:5],
    "dvemb-full": DV, "dvemb-kron": DV, "dvemb-ctx": DV,
}


def cases(tier):
    for name, scen in SUBJECTS.items():
        for i in range(len(scen)):
            yield {"id": f"{name}-{i}", "name": name, "i": i, "tier": tier}


def play(subj, ops):
    return [subj.do(op) for op in ops]


def same(ctx, key, got, want, what):
    ok = True
    for g, w in zip(got, want):
        if w is None:
            continue
        ok &= bool(ctx.close(key, g.detach(), w.detach(), 1e-4, 1e-6, what))
    return ok


def alike(got, want):
    return all(w is None or (g.shape == w.shape and torch.allclose(
        g, w, rtol=1e-4, atol=1e-6, equal_nan=True)) for g, w in zip(got, want))


def run(case, ctx):
    warnings.simplefilter("ignore")
    B.fast_polling()
    name = case["name"]
    prefix, bad, tail = SUBJECTS[name][case["i"]]

    def fresh():
        FAULT.arm()
        return Subject(name, scratch)

    def ref(ops, keep):
        s = fresh()
        try:
            return [r.clone() if isinstance(r, torch.Tensor) else None
                    for r in play(s, ops)][-keep:]
        except Exception:  # noqa: BLE001 - refused without any fault
            return None
        finally:
            B.reap()

    with B.scratch() as scratch:
        want = ref([*prefix, bad, *tail], len(tail) + 1)
        if want is None:
            ctx.fail("clean", f"{prefix} {bad} {tail} fails without any fault")
            return
        without = ref([*prefix, *tail], len(tail))
        s = fresh()
        play(s, prefix)
        FAULT.arm()
        s.do(bad)
        total, kinds = FAULT.n, list(FAULT.kinds)
        B.reap()
        stride = 1
        if case["tier"] == "quick" and total > 30:
            # every kind of point at least at its first, middle and last occurrences
            keep = set(range(0, 8)) | set(range(total - 6, total))
            for k in set(kinds):
                at = [i for i, kk in enumerate(kinds) if kk == k]
                keep |= {at[0], at[len(at) // 2], at[-1]}
            points = sorted(keep | set(range(0, total, max(1, total // 10))))
        else:
            points = range(0, total, stride)
        for p in points:
            for mode in ("retry", "twice", "other"):
                if case["tier"] == "quick" and (
                        (mode == "twice" and p % 3) or (mode == "other" and total > 30
                                                        and p % 2)):
                    continue
                s = fresh()
                play(s, prefix)
                before, start = snapshot(s.model), values(s.model)
                at = f"{'-'.join([*prefix, bad])} failing at evaluation {p} ({kinds[p]})"
                for _ in range(2 if mode == "twice" else 1):
                    FAULT.arm(p)
                    try:
                        s.do(bad)
                        hit = FAULT.kind is not None
                        if hit:
                            ctx.fail("swallowed", f"{at}: no exception reached the caller")
                    except Boom:
                        hit = True
                    except Exception as e:  # noqa: BLE001
                        # an error caused by the failure, e.g. wrapping it
                        hit = True
                        ctx.outcome(("other error", type(e).__name__))
                    kind = FAULT.kind
                    FAULT.arm()
                    ctx.step()
                    if not hit:
                        break
                    after = snapshot(s.model)
                    if after != before:
                        diff = [a for a, b in zip(after, before) if a != b][:2]
                        ctx.fail(f"model-{bad[0]}", f"{at}: the model was changed: {diff}")
                    if not kind.startswith("load") and not holds(
                            s.model, [*s.ckpts, start]):
                        ctx.fail(f"values-{bad[0]}", f"{at}: parameter values of no "
                                                     "checkpoint")
                try:
                    if mode == "other":
                        got = play(s, tail)
                        ok = any(w is not None and alike(got, w)
                                 for w in (want[1:], without))
                        if not ok:
                            ctx.fail(f"mixed-{bad[0]}", f"{at}, then {tail}: the results "
                                                        "are those of no history")
                        ctx.outcome(("other", kinds[p], "answered"))
                    else:
                        got = play(s, [bad, *tail])
                        same(ctx, f"retry-{bad[0]}", got, want, f"{at}, retried")
                        ctx.outcome((mode, kinds[p]))
                    fin = snapshot(s.model)
                    if fin != before:
                        ctx.fail(f"model-{bad[0]}", f"{at}, then {mode}: model changed")
                except Exception as e:  # noqa: BLE001
                    if mode == "other":
                        ctx.outcome(("other", kinds[p], "refused"))
                    else:
                        ctx.fail(f"retry-{bad[0]}", f"{at}: the retry raised "
                                                    f"{type(e).__name__} {e}")
                finally:
                    B.reap()
                ctx.execution()
