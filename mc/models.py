"""Tiny models, data and dense float64 reference computations shared by the checks.

Nothing here uses dattri: gradients come from a loop of plain torch.autograd calls
over single samples, Hessians from torch.autograd.functional.
"""

from __future__ import annotations

import copy
import math

import torch
from torch import nn
from torch.nn import functional as F
from torch.utils.data import DataLoader, Dataset, TensorDataset

IN, HID, OUT = 2, 3, 3


class Mlp(nn.Module):
    """Two linear layers; optionally an unused/frozen parameter."""

    def __init__(self, bias=True, bias2=None, hid=HID, frozen=False):
        super().__init__()
        self.fc1 = nn.Linear(IN, hid, bias=bias)
        self.fc2 = nn.Linear(hid, OUT, bias=bias if bias2 is None else bias2)
        if frozen:
            self.shift = nn.Parameter(torch.zeros(hid), requires_grad=False)

    def forward(self, x):
        h = torch.tanh(self.fc1(x))
        if hasattr(self, "shift"):
            h = h + self.shift
        return self.fc2(h)


class Linear1(nn.Module):
    """One linear layer (convex loss)."""

    def __init__(self, bias=True, frozen=False):
        super().__init__()
        self.fc = nn.Linear(IN, OUT, bias=bias)
        if frozen:
            self.shift = nn.Parameter(torch.zeros(OUT), requires_grad=False)

    def forward(self, x):
        out = self.fc(x)
        return out + self.shift if hasattr(self, "shift") else out


class Nest(nn.Module):
    """Layers inside blocks of several depths and a parameter of the model itself."""

    def __init__(self):
        super().__init__()
        self.gain = nn.Parameter(torch.ones(2))
        self.body = nn.Sequential(nn.Linear(IN, HID), nn.Tanh(),
                                  nn.Sequential(nn.Linear(HID, 2), nn.Tanh()))
        self.head = nn.Sequential(nn.Linear(2, OUT))

    def forward(self, x):
        return self.head(self.body(x) * self.gain)


def build(kind: str) -> nn.Module:
    return {
        "lin": lambda: Linear1(True),
        "linnb": lambda: Linear1(False),
        "linfz": lambda: Linear1(True, frozen=True),
        "mlp": lambda: Mlp(True),
        "mlpnb": lambda: Mlp(False),
        "mlpmix": lambda: Mlp(True, False),
        "nest": lambda: Nest(),
        "mlpfz": lambda: Mlp(True, frozen=True),
    }[kind]()


def state(kind: str, seed: int, scale: float = 0.8) -> dict:
    """A checkpoint: deterministic, clearly different per seed."""
    g = torch.Generator().manual_seed(1000 + seed)
    m = build(kind)
    return {k: torch.randn(v.shape, generator=g) * scale for k, v in m.state_dict().items()}


def samples(n: int, seed: int = 0, cls: int = OUT):
    g = torch.Generator().manual_seed(77 + 13 * seed)
    x = torch.randn(n, IN, generator=g)
    y = torch.arange(n) % cls if seed % 2 == 0 else (torch.arange(n) * 2 + 1) % cls
    return x, y


class DictData(Dataset):
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return {"x": self.x[i], "y": self.y[i]}


def loader(x, y, bs, kind="tuple", **kw):
    ds = TensorDataset(x, y) if kind in ("tuple", "list") else DictData(x, y)
    if kind == "tuple":
        kw["collate_fn"] = lambda b: tuple(torch.utils.data.default_collate(b))
    return DataLoader(ds, batch_size=bs, shuffle=False, **kw)


def split(data):
    if isinstance(data, dict):
        return data["x"], data["y"]
    return data


def _fwd(model, params, x):
    return torch.func.functional_call(model, params, (x,))


def loss_fn(model):
    def f(params, data):
        x, y = split(data)
        out = _fwd(model, params, x.reshape(-1, IN))
        return F.cross_entropy(out, y.reshape(-1).long())
    return f


def mse_fn(model):
    def f(params, data):
        x, y = split(data)
        out = _fwd(model, params, x.reshape(-1, IN))
        y = (y.reshape(-1, 1) == torch.arange(OUT)).to(out.dtype)
        return ((out - y) ** 2).sum(-1).mean()
    return f


def margin_fn(model):
    """A target that is not the loss: correct-class logit minus 0.3*sum."""
    def f(params, data):
        x, y = split(data)
        out = _fwd(model, params, x.reshape(-1, IN))
        y = (y.reshape(-1, 1) == torch.arange(OUT)).to(out.dtype)
        return ((out * y).sum(-1) - 0.3 * (out ** 2).sum(-1)).mean()
    return f


FUNCS = {"ce": loss_fn, "mse": mse_fn, "margin": margin_fn}


class Ref:
    """Dense float64 reference for one model kind and one checkpoint."""

    def __init__(self, kind, ckpt, names=None):
        self.model = build(kind).double()
        self.model.load_state_dict({k: v.double() for k, v in ckpt.items()})
        self.params = {k: p.detach().clone() for k, p in self.model.named_parameters()
                       if p.requires_grad}
        self.names = list(self.params) if names is None else \
            ([names] if isinstance(names, str) else list(names))

    def flat(self):
        return torch.cat([self.params[k].reshape(-1) for k in self.names])

    def with_flat(self, vec):
        p = dict(self.params)
        i = 0
        for k in self.names:
            n = self.params[k].numel()
            p[k] = vec[i:i + n].reshape(self.params[k].shape)
            i += n
        return p

    def value(self, func, x, y, vec=None):
        f = FUNCS[func](self.model)
        p = self.params if vec is None else self.with_flat(vec)
        return f(p, (x.double(), y))

    def grad(self, func, x, y, vec=None):
        v = (self.flat() if vec is None else vec).clone().requires_grad_(True)
        f = FUNCS[func](self.model)
        (g,) = torch.autograd.grad(f(self.with_flat(v), (x.double(), y)), v)
        return g

    def grads(self, func, x, y, vec=None):
        return torch.stack([self.grad(func, x[i:i + 1], y[i:i + 1], vec)
                            for i in range(len(x))])

    def hessian(self, func, x, y):
        f = FUNCS[func](self.model)
        return torch.autograd.functional.hessian(
            lambda v: f(self.with_flat(v), (x.double(), y)), self.flat())


def make_task(kind, ckpts, loss="ce", target=None, **kw):
    from dattri.task import AttributionTask

    m = build(kind)
    return AttributionTask(
        loss_func=FUNCS[loss](m), model=m, checkpoints=copy.deepcopy(ckpts),
        target_func=None if target is None else FUNCS[target](m), **kw)


def partitions(n):
    """All (train) batch sizes that give different batchings of n samples."""
    return list(range(1, n + 1))


def prod(*dims):
    return math.prod(dims)
