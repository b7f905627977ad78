"""Models, loaders and the dense float64 reference for the block-projected attributors.

The reference never touches hooks, compressors or storage: per-sample layer
gradients come from torch.autograd on single samples, the compression matrices
from probing the projection with the identity matrix.
"""

from __future__ import annotations

import shutil
import tempfile
import threading
from contextlib import contextmanager
import os

import torch
from torch import nn
from torch.nn import functional as F
from torch.utils.data import DataLoader, Dataset

IN, HID, OUT = 2, 3, 2


class Net(nn.Module):
    """fc1 -> tanh -> fc2; optionally a sequence dimension and an extra head.

    The extra head ``aux`` is only used when the batch asks for it, so it is a layer
    that may take no part in a batch's loss.
    """

    def __init__(self, b1=True, b2=True, seq=0, aux=False):
        super().__init__()
        self.fc1 = nn.Linear(IN, HID, bias=b1)
        self.act = nn.Tanh()
        self.fc2 = nn.Linear(HID, OUT, bias=b2)
        self.seq = seq
        if aux:
            self.aux = nn.Linear(HID, OUT)

    def forward(self, x, y=None):
        h = self.act(self.fc1(x))
        out = self.fc2(h)
        if self.seq:
            out = out.mean(1)
        return out


class Deep(nn.Module):
    """Nested modules, so that layer names contain dots."""

    def __init__(self):
        super().__init__()
        self.body = nn.Sequential(nn.Linear(IN, HID), nn.Tanh(), nn.Linear(HID, HID))
        self.head = nn.Linear(HID, OUT, bias=False)

    def forward(self, x, y=None):
        return self.head(torch.tanh(self.body(x)))


class Gate(nn.Module):
    """Calls the layer ``aux`` only for batches with a flagged sample, and counts it only there."""

    def __init__(self):
        super().__init__()
        self.fc1 = nn.Linear(IN, HID)
        self.aux = nn.Linear(HID, OUT)
        self.fc2 = nn.Linear(HID, OUT)

    def forward(self, x, y=None):
        h = torch.tanh(self.fc1(x))
        out = self.fc2(h)
        flag = x[:, :1] > 0
        return out + flag * self.aux(h) if flag.any() else out


MODELS = {
    "gate": lambda: Gate(),
    "mlp": lambda: Net(), "mix": lambda: Net(True, False), "mix2": lambda: Net(False, True),
    "nb": lambda: Net(False, False), "seq": lambda: Net(seq=3), "seqnb": lambda: Net(False, True, 3),
    "aux": lambda: Net(aux=True), "deep": lambda: Deep(),
}
LINEARS = {"gate": ["fc1", "aux", "fc2"], "mlp": ["fc1", "fc2"], "mix": ["fc1", "fc2"], "mix2": ["fc1", "fc2"],
           "nb": ["fc1", "fc2"], "seq": ["fc1", "fc2"], "seqnb": ["fc1", "fc2"],
           "aux": ["fc1", "fc2", "aux"], "deep": ["body.0", "body.2", "head"]}


def state(kind, seed, scale=0.8):
    g = torch.Generator().manual_seed(500 + seed)
    return {k: torch.randn(v.shape, generator=g) * scale
            for k, v in MODELS[kind]().state_dict().items()}


def samples(kind, n, seed=0):
    g = torch.Generator().manual_seed(91 + 17 * seed)
    shape = (n, 3, IN) if kind.startswith("seq") else (n, IN)
    x = torch.randn(shape, generator=g)
    if kind == "gate":  # the first training sample is flagged, later batches may not be
        x[:, 0] = x[:, 0].abs() * (1 - 2 * ((torch.arange(n) + seed) % 4 > 0).float())
    y = (torch.arange(n) * (1 + seed) + seed) % OUT
    return x, y


class DictData(Dataset):
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return {"x": self.x[i], "y": self.y[i]}


def loader(x, y, bs, kind="list"):
    if kind == "dict":
        return DataLoader(DictData(x, y), batch_size=bs, shuffle=False)
    return DataLoader(torch.utils.data.TensorDataset(x, y), batch_size=bs, shuffle=False)


def _xy(batch):
    return (batch["x"], batch["y"]) if isinstance(batch, dict) else (batch[0], batch[1])


def loss(model, batch, device):
    x, y = _xy(batch)
    return F.cross_entropy(model(x.to(device)), y.to(device))


def target(model, batch, device):
    x, y = _xy(batch)
    out = model(x.to(device))
    hot = (y.reshape(-1, 1) == torch.arange(OUT)).to(out.dtype)
    return ((out * hot).sum(-1) - 0.3 * (out ** 2).sum(-1)).mean()


def task(kind, ckpts, tgt=False):
    from dattri.task import AttributionTask

    return AttributionTask(loss_func=loss, model=MODELS[kind](), checkpoints=ckpts,
                           target_func=target if tgt else None)


def layer_grads(kind, ckpt, names, x, y, func):
    """Per layer the [n, out, in(+1)] float64 gradients of single samples."""
    m = MODELS[kind]().double()
    m.load_state_dict({k: v.double() for k, v in ckpt.items()})
    mods = dict(m.named_modules())
    rows = {k: [] for k in names}
    for i in range(len(x)):
        ps = []
        for k in names:
            ps.append(mods[k].weight)
            if mods[k].bias is not None:
                ps.append(mods[k].bias)
        gs = list(torch.autograd.grad(func(m, (x[i:i + 1].double(), y[i:i + 1]), "cpu"), ps,
                                      allow_unused=True))
        for k in names:
            w = gs.pop(0)
            w = torch.zeros_like(mods[k].weight) if w is None else w
            if mods[k].bias is not None:
                b = gs.pop(0)
                b = torch.zeros_like(mods[k].bias) if b is None else b
                w = torch.cat([w, b[:, None]], 1)
            rows[k].append(w)
    return {k: torch.stack(v).detach() for k, v in rows.items()}


def matrix(dim, params, seed):
    """The projection of R^dim as a matrix, by probing it with unit vectors."""
    from dattri.func.projection import random_project
    from dattri.params.projection import RandomProjectionParams

    pd = params["proj_dim"]
    if params["proj_type"] == "identity":
        return torch.eye(dim, dtype=torch.float64)
    eye = torch.eye(dim)
    p = random_project(eye, proj_params=RandomProjectionParams(
        feature_batch_size=dim, proj_dim=pd, proj_max_batch_size=64, proj_seed=seed,
        proj_type=params["proj_type"], device="cpu"))
    return p(eye, ensemble_id=0).double()


def features(kind, ckpt, names, x, y, func, sp, pp):
    """Compressed features per layer.  Seeds: as documented in setup_model_compressors."""
    ids = {n: i for i, (n, _) in enumerate(MODELS[kind]().named_modules())}
    out = []
    g = layer_grads(kind, ckpt, names, x, y, func)
    for k in names:
        a = matrix(g[k].shape[1], sp, sp.get("seed", 0) + 10000 * ids[k])
        b = matrix(g[k].shape[2], sp, sp.get("seed", 0) + 10000 * ids[k] + 1)
        f = torch.einsum("noi,op,iq->npq", g[k], a, b).reshape(len(x), -1)
        out.append(f @ matrix(f.shape[1], pp, pp.get("seed", 0) + 10000 * ids[k] + 1))
    return out


IDENT = {"proj_type": "identity", "proj_dim": -1}


def scores(kind, ckpt, names, tr, te, tgt=False, hessian="eFIM", damping=0.3, sp=IDENT,
           pp=IDENT):
    ftr = features(kind, ckpt, names, *tr, loss, sp, pp)
    fte = features(kind, ckpt, names, *te, target if tgt else loss, sp, pp)
    total = torch.zeros(len(tr[0]), len(te[0]), dtype=torch.float64)
    for a, b in zip(ftr, fte):
        if hessian == "eFIM":
            h = a.T @ a / len(a)
            d = (1e-5 if damping is None else damping) * h.trace() / len(h)
            h = h + d * torch.eye(len(h), dtype=h.dtype)
            if float(h.abs().max()) == 0:
                continue
            total = total + a @ torch.linalg.solve(h, b.T)
        else:
            total = total + a @ b.T
    return total


def reap(gone=False):
    """Stop the background threads of finished attributors (they poll forever).

    With ``gone`` the attributors will not be used again, so writers are stopped too.
    """
    for t in threading.enumerate():
        o = getattr(getattr(t, "_target", None), "__self__", None)
        if o is None or isinstance(o, threading.Thread):
            continue
        if hasattr(o, "_stop_prefetch"):
            o._stop_prefetch.set()
        if gone and hasattr(o, "_shutdown"):
            o._shutdown = True


def fast_polling():
    """Shorten the polling sleeps of the storage code (semantics unchanged)."""
    import time

    from dattri.algorithm.block_projected_if.offload.disk_io import manager

    if getattr(manager, "time", None) is time:
        class Clock:
            def __getattr__(self, name):
                return getattr(time, name)

            def sleep(self, s):
                time.sleep(min(s, 0.004))

        manager.time = Clock()


@contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        yield d
    finally:
        reap(True)
        shutil.rmtree(d, ignore_errors=True)


def make(fam, t, names=None, hessian="eFIM", damping=0.3, offload="none", cache_dir=None,
         chunk_size=16, sp=None, pp=None):
    """Returns (attributor, sparsifier spec, projector spec)."""
    from dattri.algorithm.block_projected_if.block_projected_if import (
        BlockProjectedIFAttributor,
    )
    from dattri.algorithm.factgrass import FactGraSSAttributor
    from dattri.algorithm.logra import LoGraAttributor
    from dattri.params.projection import (
        FactGrassProjectionParams,
        GeneralProjectionParams,
        LoGraProjectionParams,
    )

    kw = dict(layer_names=names, hessian=hessian, damping=damping, offload=offload,
              cache_dir=cache_dir, chunk_size=chunk_size)
    if fam == "logra":
        seed = sp["seed"] if sp else 0
        return (LoGraAttributor(t, proj_params=LoGraProjectionParams(
            proj_dim_per_layer=4, proj_seed=seed), **kw),
            {"proj_type": "normal", "proj_dim": 2, "seed": seed}, IDENT)
    if fam == "factgrass":
        seed = sp["seed"] if sp else 0
        return (FactGraSSAttributor(t, proj_params=FactGrassProjectionParams(
            proj_dim_per_layer=2, proj_seed=seed), blowup_factor=2, **kw),
            {"proj_type": "random_mask", "proj_dim": 2, "seed": seed},
            {"proj_type": "normal", "proj_dim": 2, "seed": seed})
    sp, pp = sp or IDENT, pp or IDENT

    def conv(q):
        q = dict(q)
        q["proj_seed"] = q.pop("seed", 0)
        return GeneralProjectionParams(proj_max_batch_size=64, **q)

    return (BlockProjectedIFAttributor(t, sparsifier_params=conv(sp),
                                       projector_params=conv(pp), **kw), sp, pp)
