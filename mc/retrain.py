"""Stand-in training function and loaders for the retraining checks (C24, C25)."""

from __future__ import annotations

import torch
from torch import nn
from torch.utils.data import DataLoader, RandomSampler, SubsetRandomSampler, TensorDataset

IDS = 64  # room for sample ids in a model


class Rec(nn.Module):
    """A "trained model": its buffer says which samples it saw and with what seed."""

    def __init__(self) -> None:
        super().__init__()
        self.register_buffer("seen", torch.zeros(IDS, dtype=torch.float64))
        self.register_buffer("tag", torch.zeros(2, dtype=torch.float64))

    def value(self, x):
        """Target of the test samples x under this model (distinct per model)."""
        w = torch.arange(1, IDS + 1, dtype=torch.float64).sqrt()
        return (self.seen * w).sum() + x.double() * (1 + self.tag[1]) + self.seen[0] * x


class Trainer:
    """Records every call; `runs` holds (ids in order of arrival, seed, kwargs)."""

    def __init__(self) -> None:
        self.runs: list = []
        self.batches: list = []      # sizes of the batches of each training
        self.__name__ = "train_stub"

    def __call__(self, dataloader, seed=None, **kwargs):
        got = [b[0][:, 0].tolist() for b in dataloader]
        ids = [int(v) for b in got for v in b]
        self.batches.append([len(b) for b in got])
        self.runs.append((ids, seed, kwargs))
        m = Rec()
        for i in ids:
            m.seen[i] += 1
        m.tag[0] = float((seed or 0) % 1000003)
        m.tag[1] = float(len(self.runs))
        return m


def loader(n, kind, bs):
    """A training loader of n samples and the dataset ids of its positions (None for
    a position-free random order, where position = dataset id)."""
    from dattri.benchmark.utils import SubsetSampler

    if kind in ("subset", "subset_random"):
        ids = [(3 * i + 2) % (2 * n + 3) for i in range(n)]
        if len(set(ids)) < n:
            ids = [2 * n + 2 - 2 * i for i in range(n)]
        ds = TensorDataset(torch.arange(2 * n + 3).float()[:, None])
        s = SubsetSampler(ids) if kind == "subset" else SubsetRandomSampler(ids)
        return DataLoader(ds, batch_size=bs, sampler=s), ids
    ds = TensorDataset(torch.arange(n).float()[:, None])
    s = RandomSampler(ds) if kind == "random" else None
    return DataLoader(ds, batch_size=bs, sampler=s), list(range(n))
