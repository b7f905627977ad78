"""C30: flattening parameters and restricting functions to layers, on every small model."""

from __future__ import annotations

import itertools
import math

import torch
from torch import nn

PID = "C30"
LEVEL = "exploration"
RULE = ("every model of up to 3 (thorough: 4) parameters over the shape alphabet x every "
        "choice of frozen parameters x every ordered selection of names x argument position "
        "x flat / split / nested use, and the task's parameters split by layer; non-trivial = distinct (shapes, selection) results")
ASSUMPTIONS = ["CPU; one floating dtype per model"]

SHAPES = [(), (1,), (3,), (2, 3), (3, 1), (2, 1, 2)]


class Odd(nn.Module):
    """Parameters of given shapes: directly, in submodules, or mixed; some frozen."""

    def __init__(self, shapes, frozen, layout, dtype):
        super().__init__()
        g = torch.Generator().manual_seed(17)
        for i, s in enumerate(shapes):
            p = nn.Parameter(torch.randn(s, generator=g).to(dtype), requires_grad=i not in frozen)
            host = self
            if layout == 1 or layout == 2 and i % 2:
                name = f"block{i // 2}"
                if not hasattr(self, name):
                    self.add_module(name, nn.Module())
                host = getattr(self, name)
            setattr(host, f"p{i}", p)
        self.register_buffer("scale", torch.tensor(2.0, dtype=dtype))


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for n in range(1, depth + 1):
        for lay, dt in itertools.product(range(3), ("float32", "float64")):
            if n == 1 and lay == 2 or dt == "float64" and lay == 1:
                continue
            firsts = range(len(SHAPES)) if n > 2 else [None]
            for f in firsts:
                yield {"id": f"n{n}-l{lay}-{dt}-{f}", "n": n, "lay": lay, "dt": dt, "f": f,
                       "full": tier == "thorough"}


def value(p, t, extra=1.0):
    """A function of a parameter dict and a data tensor with distinct mixed derivatives."""
    tot = 0
    for i, (k, v) in enumerate(sorted(p.items())):
        w = torch.arange(1, v.numel() + 1, dtype=v.dtype).reshape(v.shape) / 7
        tot = tot + ((1 + i) * torch.sin(w * v) * t + v ** 2 * (0.1 + i)).sum()
    return tot * extra


def run(case, ctx):
    from dattri.func.utils import flatten_func, flatten_params, partial_param

    dt = getattr(torch, case["dt"])
    n = case["n"]
    pools = [SHAPES] * n
    if case["f"] is not None:
        pools = [[SHAPES[case["f"]]], *[SHAPES] * (n - 1)]
    for q, shapes in enumerate(itertools.product(*pools)):
        for frozen in itertools.chain.from_iterable(
                itertools.combinations(range(n), r) for r in range(n)):
            if n >= 3 and not case["full"] and len(frozen) != q % 3:
                continue
            model = Odd(shapes, frozen, case["lay"], dt)
            before = {k: v.detach().clone() for k, v in model.state_dict().items()}
            one(ctx, model, flatten_func, flatten_params, partial_param, q, dt)
            after = model.state_dict()
            if any(not torch.equal(after[k], before[k]) for k in before) or \
                    any(p.grad is not None for p in model.parameters()):
                ctx.fail("model", f"{shapes} frozen {frozen}: the model was changed")
            if ctx.failures:
                return


def split_by_layer(ctx, model, par, names, what, q):
    """The task's parameters split by layer: consecutive parameters of one module."""
    from dattri.task import AttributionTask

    task = AttributionTask(loss_func=value, model=model,
                           checkpoints={k: v.detach().clone() for k, v in
                                        model.state_dict().items()})
    sels = [None, *itertools.permutations(names), *itertools.combinations(names, 2)]
    for i, sel in enumerate(sels):
        if i > 1 and len(names) > 2 and (i + q) % 4:
            continue
        use = names if sel is None else list(sel)
        mods = [n.rpartition(".")[0] for n in use]
        cuts = [int(a != b) for a, b in zip(mods, mods[1:])]
        want = [sum(cuts[:j]) for j in range(len(use))]
        for given in (None, [j // 2 for j in range(len(use))]):
            pieces, table = task.get_param(0, layer_name=sel and list(sel), layer_split=True,
                                           param_layer_map=given)
            ctx.execution()
            if list(table) != (given or want):
                ctx.fail("layer-map", f"{what} {use}: layers {table}, not {given or want}")
            if len(pieces) != len(use) or not all(torch.equal(
                    p.detach(), par[n].detach().reshape(-1)) for p, n in zip(pieces, use)):
                ctx.fail("layer-pieces", f"{what} {use}: {pieces}")
        whole, none = task.get_param(0, layer_name=sel and list(sel))
        if none is not None or not torch.equal(whole.detach(), torch.cat(
                [par[n].detach().reshape(-1) for n in use])):
            ctx.fail("task-flat", f"{what} {use}: {whole}")


def one(ctx, model, flatten_func, flatten_params, partial_param, q, dt):
    par = {k: p for k, p in model.named_parameters() if p.requires_grad}
    names = list(par)
    sizes = [par[k].numel() for k in names]
    total = sum(sizes)
    what = f"shapes {[tuple(par[k].shape) for k in names]}"
    flat = flatten_params(par)
    want = torch.cat([par[k].detach().reshape(-1) for k in names])
    ctx.execution()
    if flat.shape != want.shape or flat.dtype != dt or not torch.equal(flat.detach(), want):
        ctx.fail("flatten", f"{what}: {flat.tolist()} for {want.tolist()}")
        return
    with torch.no_grad():
        flat.add_(1.0)                      # the caller's vector is not the parameters
    rev = {k: par[k] for k in reversed(names)}
    if not torch.equal(flatten_params(rev).detach(),
                       torch.cat([par[k].detach().reshape(-1) for k in reversed(names)])):
        ctx.fail("flatten-order", f"{what}: not in dictionary order")
    vec = torch.arange(total, dtype=dt) * 0.3 - 1
    pieces = torch.split(vec, sizes)
    expected = {k: v.reshape(par[k].shape) for k, v in zip(names, pieces)}

    def seen_ok(key, got, exp, at):
        ctx.step()
        if list(got) != list(exp):
            ctx.fail(key, f"{what} {at}: names {list(got)} for {list(exp)}")
        for k in exp:
            if k in got and (got[k].shape != exp[k].shape or not torch.equal(
                    got[k].detach(), exp[k].detach())):
                ctx.fail(key, f"{what} {at}: {k} is {got[k].tolist()} of shape "
                              f"{tuple(got[k].shape)}, not {exp[k].tolist()}")

    log = []
    for pos in range(3):
        def f(*args, mark=None, pos=pos):
            """doc"""
            log.append((args, mark))
            return value(args[pos], torch.tensor(0.5, dtype=dt)), "extra"

        g = flatten_func(model)(f) if pos == 0 and q % 2 else flatten_func(model, pos)(f)
        if g.__name__ != "f" or g.__doc__ != "doc":
            ctx.fail("wraps", "name and docstring of the wrapped function are lost")
        for form, arg in (("flat", vec), ("tuple", tuple(pieces))):
            args = ["a", "b", "c"]
            args[pos] = arg
            r = g(*args, mark=7)
            got, mark = log.pop()
            ctx.execution()
            seen_ok("unflatten", got[pos], expected, f"position {pos} {form}")
            rest = [a for i, a in enumerate(got) if i != pos]
            if mark != 7 or rest != [a for i, a in enumerate("abc") if i != pos] or \
                    r[1] != "extra":
                ctx.fail("arguments", f"position {pos}: got {rest} {mark} {r[1]}")
            ctx.close("value", r[0].reshape(1), value(expected, torch.tensor(
                0.5, dtype=dt)).reshape(1), 1e-5, 1e-6, f"{what} position {pos}")
    # restriction to an ordered selection of parameters
    data = torch.tensor(0.7, dtype=dt)
    for r in range(1, len(names) + 1):
        for sel in itertools.permutations(names, r):
            if r == 3 and len(names) == 3 and (q + names.index(sel[0])) % 3:
                continue
            for asstr in ((False, True) if r == 1 else (False,)):
                for pos in (0, 1):
                    def h(*args, pos=pos):
                        log.append(args[pos])
                        return value(args[pos], args[1 - pos])

                    inner = flatten_func(model, pos)(h)
                    k = sum(par[s].numel() for s in sel)
                    part = torch.arange(k, dtype=dt) * 0.2 - 0.5
                    fun = partial_param(full_param=par, layer_name=sel[0] if asstr
                                        else list(sel), param_num=pos)(inner)
                    args = (part, data) if pos == 0 else (data, part)
                    fun(*args)
                    exp = {s: v.detach() for s, v in par.items()}
                    for s, v in zip(sel, torch.split(part, [par[s].numel() for s in sel])):
                        exp[s] = v.reshape(par[s].shape)
                    ctx.execution()
                    seen_ok("partial", log.pop(), exp, f"restricted to {sel}")
                    ctx.outcome(f"{what}{sel}")
                    got = torch.func.grad(fun, argnums=pos)(*args)
                    log.clear()
                    leafs = {s: v.clone().requires_grad_(s in sel) for s, v in exp.items()}
                    gs = torch.autograd.grad(value(leafs, data), [leafs[s] for s in sel])
                    ctx.close("partial-grad", got, torch.cat([z.reshape(-1) for z in gs]),
                              1e-5, 1e-6, f"{what} restricted to {sel}")
            # nested: restrict the restricted function again is the same as the union
            if r == 2 and len(names) > 1:
                fun = flatten_func(model)(lambda p, d: value(p, d))
                k = [par[s].numel() for s in sel]
                part = torch.arange(sum(k), dtype=dt) * 0.2 - 0.5
                hess = torch.func.hessian(partial_param(par, list(sel))(fun))(part, data)
                ref = torch.autograd.functional.hessian(
                    lambda v: value({**{s: p.detach() for s, p in par.items()},
                                     **{s: z.reshape(par[s].shape) for s, z in
                                        zip(sel, torch.split(v, k))}}, data), part)
                ctx.close("partial-hessian", hess, ref, 1e-4, 1e-5, f"{what} {sel}")
    split_by_layer(ctx, model, par, names, what, q)
    # a wrapped function at a batch of data, differentiated as the attributors do
    fun = flatten_func(model)(lambda p, d: value(p, d))
    many = torch.tensor([0.1, 0.5, -2.0], dtype=dt)
    got = torch.func.vmap(torch.func.grad(fun), in_dims=(None, 0))(vec, many)
    ref = []
    for d in many:
        v = vec.clone().requires_grad_(True)
        p = {k: z.reshape(par[k].shape) for k, z in zip(names, torch.split(v, sizes))}
        ref.append(torch.autograd.grad(value(p, d), v)[0])
    ctx.execution()
    ctx.close("batch-grad", got, torch.stack(ref), 1e-5, 1e-6, what)
    if math.prod(sizes) == 0:
        ctx.count("empty")
