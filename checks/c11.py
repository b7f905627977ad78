"""C11: an AttributionTask always answers for the requested checkpoint.

Explicit-state exploration of operation histories on the real task.  Reference:
the checkpoint dictionaries themselves plus dense float64 evaluation (mc.models.Ref),
which has no notion of history.
"""

from __future__ import annotations

import itertools
import os
from pathlib import Path

import torch

from mc import core
from mc import models as M

PID = "C11"
LEVEL = "model_checking"
RULE = ("every history of task operations up to the depth over checkpoints x layer "
        "restrictions x accessor; state = (checkpoint held by the model, last loss and "
        "target gradient request); every answer is compared with the reference")
ASSUMPTIONS = ["the task's model is not modified by anybody else between operations",
               "CPU, float32 model of two linear layers"]

LAYERS = {"-": None, "s": "fc1.weight", "a": ["fc2.weight"],
          "b": ["fc2.bias", "fc1.weight"]}
NCK = 2


def alphabet(tier):
    """Operations: (accessor, checkpoint, layer key)."""
    ops = []
    for c in range(NCK):
        for lay in "-sab":
            ops.append(("param", c, lay))
        for lay in "-sb":
            ops.append(("gl", c, lay))
        ops.append(("gt", c, "b"))
        ops.append(("loss", c, "b"))
        ops.append(("gl0", c, "a"))
    ops += [("split", 0, "-"), ("split", 1, "b"), ("target", 0, "a"), ("target", 1, "-"),
            ("raw", 0, "-"), ("tuple", 1, "-"), ("gt0", 0, "a"), ("attr", 0, "-"),
            ("attr", 0, "b")]
    return ops


NOCKPT = [("gln", 0, "-"), ("gtn", 0, "-"), ("gl0n", 0, "-"), ("gt0n", 0, "-"),
          ("gl", 0, "b"), ("gt", 1, "b"), ("gl0", 1, "-"), ("gt", 0, "-"), ("param", 1, "-"),
          ("loss", 0, "s"), ("attr", 0, "-")]


def cases(tier):
    for a in range(len(NOCKPT)):
        yield {"id": f"nockpt-{a}", "kind": "mlp", "form": "dict", "prefix": [a],
               "depth": 3 if tier == "quick" else 4, "nockpt": True}
    n = len(alphabet(tier))
    depth = 3 if tier == "quick" else 4
    for kind, form in (("mlp", "dict"), ("mlpfz", "path"), ("mlp", "func")):
        d = depth if form == "dict" else depth - 1
        for a in range(n):
            for b in range(n) if d > 2 else (None,):
                yield {"id": f"{form}-{kind}-{a}-{b}", "kind": kind, "form": form,
                       "prefix": [a] if b is None else [a, b], "depth": d,
                       "tier": tier}
    yield {"id": "handles", "what": "handles"}
    yield {"id": "shared", "what": "shared"}
    yield {"id": "errors", "what": "errors"}


_REF: dict = {}


def refs(kind):
    if kind not in _REF:
        _REF[kind] = {}
        for c in range(NCK):
            for lay, names in LAYERS.items():
                _REF[kind][c, lay] = M.Ref(kind, M.state(kind, c), names)
    return _REF[kind]


def new_task(kind, form, counter=None):
    cks = [M.state(kind, c) for c in range(NCK)]
    kw = {}
    if form == "path":
        out = []
        for i, ck in enumerate(cks):
            p = Path(os.environ.get("VERIF_SCRATCH", "/tmp")) / f"c11_{os.getpid()}_{kind}_{i}.pt"
            if not p.exists():
                torch.save(ck, p)
            out.append(str(p) if i == 0 else p)
        cks = out
    elif form == "func":
        def load(model, ck):
            del model  # like from_pretrained: a new model object every time
            new = M.build(kind)
            new.load_state_dict({k: v.clone() for k, v in ck["sd"].items()})
            return new
        cks = [{"sd": ck} for ck in cks]
        kw["checkpoints_load_func"] = load
    from dattri.task import AttributionTask

    m = M.build(kind)
    return AttributionTask(loss_func=M.FUNCS["ce"](m), model=m, checkpoints=cks,
                           target_func=M.FUNCS["margin"](m), **kw)


XY = M.samples(3, 1)
_VEC: dict = {}
_WANT: dict = {}


def probe(kind, c, lay):
    """A parameter vector that is not the checkpoint's own."""
    key = (kind, c, lay)
    if key not in _VEC:
        g = torch.Generator().manual_seed(sum(map(ord, lay)) + 31 * c)
        _VEC[key] = torch.randn(len(refs(kind)[c, lay].flat()), generator=g)
    return _VEC[key]


def want(kind, op):
    key = (kind, op)
    if key in _WANT:
        return _WANT[key]
    acc, c, lay = op
    acc = acc.rstrip("n")
    r = refs(kind)[c, lay]
    x, y = XY
    v = probe(kind, c, lay).double()
    if acc in ("param", "split"):
        w = r.flat()
    elif acc in ("gl", "gl0"):
        w = r.grads("ce", x, y, v)
    elif acc in ("gt", "gt0"):
        w = r.grads("margin", x, y, v)
    elif acc == "target":
        w = r.value("margin", x, y, v)
    elif acc in ("loss", "tuple", "raw"):
        w = r.value("ce", x, y, v)
    else:
        w = sum((i + 1) * refs(kind)[i, lay].grads("ce", x, y)
                @ refs(kind)[i, lay].grads("margin", x, y).T for i in range(NCK))
    _WANT[key] = w.detach()
    return _WANT[key]


def do(task, kind, op):
    acc, c, lay = op
    names = LAYERS[lay]
    names = list(names) if isinstance(names, list) else names
    x, y = XY
    v = probe(kind, c, lay)
    if kind == "mlpfz" and lay == "-":
        task.get_param(ckpt_idx=c)  # non-trainable parameters come from the model
    if acc == "param":
        return task.get_param(ckpt_idx=c, layer_name=names)[0]
    if acc == "split":
        ps, pmap = task.get_param(ckpt_idx=c, layer_name=names, layer_split=True)
        if len(ps) != len(pmap):
            raise AssertionError("layer map length differs from the parameter tuple")
        return torch.cat([p.reshape(-1) for p in ps])
    if acc in ("gl", "gt"):
        get = task.get_grad_loss_func if acc == "gl" else task.get_grad_target_func
        f = get(layer_name=names, ckpt_idx=c)
        return f(v, (x.unsqueeze(0), y.unsqueeze(0)))
    if acc in ("gl0", "gt0"):
        get = task.get_grad_loss_func if acc == "gl0" else task.get_grad_target_func
        f = get(in_dims=(None, 0), layer_name=names, ckpt_idx=c)
        return f(v, (x, y))
    if acc in ("gln", "gtn", "gl0n", "gt0n"):
        get = task.get_grad_loss_func if acc[:2] == "gl" else task.get_grad_target_func
        if "0" in acc:
            return get(in_dims=(None, 0))(v, (x, y))
        return get()(v, (x.unsqueeze(0), y.unsqueeze(0)))
    if acc == "loss":
        return task.get_loss_func(layer_name=names, ckpt_idx=c)(v, (x, y))
    if acc == "target":
        return task.get_target_func(layer_name=names, ckpt_idx=c)(v, (x, y))
    if acc == "raw":
        r = refs(kind)[c, lay]
        p = {k: t.float() for k, t in r.with_flat(v.double()).items()}
        return task.get_loss_func(flatten=False)(p, (x, y))
    if acc == "tuple":
        r = refs(kind)[c, lay]
        p = r.with_flat(v.double())
        return task.get_loss_func()(tuple(t.float().reshape(-1) for t in p.values()), (x, y))
    from dattri.algorithm.tracin import TracInAttributor
    from dattri.params.projection import TracInProjectionParams

    att = TracInAttributor(task, weight_list=torch.tensor([1.0, 2.0]),
                           normalized_grad=False, layer_name=names,
                           proj_params=TracInProjectionParams(proj_type="identity"))
    tr = M.loader(x, y, 2)
    return att.attribute(tr, M.loader(x, y, 3))


def holds(task, kind):
    """Which checkpoint's values the model holds (None: neither)."""
    sd = task.get_model().state_dict()
    for c in range(NCK):
        if all(torch.equal(sd[k], v) for k, v in M.state(kind, c).items()):
            return c
    return None


def run_history(case, ctx, ops, hist):
    task = new_task(case["kind"], case["form"])
    last = [None, None]
    ctx.execution()
    for i, o in enumerate(hist):
        op = ops[o]
        got = do(task, case["kind"], op)
        ctx.step()
        if op[0].startswith("gl"):
            last[0] = op
        if op[0].startswith("gt"):
            last[1] = op
        h = holds(task, case["kind"])
        ctx.state(f"{case['kind']}|{h}|{last}")
        if not ctx.close(f"answer:{'>'.join(str(ops[j]) for j in hist[:i + 1])}", got,
                         want(case["kind"], op), rtol=1e-3, atol=1e-5,
                         what=f"{op} after {[ops[j] for j in hist[:i]]}"):
            return False
        req = op[1] if op[0] in ("param", "split") or (
            op[2] != "-" and op[0] in ("gl", "gt", "gl0", "gt0", "loss", "target")) else None
        if req is not None and h != req:
            ctx.fail(f"model:{'>'.join(str(ops[j]) for j in hist[:i + 1])}",
                     f"after {op} the model holds checkpoint {h}")
            return False
    return True


def run(case, ctx):
    what = case.get("what")
    if what == "handles":
        return handles(ctx)
    if what == "shared":
        for a, b in itertools.product(range(4), repeat=2):
            shared({"a": a, "b": b}, ctx)
        return None
    if what == "errors":
        return errors(ctx)
    ops = NOCKPT if case.get("nockpt") else alphabet(case["tier"])
    rest = case["depth"] - len(case["prefix"])
    for suf in itertools.product(range(len(ops)), repeat=rest):
        if not run_history(case, ctx, ops, case["prefix"] + list(suf)):
            if len(ctx.failures) > 20:
                return
    ctx.count("histories", len(ops) ** rest)


def handles(ctx):
    """Functions obtained earlier and used later still belong to their checkpoint."""
    kind = "mlp"
    x, y = XY
    getters = {
        "gl": lambda t, n, c: (lambda f: lambda v: f(v, (x.unsqueeze(0), y.unsqueeze(0))))(
            t.get_grad_loss_func(layer_name=n, ckpt_idx=c)),
        "gt": lambda t, n, c: (lambda f: lambda v: f(v, (x.unsqueeze(0), y.unsqueeze(0))))(
            t.get_grad_target_func(layer_name=n, ckpt_idx=c)),
        "loss": lambda t, n, c: (lambda f: lambda v: f(v, (x, y)))(
            t.get_loss_func(layer_name=n, ckpt_idx=c)),
        "target": lambda t, n, c: (lambda f: lambda v: f(v, (x, y)))(
            t.get_target_func(layer_name=n, ckpt_idx=c)),
    }
    between = [("param", 0, "-"), ("param", 0, "b"), ("gl", 0, "a"), ("gt", 0, "b"),
               ("loss", 0, "b"), ("param", 1, "-"), ("gl", 1, "b"), ("attr", 0, "-")]
    for g, lay in itertools.product(getters, "-sab"):
        for r in range(3):
            for mid in itertools.product(between, repeat=r):
                task = new_task(kind, "dict")
                names = LAYERS[lay]
                f = getters[g](task, names, 0)
                for op in mid:
                    do(task, kind, op)
                got = f(probe(kind, 0, lay))
                ctx.execution()
                ctx.step(r + 2)
                held = holds(task, kind)
                key = "handle"
                if held != 0 and lay != "-":
                    r_ = refs(kind)[held, lay]
                    fn = r_.grads if g in ("gl", "gt") else r_.value
                    alt = fn("ce" if g in ("gl", "loss") else "margin", x, y,
                             probe(kind, 0, lay).double()).float()
                    if torch.allclose(got.reshape(alt.shape), alt, rtol=1e-3, atol=1e-5):
                        key = "stale-handle"  # frozen layers of the loaded checkpoint
                ctx.close(f"{key}:{g}:{lay}", got, want(kind, (g, 0, lay)), rtol=1e-3,
                          atol=1e-5, what=f"handle {g} {lay} after {mid}")


def shared(case, ctx):
    """Two tasks built on the same model object."""
    from dattri.task import AttributionTask

    kind = "mlp"
    ops = [("param", 0, "-"), ("param", 0, "b"), ("gl", 0, "a"), ("loss", 0, "b")]
    m = M.build(kind)
    t0 = AttributionTask(M.FUNCS["ce"](m), m, [M.state(kind, 0)])
    t1 = AttributionTask(M.FUNCS["ce"](m), m, [M.state(kind, 1)])
    a, b = ops[case["a"]], ops[case["b"]]
    ctx.close("first", do(t0, kind, a), want(kind, a), rtol=1e-3, what="first task")
    w1 = want(kind, (b[0], 1, b[2]))
    x, y = XY
    # the same request on the other task: its checkpoint 0 is state 1
    got = do(t1, kind, b) if b[0] == "param" else None
    if got is not None:
        ctx.close("second", got, w1, rtol=1e-3, what="second task")
    else:
        do(t1, kind, b)
    got = do(t0, kind, a)
    r1 = refs(kind)[1, a[2]]
    alt = {"param": lambda: r1.flat(), "gl": lambda: r1.grads(
        "ce", x, y, probe(kind, 0, a[2]).double()), "loss": lambda: r1.value(
        "ce", x, y, probe(kind, 0, a[2]).double())}[a[0]]().float()
    same = torch.allclose(got.reshape(alt.shape), alt, rtol=1e-3, atol=1e-5)
    ctx.close(f"first-sees-second:{a[0]}-{b[0]}" if same else "first-again", got, want(kind, a),
              rtol=1e-3, what=f"first task {a} after second task {b}")
    ctx.step(3)
    ctx.state(f"shared{a}{b}")


def errors(ctx):
    """Documented refusals."""
    task = new_task("mlp", "dict")
    for get in (task.get_loss_func, task.get_target_func):
        try:
            get(flatten=False, layer_name=["fc1.weight"], ckpt_idx=0)
            ctx.fail("unflattened-layer", "layer_name with flatten=False was accepted")
        except NotImplementedError:
            pass
        ctx.step()
    ps, pmap = task.get_param(0, layer_split=True)
    if list(pmap) != [0, 0, 1, 1]:
        ctx.fail("layer-map", f"layer map {pmap}")
    _, pmap = task.get_param(0, layer_split=True, param_layer_map=[0, 1, 1, 1])
    if list(pmap) != [0, 1, 1, 1]:
        ctx.fail("explicit-map", f"explicit layer map became {pmap}")
    try:
        task.get_param(0, layer_split=True, param_layer_map=[0, 1])
        ctx.fail("map-length", "layer map of the wrong length was accepted")
    except ValueError:
        pass
    ctx.step(3)
    # a single checkpoint given without a list
    t = M.make_task("mlp", M.state("mlp", 1))
    if len(t.get_checkpoints()) != 1:
        ctx.fail("single", f"{len(t.get_checkpoints())} checkpoints for a single dict")
    ctx.close("single-param", t.get_param(0)[0], refs("mlp")[1, "-"].flat(), rtol=1e-4)
    # target defaults to the loss
    ctx.close("default-target", t.get_target_func()(probe("mlp", 0, "-"), XY),
              want("mlp", ("loss", 0, "-")) if ("loss", 0, "-") else None, rtol=1e-3)
