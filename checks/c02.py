"""C02: DataInf and EK-FAC scores against dense closed forms in float64."""

from __future__ import annotations

import itertools

import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

from mc import models as M

PID = "C02"
LEVEL = "exploration"
CHUNK = 1
RULE = ("every batch size of cached, training and test data x layer subset x bias layout x "
        "damping x checkpoints x call history in the alphabet; non-trivial = distinct "
        "score matrices")
ASSUMPTIONS = ["float32 attributors, float64 reference, damped (non-zero) regularisation",
               "DataInf layer = consecutive listed parameters of one module",
               "EK-FAC models with Linear layers; the cached loss is a mean over the batch"]

LAYERS = {"-": None, "a": ["fc1.weight", "fc1.bias"], "b": ["fc2.weight"], "s": "fc2.bias",
          "c": ["fc2.weight", "fc2.bias", "fc1.weight", "fc1.bias"],
          "d": ["fc1.weight", "fc2.weight"], "e": ["fc2.bias", "fc2.weight"], "n": ["fc1.weight"],
          "x": ["body.0.weight", "body.2.0.weight", "body.2.0.bias", "head.0.bias"],
          "y": ["body.2.0.bias", "gain", "body.0.bias"]}
TOL = {"rtol": 2e-3, "atol": 1e-4}


def cases(tier):
    n, m = (5, 3) if tier == "quick" else (7, 4)
    i = 0
    kinds = [("mlp", x) for x in "-absced"] + [("mlpnb", "-"), ("mlpnb", "n"), ("mlpmix", "-"), ("mlpfz", "-"),
                                               ("lin", "-"), *(("nest", x) for x in "-xy")]
    for (kind, lay), reg, nck in itertools.product(kinds, (0.05, 1.0), (1, 2)):
        i += 1
        yield {"id": f"datainf-{kind}{lay}-r{reg}-k{nck}", "att": "datainf", "kind": kind,
               "lay": lay, "reg": reg, "nck": nck, "cont": ("tuple", "list", "dict")[i % 3],
               "target": (None, "margin")[i % 2], "n": n, "m": m}
    for ratio, bc in itertools.product((0.2, 0.5, 0.67, 1.0), range(1, n + 1)):
        yield {"id": f"datainf-ratio{ratio}-b{bc}", "att": "datainf", "kind": "mlp", "lay": "-",
               "reg": 0.3, "nck": 1, "cont": "tuple", "target": None, "n": n, "m": m,
               "ratio": ratio, "bc": bc}
    for kind, mods, reg in itertools.product(
            ("mlp", "mlpnb", "mlpmix", "lin"), (None, "fc2", ["fc1"], ["fc2", "fc1"], ["fc"]),
            (0.05, 0.5)):
        if (mods == ["fc"]) != (kind == "lin") and mods is not None:
            continue
        i += 1
        yield {"id": f"ekfac-{kind}-{mods}-r{reg}", "att": "ekfac", "kind": kind, "mods": mods,
               "reg": reg, "nck": 1, "cont": ("tuple", "list")[i % 2],
               "target": (None, "margin")[i % 2], "n": n, "m": m}
    for mods, reg in itertools.product((None, "body.2.0", ["head.0", "body.0"]), (0.05, 0.5)):
        yield {"id": f"ekfac-nest-{mods}-r{reg}", "att": "ekfac", "kind": "nest", "mods": mods,
               "reg": reg, "nck": 1, "cont": "tuple", "target": "margin", "n": n, "m": m}
    for it, bc in itertools.product((1, 2, 3), range(1, n + 1)):
        yield {"id": f"ekfac-iter{it}-b{bc}", "att": "ekfac", "kind": "mlp", "mods": None,
               "reg": 0.3, "nck": 1, "cont": "tuple", "target": "margin", "n": n, "m": m,
               "it": it, "bc": bc}
    for att, kind, nck in (("datainf", "mlp", 5), ("datainf", "lin", 4), ("ekfac", "mlp", 1),
                           ("ekfac", "mlpmix", 1)):
        yield {"id": f"large-{att}-{kind}", "att": att, "kind": kind, "lay": "-", "mods": None,
               "reg": 0.3, "nck": nck, "cont": "tuple", "target": "margin", "n": 23, "m": 17,
               "large": True}
    yield {"id": "ekfac-seq", "att": "seq", "n": 4, "m": 3, "reg": 0.3}
    for att in ("datainf", "ekfac"):
        yield {"id": f"hist-{att}", "hist": True, "att": att, "kind": "mlp", "lay": "-",
               "mods": None, "reg": 0.3, "nck": 1 if att == "ekfac" else 2, "cont": "tuple",
               "target": "margin", "n": n, "m": m}


def ckpts(case):
    return [M.state(case["kind"], 3 + c, 0.6) for c in range(case["nck"])]


def attributor(case):
    from dattri.algorithm import influence_function as I

    task = M.make_task(case["kind"], ckpts(case), "ce", case["target"])
    if case["att"] == "datainf":
        lay = LAYERS[case["lay"]]
        return I.IFAttributorDataInf(task, layer_name=list(lay) if isinstance(lay, list) else lay,
                                     regularization=case["reg"],
                                     fim_estimate_data_ratio=case.get("ratio", 1.0))
    mods = case["mods"]
    return I.IFAttributorEKFAC(task, module_name=list(mods) if isinstance(mods, list) else mods,
                               damping=case["reg"])


def groups(names):
    out = []
    for i, k in enumerate(names):
        mod = k.rpartition(".")[0]
        if out and out[-1][0] == mod:
            out[-1][1].append(k)
        else:
            out.append((mod, [k]))
    return [g for _, g in out]


def ref_datainf(case, tr, te, full):
    tot = 0
    for ck in ckpts(case):
        base = M.Ref(case["kind"], ck, LAYERS[case["lay"]])
        for g in groups(base.names):
            r = M.Ref(case["kind"], ck, g)
            gc, gtr = r.grads("ce", *full), r.grads("ce", *tr)
            gte = r.grads(case["target"] or "ce", *te)
            lam = case["reg"]
            inv = 0
            for c in gc:
                inv = inv + (torch.eye(len(c), dtype=c.dtype)
                             - torch.outer(c, c) / (lam + c @ c)) / lam
            tot = tot + gtr @ (inv / len(gc)) @ gte.T
    return tot / case["nck"]


def kfac_stats(model, mods, func, full):
    """Per-sample (activation rows, output-gradient rows) of each chosen module."""
    cap, hs = {}, []
    for k in mods:
        def hook(mod, inp, out, k=k):
            a = inp[0]
            if mod.bias is not None:
                a = torch.cat([a, torch.ones(*a.shape[:-1], 1, dtype=a.dtype)], -1)
            out.retain_grad()
            cap[k] = (a, out)
        hs.append(model.get_submodule(k).register_forward_hook(hook))
    rows = []
    for x, y in zip(*full):
        model.zero_grad()
        func(dict(model.named_parameters()), (x[None], y[None])).backward()
        rows.append({k: (a.detach().reshape(-1, a.shape[-1]), o.grad.reshape(-1, o.shape[-1]))
                     for k, (a, o) in cap.items()})
    for h in hs:
        h.remove()
    model.zero_grad()
    return rows


def ekfac_inverse(rows, k, damping):
    """Dense inverse on the (out, in[+1]) matrix of module k, row-major."""
    a = sum(r[k][0].T @ r[k][0] for r in rows)
    s = sum(r[k][1].T @ r[k][1] for r in rows)
    qa, qs = torch.linalg.eigh(a)[1], torch.linalg.eigh(s)[1]
    lam = sum((qs.T @ (r[k][1].T @ r[k][0]) @ qa) ** 2 for r in rows) / len(rows)
    q = torch.kron(qs, qa)  # columns indexed (s, a)
    return q @ torch.diag(1 / (lam.reshape(-1) + damping)) @ q.T


def mod_grads(gr, model, k, names):
    """Columns of flat gradients belonging to module k, as (n, out, in[+1])."""
    shapes = dict(model.named_parameters())
    at, parts = 0, {}
    for nme in names:
        cnt = shapes[nme].numel()
        parts[nme] = gr[:, at:at + cnt].reshape(-1, *shapes[nme].shape)
        at += cnt
    w = parts[k + ".weight"]
    if k + ".bias" in parts:
        w = torch.cat([w, parts[k + ".bias"][..., None]], -1)
    return w.flatten(1)


def ref_ekfac(case, tr, te, full):
    ck = ckpts(case)[0]
    r = M.Ref(case["kind"], ck)
    mods = case["mods"] or [n for n, q in r.model.named_modules() if isinstance(q, nn.Linear)]
    mods = [mods] if isinstance(mods, str) else mods
    rows = kfac_stats(r.model, mods, M.FUNCS["ce"](r.model), (full[0].double(), full[1]))
    gtr, gte = r.grads("ce", *tr), r.grads(case["target"] or "ce", *te)
    tot = 0
    for k in mods:
        inv = ekfac_inverse(rows, k, case["reg"])
        tot = tot + mod_grads(gtr, r.model, k, r.names) @ inv @ \
            mod_grads(gte, r.model, k, r.names).T
    return tot


def reference(case, tr, te, full):
    return (ref_datainf if case["att"] == "datainf" else ref_ekfac)(case, tr, te, full)


def cache(att, case, full, bc):
    if case.get("it"):
        att.cache(M.loader(*full, bc, case["cont"]), max_iter=case["it"])
    else:
        att.cache(M.loader(*full, bc, case["cont"]))


def run(case, ctx):
    if case["att"] == "seq":
        return seq(case, ctx)
    tr, te = M.samples(case["n"], 0), M.samples(case["m"], 1)
    if case.get("hist"):
        return history(case, ctx, tr, te)
    if "ratio" in case or "it" in case:
        nb = -(-case["n"] // case["bc"])
        import math
        use = math.ceil(nb * case["ratio"]) if "ratio" in case else case["it"]
        full = tuple(z[: use * case["bc"]] for z in tr)
        want = reference(case, tr, te, full)
        att = attributor(case)
        cache(att, case, tr, case["bc"])
        got = att.attribute(M.loader(*tr, 2, case["cont"]), M.loader(*te, 2, case["cont"]))
        ctx.execution()
        ctx.outcome(got)
        ctx.close("partial", got, want, **TOL, what=f"batches used {use}")
        return None
    want = reference(case, tr, te, tr)
    big = case.get("large")
    for bc in (1, 2, 5, 11, 12, 23) if big else range(1, case["n"] + 1):
        att = attributor(case)
        cache(att, case, tr, bc)
        for btr, bte in ((1, 5), (3, 17), (10, 4), (12, 1), (23, 16)) if big else \
                itertools.product(range(1, case["n"] + 1), range(1, case["m"] + 1)):
            if not big and bc > 1 and (btr + bte + bc) % 3:
                continue
            got = att.attribute(M.loader(*tr, btr, case["cont"]),
                                M.loader(*te, bte, case["cont"]))
            ctx.execution()
            ctx.outcome(got)
            if not ctx.close("scores", got, want, **TOL, what=f"batches {bc},{btr},{bte}"):
                return None
        idx = [4, 0, 2]
        got = att.attribute(M.loader(tr[0][idx], tr[1][idx], 2, case["cont"]),
                            M.loader(*te, 2, case["cont"]))
        ctx.close("subset", got, want[idx], **TOL, what=f"cached batch {bc}")
    return None


def history(case, ctx, tr, te):
    """Only the last cache call matters."""
    sets = {"0": tr, "1": M.samples(4, 2), "2": M.samples(6, 4)}
    tests = {"x": te, "y": M.samples(2, 3)}
    want: dict = {}
    for hist in itertools.product(["c0", "c1", "c2", "ax", "ay"], repeat=4):
        if hist[0][0] != "c" or hist[-1][0] != "a":
            continue
        att = attributor(case)
        cur = None
        for i, o in enumerate(hist):
            ctx.step()
            if o[0] == "c":
                cur = o[1]
                cache(att, case, sets[cur], 2 + i % 2)
                continue
            key = (cur, i % 3, o[1])
            if key not in want:
                want[key] = reference(case, sets[str(i % 3)], tests[o[1]], sets[cur])
            got = att.attribute(M.loader(*sets[str(i % 3)], 2, case["cont"]),
                                M.loader(*tests[o[1]], 2, case["cont"]))
            if not ctx.close("history", got, want[key], **TOL, what=f"{hist[:i + 1]}"):
                return
            ctx.state([cur, o])
        ctx.execution()


class SeqNet(nn.Module):
    def __init__(self):
        super().__init__()
        self.fc1 = nn.Linear(2, 3)
        self.fc2 = nn.Linear(3, 2, bias=False)

    def forward(self, x):
        return self.fc2(torch.tanh(self.fc1(x)))


def seq(case, ctx):
    """Sequence inputs (batch, t, features)."""
    from dattri.algorithm.influence_function import IFAttributorEKFAC
    from dattri.task import AttributionTask

    torch.manual_seed(3)
    net = SeqNet()
    ck = {k: v.clone() for k, v in net.state_dict().items()}

    def make(model):
        def f(params, data):
            x, y = data
            x, y = x.reshape(-1, *x.shape[-2:]), y.reshape(-1, *y.shape[-2:])
            out = torch.func.functional_call(model, params, (x,))
            return ((out - y) ** 2).sum((-1, -2)).mean()
        return f

    for t in (1, 2, 4, 11):
        x, y = torch.randn(case["n"], t, 2), torch.randn(case["n"], t, 2)
        tx, ty = torch.randn(case["m"], t, 2), torch.randn(case["m"], t, 2)
        ref = SeqNet().double()
        ref.load_state_dict({k: v.double() for k, v in ck.items()})
        f = make(ref)
        rows = kfac_stats(ref, ["fc1", "fc2"], f, (x.double(), y.double()))
        names = [n for n, _ in ref.named_parameters()]

        def grads(xs, ys):
            out = []
            for a, b in zip(xs.double(), ys.double()):
                g = torch.autograd.grad(f(dict(ref.named_parameters()), (a[None], b[None])),
                                        list(ref.parameters()))
                out.append(torch.cat([z.flatten() for z in g]))
            return torch.stack(out)

        gtr, gte = grads(x, y), grads(tx, ty)
        want = sum(mod_grads(gtr, ref, k, names) @ ekfac_inverse(rows, k, case["reg"])
                   @ mod_grads(gte, ref, k, names).T for k in ("fc1", "fc2"))
        for bc, btr in itertools.product(range(1, case["n"] + 1), (1, 3, 4)):
            m = SeqNet()
            att = IFAttributorEKFAC(AttributionTask(make(m), m, [ck]), damping=case["reg"])
            att.cache(DataLoader(TensorDataset(x, y), batch_size=bc))
            got = att.attribute(DataLoader(TensorDataset(x, y), batch_size=btr),
                                DataLoader(TensorDataset(tx, ty), batch_size=2))
            ctx.execution()
            ctx.outcome(got)
            ctx.close("seq", got, want, **TOL, what=f"t={t} cached batch {bc} train {btr}")
