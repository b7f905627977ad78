"""C29: the retraining commands train exactly the requested partition.

Both command-line entry points run in-process with a stand-in dataset, training function
and (for nanoGPT) subprocess that record what they are asked to do.
"""

from __future__ import annotations

import contextlib
import importlib
import io
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

import torch
import yaml
from torch.utils.data import TensorDataset

PID = "C29"
LEVEL = "exploration"
SERIAL = False
RULE = ("every (data set size, sample limit, mode, start, end, total, order of the parts, "
        "seed, extra parameters) in the bounds through the real command-line entry points; "
        "non-trivial = distinct sets of trained models")
ASSUMPTIONS = ["the sample limit does not exceed the data set",
               "the subset count of a part divides the total (others are refused)"]


def cases(tier):
    top = 5 if tier == "quick" else 7
    for n in range(3, top + 1):
        for sub in (-1, *range(2, n + 1)):
            yield {"id": f"loo-n{n}-s{sub}", "kind": "loo", "n": n, "sub": sub}
    for total in (1, 2, 3, 4, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8, 9):
        for n, sub in ((4, -1), (5, 3), (5, 5)):
            yield {"id": f"lds-t{total}-n{n}-s{sub}", "kind": "lds", "total": total,
                   "n": n, "sub": sub}
    yield {"id": "extra", "kind": "extra"}
    yield {"id": "usage", "kind": "usage"}
    yield {"id": "default", "kind": "default"}
    for ds in ("shakespeare_char", "tinystories"):
        yield {"id": f"prepare-{ds}", "kind": "prepare", "ds": ds}
    for total in range(1, 5 if tier == "quick" else 7):
        for ds in ("shakespeare_char", "tinystories"):
            yield {"id": f"gpt-{ds}-t{total}", "kind": "gpt", "total": total, "ds": ds}


NOW: dict = {}


def _create(path, *a, **kw):
    NOW["asked"].append(path)
    return NOW["data"], NOW["data"]


def _train(*a, **kw):
    return NOW["trainer"](*a, **kw)


@contextlib.contextmanager
def patched(n, trainer, asked=None):
    """The command module with the MNIST logistic-regression setting replaced."""
    if "mod" not in NOW:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            mnist = importlib.import_module("dattri.benchmark.datasets.mnist")
            _create.__name__, _train.__name__ = "create_mnist_dataset", "train_mnist_lr"
            mnist.create_mnist_dataset, mnist.train_mnist_lr = _create, _train
            mnist.train_mnist_mlp = _train
            sys.modules.pop("dattri.script.dattri_retrain", None)
            NOW["mod"] = importlib.import_module("dattri.script.dattri_retrain")
    NOW.update(trainer=trainer, asked=[] if asked is None else asked,
               data=TensorDataset(torch.arange(n).float()[:, None]))
    yield NOW["mod"]


def call(mod, *argv):
    old = sys.argv
    sys.argv = ["dattri_retrain", *map(str, argv)]
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            mod.main()
    finally:
        sys.argv = old


def fresh():
    return tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))


def ids_of(model):
    seen = model["seen"] if isinstance(model, dict) else model.seen
    return sorted(i for i, v in enumerate(seen.tolist()) for _ in range(int(v)))


def size_of(case):
    return case["n"] if case["sub"] < 0 else case["sub"]


def splits(total):
    """All ways to cut range(total) into consecutive parts."""
    for cuts in itertools.product((0, 1), repeat=total - 1):
        edges = [0] + [i + 1 for i, c in enumerate(cuts) if c] + [total]
        yield list(zip(edges, edges[1:]))


def loo(case, ctx):
    from mc.retrain import Trainer

    n, m = case["n"], size_of(case)
    common = ["--dataset", "mnist", "--model", "lr", "--mode", "loo", "--train_subset",
              case["sub"]]
    jobs = [None] + list(splits(m))
    for q, parts in enumerate(jobs):
        for third, model in (("none", "lr"), (m, "mlp")):
            path, tr = fresh(), Trainer()
            common[3] = model
            runs = []
            with patched(n, tr) as mod:
                for s, e in parts or [(0, m)]:
                    extra = [] if parts is None else ["--partition", f"{s},{e},{third}"]
                    seed = 3 + q % 2
                    call(mod, *common, "--save_path", path, "--data_path", path + "/d",
                         "--seed", seed, *extra)
                    ctx.step()
                    runs += [(i, seed) for i in range(s, e)]
            ctx.execution()
            what = f"{n} samples, limit {case['sub']}, parts {parts}"
            want = [sorted(set(range(m)) - {i}) for i, _ in runs]
            if [sorted(r[0]) for r in tr.runs] != want:
                ctx.fail("loo-trained-on", f"{what}: {[sorted(r[0]) for r in tr.runs]} "
                                           f"expected {want}")
                return
            if [(r[1], r[2]) for r in tr.runs] != [(s, {"device": "cpu"})
                                                   for _, s in runs]:
                ctx.fail("loo-arguments", f"{what}: {[r[1:] for r in tr.runs]}")
            dirs = {d for d in os.listdir(path) if d.startswith("index_")}
            if dirs != {f"index_{i}" for i in range(m)}:
                ctx.fail("loo-directories", f"{what}: {sorted(dirs)}")
                return
            for i in range(m):
                got = ids_of(torch.load(os.path.join(path, f"index_{i}",
                                                     "model_weights.pt"),
                                        weights_only=False))
                if got != sorted(set(range(m)) - {i}):
                    ctx.fail("loo-stored", f"{what}: index_{i} holds a model of {got}")
            ctx.outcome([sorted(r[0]) for r in tr.runs])
            shutil.rmtree(path)


def lds(case, ctx):
    from mc.retrain import Trainer

    n, m, total = case["n"], size_of(case), case["total"]
    common = ["--dataset", "mnist", "--model", "lr", "--mode", "lds", "--train_subset",
              case["sub"]]
    for seed, runs in itertools.product((0, 5), (1, 2)):
        base = None
        for per in [k for k in range(1, total + 1) if total % k == 0]:
            starts = list(range(0, total, per))
            for order in (starts, starts[::-1]):
                path, tr = fresh(), Trainer()
                with patched(n, tr) as mod:
                    for s in order:
                        call(mod, *common, "--save_path", path, "--data_path", path + "/d",
                             "--seed", seed, "--partition", f"{s},{s + per},{total}",
                             "--extra_param", f"num_runs_per_subset={runs}",
                             "--device", "cpu:0")
                        ctx.step()
                ctx.execution()
                what = f"{n} samples, limit {case['sub']}, {total} subsets by {per}"
                if len(tr.runs) != total * runs or len({r[1] for r in tr.runs}) \
                        != len(tr.runs) or any(r[2] != {"device": "cpu:0"}
                                               for r in tr.runs):
                    ctx.fail("lds-runs", f"{what}: {tr.runs}")
                    return
                got = {}
                for i in range(total):
                    with open(os.path.join(path, str(i), "indices.txt")) as f:
                        pos = [int(x) for x in f.read().split()]
                    if len(set(pos)) != m // 2 or len(pos) != m // 2 \
                            or not set(pos) <= set(range(m)):
                        ctx.fail("lds-indices", f"{what}: subset {i} lists {pos}")
                        return
                    for j in range(runs):
                        seen = ids_of(torch.load(os.path.join(
                            path, str(i), f"model_weights_{j}.pt")))
                        if seen != sorted(pos):
                            ctx.fail("lds-stored", f"{what}: subset {i} run {j} trained "
                                                   f"on {seen}, recorded {pos}")
                            return
                    got[i] = pos
                if {d for d in os.listdir(path) if d.isdigit()} != {
                        str(i) for i in range(total)}:
                    ctx.fail("lds-directories", f"{what}: {sorted(os.listdir(path))}")
                if base is None:
                    base = got
                elif got != base:
                    ctx.fail("lds-partition", f"{what}: subsets {got} differ from one run's "
                                              f"{base}")
                    return
                if order == starts:
                    meta_file = os.path.join(path, "metadata.yml")
                    meta = {}
                    if os.path.exists(meta_file):
                        with open(meta_file) as f:
                            meta = yaml.safe_load(f)
                    if meta.get("num_subsets") != total \
                            or meta.get("num_runs_per_subset") != runs:
                        ctx.fail("lds-metadata", f"{what}: {meta}")
                ctx.outcome(sorted(got.items()))
                shutil.rmtree(path)


def extra(case, ctx):
    """Extra parameters reach the retraining function with their values."""
    from mc.retrain import Trainer

    common = ["--dataset", "mnist", "--model", "lr", "--mode", "lds", "--train_subset", -1,
              "--partition", "0,2,2"]
    for n, ratio in itertools.product((4, 5, 8), ("0.5", "0.25", "0.75", "1", "1.0")):
        path, tr = fresh(), Trainer()
        with patched(n, tr) as mod:
            call(mod, *common, "--save_path", path, "--data_path", path,
                 "--extra_param", f"subset_ratio={ratio}", "--extra_param", "epoch_num=3",
                 "--extra_param", "lr=0.125", "--extra_param", "name=a=b",
                 "--extra_param", "opt=adam")
        ctx.execution()
        ctx.step()
        want = {"device": "cpu", "epoch_num": 3, "lr": 0.125, "name": "a=b", "opt": "adam"}
        if [len(r[0]) for r in tr.runs] != [int(n * float(ratio))] * 2:
            ctx.fail("ratio", f"{n} samples, ratio {ratio}: trained on {tr.runs}")
        if any(r[2] != want or type(r[2]["epoch_num"]) is not int for r in tr.runs):
            ctx.fail("values", f"{tr.runs[0][2]} expected {want}")
        ctx.outcome([len(r[0]) for r in tr.runs])
        shutil.rmtree(path)


def default(case, ctx):
    """Without a partition the lds command trains 100 subsets of half the samples."""
    from mc.retrain import Trainer

    for n, sub, argv in ((4, -1, []), (9, 6, []), (5, 4, ["--seed", 3])):
        path, tr = fresh(), Trainer()
        with patched(n, tr) as mod:
            call(mod, "--dataset", "mnist", "--model", "lr", "--mode", "lds", "--train_subset",
                 sub, "--save_path", path, "--data_path", path, *argv)
        ctx.execution()
        ctx.step()
        m = n if sub < 0 else sub
        dirs = sorted(int(d) for d in os.listdir(path) if d.isdigit())
        with open(os.path.join(path, "metadata.yml")) as f:
            meta = yaml.safe_load(f)
        if dirs != list(range(100)) or len(tr.runs) != 100 or meta.get("num_subsets") != 100:
            ctx.fail("default", f"{len(tr.runs)} trainings, {len(dirs)} subsets, {meta}")
        if any(len(set(r[0])) != m // 2 or not set(r[0]) <= set(range(m)) for r in tr.runs):
            ctx.fail("default-size", f"{[r[0] for r in tr.runs][:5]} of {m} samples")
        ctx.outcome([r[0] for r in tr.runs])
        shutil.rmtree(path)


def usage(case, ctx):
    """Incomplete or refused command lines train nothing."""
    from mc.retrain import Trainer

    full = {"--dataset": "mnist", "--model": "lr", "--mode": "lds"}
    for drop in full:
        path, tr, asked = fresh(), Trainer(), []
        with patched(4, tr, asked) as mod:
            call(mod, *[z for k, v in full.items() if k != drop for z in (k, v)],
                 "--save_path", path)
        ctx.execution()
        if tr.runs or asked or os.listdir(path):
            ctx.fail("incomplete", f"without {drop}: trained {len(tr.runs)} models")
    for part in ("0,2", "0,2,3,4", "0,3,4", "1,2,2,"):
        path, tr = fresh(), Trainer()
        with patched(4, tr) as mod:
            try:
                call(mod, *[z for kv in full.items() for z in kv], "--train_subset", -1,
                     "--save_path", path, "--partition", part)
                ctx.fail("accepted", f"partition {part} accepted")
            except (SystemExit, ValueError):
                pass
        ctx.execution()
        if tr.runs:
            ctx.fail("refused-trained", f"partition {part}: trained {len(tr.runs)} models")
    ctx.outcome("usage")


class FakeRun:
    """Stands in for subprocess.run: keeps each training configuration."""

    def __init__(self):
        self.configs, self.others, self.files, self.early = [], [], [], True

    def __call__(self, command, *a, **kw):
        words = command.split() if isinstance(command, str) else [str(c) for c in command]
        cfg = [w for w in words if w.endswith("train.py")]
        if cfg:
            name = words[words.index(cfg[0]) + 1]
            ns: dict = {}
            with open(name) as f:
                exec(f.read(), {}, ns)  # noqa: S102 - the script's own configuration
            self.configs.append(ns)
            self.files.append(name)
            if not os.path.exists(os.path.join(os.getcwd(), "train.py")):
                self.others.append("train.py not in " + os.getcwd())
        else:
            self.others.append(" ".join(words))
            self.early = self.early and not self.configs
        return subprocess.CompletedProcess(command, 0)


def gpt_run(argv):
    from dattri.script import dattri_retrain_nanogpt as mod

    fake, cwd, old = FakeRun(), os.getcwd(), subprocess.run
    subprocess.run = fake
    try:
        call(mod, *argv)
    finally:
        subprocess.run = old
        os.chdir(cwd)
    return fake


def gpt(case, ctx):
    total, ds = case["total"], case["ds"]
    base: dict = {}
    for ratio, seed in ((0.5, 42), (1.0, 7)):
        for parts in [*splits(total), [(0, total + 2)], None]:
            if parts is None and total != 1:
                continue
            path = fresh()
            seen: dict = {}
            for s, e in parts or [(0, 5)]:
                argv = ["--dataset", ds, "--save_path", path, "--seed", seed,
                        "--subset_ratio", ratio]
                if parts is not None:
                    argv += ["--partition", s, e, total]
                fake = gpt_run(argv)
                ctx.step()
                end = min(e, total) if parts is not None else 5
                what = f"{ds} part [{s}, {e}, {total}] ratio {ratio}"
                want = [os.path.join(path, f"model_{i + 1}") for i in range(s, end)]
                if [c["out_dir"] for c in fake.configs] != want:
                    ctx.fail("gpt-dirs", f"{what}: {[c['out_dir'] for c in fake.configs]}")
                    return
                for i, c in zip(range(s, end), fake.configs):
                    if c["subset_ratio"] != ratio or c["dataset_path"].split("/")[-1] != ds:
                        ctx.fail("gpt-config", f"{what}: {c}")
                    seen[i] = c["seed"]
                if any(o.startswith("train.py") for o in fake.others):
                    ctx.fail("gpt-cwd", f"{what}: {fake.others}")
                if any(os.path.exists(f) for f in fake.files):
                    ctx.fail("gpt-left", f"{what}: left {fake.files}")
            ctx.execution()
            if len(set(seen.values())) != len(seen):
                ctx.fail("gpt-seeds", f"{ds} parts {parts}: seeds {seen}")
            for i, s in seen.items():
                if base.setdefault((seed, i), s) != s:
                    ctx.fail("gpt-partition", f"{ds} parts {parts}: model {i} has seed {s}, "
                                              f"in one run {base[seed, i]}")
            ctx.outcome(sorted(seen.items()))
            shutil.rmtree(path)
    for bad in (0, -0.5, 1.5):
        try:
            fake = None
            fake = gpt_run(["--dataset", ds, "--subset_ratio", bad])
            ctx.fail("gpt-accepted", f"subset ratio {bad} accepted: "
                                     f"{len(fake.configs)} models trained")
        except (ValueError, SystemExit):
            pass
    fake = gpt_run(["--dataset", ds, "--only_download_dataset"])
    if fake.configs:
        ctx.fail("gpt-download", f"only downloading trained {len(fake.configs)} models")


def prepare(case, ctx):
    """A dataset that is not there is prepared first and once, one that is there is not."""
    from dattri.script import dattri_retrain_nanogpt as mod

    cfg = os.path.join(os.path.dirname(mod.__file__), "..", "benchmark", "models", "nanoGPT",
                       "config", f"train_{case['ds']}.py")
    for there, name, only, end in itertools.product((False, True), (None, "some.txt"),
                                                    (False, True), (0, 2)):
        path = fresh()
        if there:
            open(os.path.join(path, "meta.pkl"), "w").close()
        fake, cwd, old = FakeRun(), os.getcwd(), subprocess.run
        subprocess.run = fake
        try:
            mod.retrain(3, 0.5, os.path.realpath(cfg), path, name, path, [0, end, 2], only)
        finally:
            subprocess.run = old
            os.chdir(cwd)
        ctx.execution()
        ctx.step()
        what = f"dataset there {there}, file {name}, only download {only}"
        made = [o.split() for o in fake.others if "prepare.py" in o]
        if len(made) != (not there) or not fake.early or any(
                (name is not None) != ("some.txt" in " ".join(w)) or
                not any(os.path.realpath(z) == os.path.realpath(os.path.join(path, "prepare.py"))
                        for z in w) for w in made):
            ctx.fail("gpt-prepare", f"{what}: ran {fake.others}")
        if len(fake.configs) != (0 if only else end):
            ctx.fail("gpt-prepare-train", f"{what}: trained {len(fake.configs)} models")
        ctx.outcome([there, name, only, made != []])
        shutil.rmtree(path)


def run(case, ctx):
    {"loo": loo, "lds": lds, "extra": extra, "usage": usage, "gpt": gpt, "default": default,
     "prepare": prepare}[case["kind"]](case, ctx)
