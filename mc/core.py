"""Driver shared by all checks.

A check module (checks/cNN.py) provides

    PID, LEVEL, RULE                     identification
    cases(tier) -> iterable of dict      the complete bounded space, simplest first
    run(case, ctx)                       executes one case on the real code

Every case is a JSON-able description of one execution (a configuration, an
operation history, a schedule root, a crash point...), so that a violation can be
replayed on its own:  run.py CNN --replay FILE.

`ctx` collects what really happened: abstract states visited, transitions
executed, distinct observed outcomes, failures.
"""

from __future__ import annotations

import gc
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
MAX_REPORT = int(os.environ.get("VERIF_SHOW", "10"))


def digest(obj) -> str:
    """Short stable digest of a JSON-able / tensor-containing object."""
    h = hashlib.sha1()
    _feed(h, obj)
    return h.hexdigest()[:16]


def _feed(h, obj) -> None:
    import numpy as np
    import torch

    if isinstance(obj, torch.Tensor):
        a = obj.detach().cpu()
        if a.dtype == torch.bfloat16:
            a = a.float()
        a = a.numpy()
        h.update(str(a.shape).encode())
        if a.dtype.kind == "f":
            a = np.round(a.astype("float64"), 5) + 0.0
        h.update(np.ascontiguousarray(a).tobytes())
    elif isinstance(obj, np.ndarray):
        _feed(h, torch.as_tensor(obj))
    elif isinstance(obj, dict):
        for k in sorted(obj, key=str):
            h.update(str(k).encode())
            _feed(h, obj[k])
    elif isinstance(obj, (list, tuple)):
        h.update(b"[")
        for x in obj:
            _feed(h, x)
        h.update(b"]")
    else:
        h.update(repr(obj).encode())


class Ctx:
    """What one case observed."""

    def __init__(self, case: dict) -> None:
        self.case = case
        self.states: set = set()
        self.outcomes: set = set()
        self.transitions = 0
        self.executions = 0
        self.cover: dict = {}
        self.failures: list = []

    def state(self, obj) -> None:
        self.states.add(obj if isinstance(obj, str) else digest(obj))

    def step(self, n: int = 1) -> None:
        self.transitions += n

    def execution(self, n: int = 1) -> None:
        self.executions += n

    def outcome(self, obj) -> None:
        self.outcomes.add(obj if isinstance(obj, str) else digest(obj))

    def count(self, key: str, n: int = 1) -> None:
        self.cover[key] = self.cover.get(key, 0) + n

    def fail(self, key: str, msg: str, **detail) -> None:
        self.failures.append({"key": key, "msg": msg, "detail": detail})

    def close(self, key, got, want, rtol=1e-4, atol=1e-6, what="") -> bool:
        """Compare two tensors; report a failure when they differ."""
        import torch

        got = torch.as_tensor(got).detach().to(torch.float64)
        want = torch.as_tensor(want).detach().to(torch.float64)
        if tuple(got.shape) != tuple(want.shape):
            self.fail(key, f"{what} shape {tuple(got.shape)} expected "
                           f"{tuple(want.shape)}")
            return False
        if want.numel() == 0:
            return True
        odd = ~torch.isfinite(want)
        if not torch.equal(torch.isnan(got), torch.isnan(want)) or bool(
                (torch.nan_to_num(got)[odd] != torch.nan_to_num(want)[odd]).any()):
            self.fail(key, f"{what} NaN or infinity mismatch: got "
                           f"{got.flatten()[:6].tolist()} want {want.flatten()[:6].tolist()}")
            return False
        if bool(odd.all()):
            return True
        scale = float(want[~odd].abs().max())
        err = float((got - want)[~odd].abs().max())
        if not err <= atol + rtol * scale:
            self.fail(key, f"{what} differs: max err {err:.4g} (scale {scale:.4g}) got "
                           f"{got.flatten()[:6].tolist()} want "
                           f"{want.flatten()[:6].tolist()}")
            return False
        return True

    def pack(self) -> dict:
        return {
            "case": self.case,
            "states": self.states,
            "outcomes": self.outcomes,
            "transitions": self.transitions,
            "executions": self.executions,
            "cover": self.cover,
            "failures": self.failures,
        }


def _quiet() -> None:
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    os.environ["TQDM_DISABLE"] = "1"


def run_case(mod, case: dict) -> dict:
    """Run one case; again when the machine (not the code) had no thread left to give."""
    for wait in (15, 45, None):
        res = _run_case(mod, case)
        if wait is None or not any(NO_THREAD in str(f["msg"]) for f in res["failures"]):
            return res
        gc.collect()
        time.sleep(wait)
    return res


NO_THREAD = "can't start new thread"


def _run_case(mod, case: dict) -> dict:
    """Run one case in a fresh context; an unexpected exception is a failure."""
    import random

    import numpy as np
    import torch

    torch.manual_seed(0)
    np.random.seed(0)
    random.seed(0)
    ctx = Ctx(case)
    try:
        mod.run(case, ctx)
    except (Exception, SystemExit) as exc:  # noqa: BLE001
        tb = traceback.extract_tb(exc.__traceback__)
        where = [f"{Path(f.filename).name}:{f.name}" for f in tb][-4:]
        ctx.fail(
            f"exception:{type(exc).__name__}",
            f"{type(exc).__name__}: {str(exc)[:300]} at {' < '.join(reversed(where))}",
        )
    if ctx.executions == 0:
        ctx.executions = 1
    return ctx.pack()


_MOD = None


def _worker(chunk: list) -> list:
    return [run_case(_MOD, case) for case in chunk]


def _init_worker() -> None:
    import torch

    torch.set_num_threads(1)
    _quiet()
    sys.stderr = open(os.devnull, "w")  # noqa: SIM115


def load_known(pid: str) -> list:
    """Lines `finding: property=<id> key=<key> <text>` of known_findings.txt."""
    out = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == "finding:" \
                    and parts[1] == f"property={pid}" and parts[2].startswith("key="):
                out.append((parts[2][4:], parts[3]))
    return out


def fail_id(case: dict, f: dict) -> str:
    """Identity of a failure: the failing case plus what failed."""
    return f"{case.get('id', digest(case))}/{f['key']}".replace(" ", "_")


def is_known(fid: str, known: list) -> bool:
    return any(fid == k or (k.endswith("*") and fid.startswith(k[:-1])) for k, _ in known)


def main(mod, argv: list) -> int:
    global _MOD
    _MOD = mod
    _quiet()
    import torch

    torch.set_num_threads(1)
    pid = mod.PID
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--replay" in argv:
        data = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
        res = run_case(mod, data["case"])
        for f in res["failures"]:
            print("REPRODUCED", fail_id(data["case"], f), f["msg"])
        if not res["failures"]:
            print("not reproduced")
        return 1 if res["failures"] else 0

    t0 = time.time()
    all_cases = list(mod.cases(tier))
    if "--only" in argv:
        pat = argv[argv.index("--only") + 1]
        all_cases = [c for c in all_cases if pat in json.dumps(c)]
    if os.environ.get("VERIF_FAILFAST"):
        import random

        random.Random(1).shuffle(all_cases)
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "14000"))
    states, outcomes = set(), set()
    transitions = executions = ran = 0
    cover: dict = {}
    failures = []
    capped = False
    failfast = load_known(pid) if os.environ.get("VERIF_FAILFAST") else None
    serial = getattr(mod, "SERIAL", False)

    def absorb(res: dict) -> None:
        nonlocal transitions, executions, ran
        ran += 1
        states.update(res["states"])
        outcomes.update(res["outcomes"])
        transitions += res["transitions"]
        executions += res["executions"]
        for k, v in res["cover"].items():
            cover[k] = cover.get(k, 0) + v
        for f in res["failures"]:
            failures.append((res["case"], f))

    if serial or jobs <= 1:
        for c in all_cases:
            absorb(run_case(mod, c))
            if time.time() - t0 > budget:
                capped = True
                break
    else:
        ctxmp = mp.get_context("fork")
        chunk = getattr(mod, "CHUNK", None) or max(1, min(
            4 if os.environ.get("VERIF_FAILFAST") else 32, len(all_cases) // (jobs * 4)))
        sys.stdout.flush()
        pool = ctxmp.Pool(jobs, initializer=_init_worker,
                          maxtasksperchild=getattr(mod, "RECYCLE", None))
        try:
            chunks = [all_cases[i:i + chunk] for i in range(0, len(all_cases), chunk)]
            it = pool.imap(_worker, chunks)
            for _ in range(len(chunks)):
                left = budget - (time.time() - t0)
                try:
                    for res in it.next(timeout=max(1.0, left)):
                        absorb(res)
                    if failfast is not None and any(
                            not is_known(fail_id(c, f), failfast) for c, f in failures):
                        break
                except mp.TimeoutError:
                    capped = True
                    break
        finally:
            pool.terminate()
            pool.join()
    if capped:
        failures.append(({"id": "harness"}, {
            "key": "no-termination", "detail": {},
            "msg": f"exploration did not finish within {budget:.0f}s "
                   f"({ran}/{len(all_cases)} cases)"}))

    # extra checks over the whole run (e.g. coverage sanity)
    known = load_known(pid)
    hit_known: dict = {}
    new = []
    for case, f in failures:
        fid = fail_id(case, f)
        for key, text in known:
            if fid == key or (key.endswith("*") and fid.startswith(key[:-1])):
                hit_known[key] = text
                break
        else:
            new.append((case, f, fid))
    for key, text in known:
        if key in hit_known:
            print(f"KNOWN-FINDING: property={pid} {text} [{key}]")
    outdir = VERIF / "replays" / pid
    reported = 0
    for case, f, fid in new[:MAX_REPORT]:
        outdir.mkdir(parents=True, exist_ok=True)
        path = outdir / f"{digest([fid])}.json"
        path.write_text(json.dumps(
            {"property": pid, "id": fid, "case": case, "failure": f}, indent=1,
            default=str))
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {fid}: {f['msg']}")
        reported += 1
    if len(new) > reported:
        print(f"  ... and {len(new) - reported} more failing checks")

    wall = time.time() - t0
    samples = all_cases[:2] + all_cases[len(all_cases) // 2: len(all_cases) // 2 + 2] \
        + all_cases[-2:]
    samples = [json.loads(json.dumps(s, default=str)) for s in samples]
    cov = {"samples": samples, "exhaustive": not capped, "rule": mod.RULE,
           "cases": ran, "distinct_outcomes": len(outcomes)}
    if mod.LEVEL == "model_checking":
        cov.update(states=len(states), transitions=transitions,
                   traces_validated_against_impl=executions)
    else:
        cov.update(evaluations=executions, distinct_nontrivial=len(outcomes))
        if states:
            cov["states"] = len(states)
            cov["transitions"] = transitions
        del cov["distinct_outcomes"]
    cov.update({f"n_{k}": v for k, v in sorted(cover.items())})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": cov, "wall_s": round(wall, 2),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": len(new),
    }
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    if "--only" not in argv:
        (evdir / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    print(f"{pid} [{tier}] cases={ran} executions={executions} states={len(states)} "
          f"transitions={transitions} distinct_outcomes={len(outcomes)} "
          f"violations={len(new)} known={len(hit_known)} wall={wall:.1f}s "
          f"exhaustive={not capped}")
    for k, v in sorted(cover.items()):
        print(f"   {k}: {v}")
    return 1 if new else 0
