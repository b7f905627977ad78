"""Entry point of every check:  run.py CNN [--tier quick|thorough] [--replay FILE]."""

import os
import sys

os.environ.update(
    PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1",
    MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TORCHDYNAMO_DISABLE="1",
    TORCH_COMPILE_DISABLE="1", HF_HUB_OFFLINE="1", TQDM_DISABLE="1",
)
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]


def _entry() -> int:
    import importlib
    import shutil
    import tempfile
    import traceback

    pid = sys.argv[1].upper()
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    os.environ["VERIF_SCRATCH"] = scratch
    cwd = os.path.join(scratch, "cwd")
    os.makedirs(cwd)
    args = [os.path.abspath(a) if i and sys.argv[1 + i] == "--replay" else a
            for i, a in enumerate(sys.argv[2:])]
    os.chdir(cwd)  # nothing the code writes relative to "." reaches /verif or /repo
    parent = os.getpid()
    try:
        try:
            import dattri

            if not os.path.realpath(dattri.__file__).startswith(os.path.realpath(REPO)):
                print("dattri is not imported from", REPO)
                return 2
            from mc import core

            mod = importlib.import_module(f"checks.{pid.lower()}")
        except Exception as exc:  # the tree under test does not even import
            traceback.print_exc()
            print(f"VIOLATION property={pid} replay=import")
            print(f"  import failed: {exc}")
            return 1
        return core.main(mod, args)
    finally:
        if os.getpid() == parent:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    rc = _entry()
    sys.stdout.flush()
    os._exit(rc)
