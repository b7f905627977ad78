"""setup_cmd: nothing to build (pure Python); verifies the interpreter and imports."""

import os
import sys

sys.dont_write_bytecode = True
os.environ.update(CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1")
import torch  # noqa: E402
import dattri  # noqa: E402

print("torch", torch.__version__, "dattri at", dattri.__file__)
