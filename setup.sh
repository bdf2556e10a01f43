#!/bin/bash
# nothing to compile: verify the interpreter, the code under test and the bridge shim are usable
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
mkdir -p evidence
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, ".")
from mc import shim
shim.install()
import numpy as np, torch
t = torch.arange(6.).reshape(2, 3)
a = t.numpy(); a[0, 0] = 7
assert t[0, 0] == 7 and torch.tensor(np.float32([1, 2])).dtype == torch.float32
print("setup ok")
P
