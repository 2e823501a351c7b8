#!/bin/bash
# Prepares the framework: makes sure the native extensions of /repo's current tree can be built and imported.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8 PYTHONWARNINGS=ignore
export MPLCONFIGDIR="$PWD/.build/mpl"
mkdir -p .build/mpl evidence
exec /opt/venv/bin/python -c "
from mc import native
native.install(controlled=True)
import rankeval.dataset, rankeval.model, rankeval.metrics, matplotlib.pyplot
print('setup ok')"
