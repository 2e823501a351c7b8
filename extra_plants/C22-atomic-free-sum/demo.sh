#!/bin/bash
# Run with cwd = the repository: exit 0 when the property holds for this input.
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$work" RANKEVAL_DATA="$work/data" WORK="$work" PYTHONWARNINGS=ignore
OMP_NUM_THREADS=4 timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
