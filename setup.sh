#!/bin/bash
# builds the clang-based exporter (engine/export.cc) into /verif/.cache
cd "$(dirname "$0")" || exit 1
python3 - <<'PY'
import sys
sys.argv = ['check.py']
import check
print('exporter', check.exporter())
PY
