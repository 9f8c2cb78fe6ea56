#!/bin/bash
# one-time sanity of the toolchain: every module parses, the code under test is importable
cd "$(dirname "$0")/../spec" || exit 1
for m in *.tla; do
  out=$(tla-sany "$m" 2>&1) || { echo "$out"; exit 1; }
done
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0,'/repo'); import salabim" || exit 1
echo "setup ok"
