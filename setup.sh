#!/bin/bash
# Prepare /verif in a fresh sandbox: unpack Hypothesis for the interpreter that runs the
# code under test (offline), and check that it and the code under test import.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here"
mkdir -p evidence replays
if [ ! -d .deps/hypothesis ]; then
  /opt/venv/bin/python -m pip install -q --no-index --no-deps --find-links /opt/veriftools/wheels \
     --target .deps hypothesis sortedcontainers \
     || echo "setup: wheelhouse install failed; falling back to the tools' site-packages" >&2
fi
PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import lib.hyp, hypothesis; print('hypothesis', hypothesis.__version__, hypothesis.__file__)"
