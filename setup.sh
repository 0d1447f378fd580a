#!/bin/sh
# nothing to build: the machinery is Python and imports /repo at run time
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -c "import pandas, tables, numpy, scipy, sympy, cloudpickle"
echo "setup ok"
