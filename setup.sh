#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree each time they run.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, scipy, pandas, yaml, pyvalem" || exit 1
for f in mc/*.py mc/checks/*.py; do
    PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; compile(open(sys.argv[1]).read(), sys.argv[1], 'exec')" "$f" || exit 1
done
echo ready
