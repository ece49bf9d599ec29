#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC, the drivers import /repo directly.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence
for t in java /opt/venv/bin/python python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
PYTHONPATH=/repo TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import tensornetwork, numpy" || exit 1
exit 0
