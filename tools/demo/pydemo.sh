#!/bin/bash
# Runs demo.py against the built tree in an empty scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
R=$PWD
cd "$T" && PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION=python REPO_SRC="$R/src" PYTHONPATH="$R/src" \
  timeout 200 /opt/venv/bin/python -B "$D/demo.py"
