#!/bin/bash
# run with cwd = the repository, after the build
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/_install" PYTHONDONTWRITEBYTECODE=1
cd /tmp && timeout 200 /opt/dwo-venv/bin/python "$D/demo.py"
