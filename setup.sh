#!/bin/bash
# Nothing to build: the checks regenerate their encoding from /repo on every run.  Verifies the toolchain is there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from symx import core
import z3; print('z3', z3.get_version_string())"
