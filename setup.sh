#!/bin/bash
# nothing to compile: the harness is Python run by the repository's own interpreter
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
/opt/venv/bin/python -B -c "import numpy, rx, matplotlib; print('setup ok')"
