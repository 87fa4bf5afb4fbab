#!/bin/bash
# Nothing is compiled: verify that the interpreter and Hypothesis are there.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
mkdir -p "$HERE/evidence" "$HERE/replays"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$HERE:$HERE/vendor /opt/venv/bin/python -c \
  "import hypothesis, numpy, scipy, spglib, torch, pymatgen.core, rnv.core; print('ready')"
