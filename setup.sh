#!/bin/bash
# nothing to build: checks take /repo's sources directly; make sure the tools are there
set -e
python3-vt -c 'import pycparser, z3'
gcc --version >/dev/null
mkdir -p /verif/evidence
