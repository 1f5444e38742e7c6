#!/bin/bash
# run.sh <property> <tier>
ulimit -s unlimited 2>/dev/null
exec python3-vt /verif/check.py "$1" --tier "${2:-quick}"
