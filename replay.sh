#!/bin/bash
# replay.sh evidence/PXX.replay: run a reported counterexample on the library as it is now (exit 1: it still fails)
f=$(realpath "$1"); cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python3 engine/check.py --replay "$f"
