#!/bin/bash
# check.sh PXX quick|thorough
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python3 engine/check.py "$1" --tier "${2:-quick}" "${@:3}"
