#!/bin/bash
# run every registered check: ./runall.sh [quick|thorough]
cd "$(dirname "$0")"
for f in harness/P*.cc; do p=$(basename $f .cc); ./check.sh $p ${1:-quick} 2>&1 | tail -${2:-3}; done
