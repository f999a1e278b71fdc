#!/bin/bash
# Runs all the registered checks one after the other: tools/all.sh [tier] [ids...]
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}; shift
for id in ${*:-$(seq -f 'C%02g' 1 26)}; do
  ./run.py "$id" --tier "$tier" 2>/dev/null | tail -1
done
