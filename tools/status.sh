#!/bin/bash
# obligations of every check on the current tree (development aid)
cd "$(dirname "$0")/.."
for f in rules/c[0-9]*.py; do p=$(basename $f .py); echo ${p^^}; done | xargs -P 8 -I{} sh -c 'SA_NOWRITE=1 timeout 900 python3 check.py {} 2>&1 | grep -E "obligations|VIOLATION|Error" | cut -c1-200; ' | sort
