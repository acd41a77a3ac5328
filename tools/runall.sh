#!/bin/bash
# runall.sh [tier] [ids...]: every harness, one line each
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
ids="$*"; [ -z "$ids" ] && ids=$(ls harness/c[0-9][0-9].py | sed 's/.*c\([0-9]*\).py/C\1/')
for c in $ids; do s=$(date +%s); /opt/venv/bin/python check.py $c --tier $tier >/tmp/runall.$c.txt 2>&1; echo $c rc=$? $(( $(date +%s)-s ))s $(grep -E "VIOLATION|inconcl" /tmp/runall.$c.txt | head -3 | cut -c1-250); done
