#!/bin/sh
# fixed.sh ID hash...: record /repo commits as repaired defects of a property
cd "$(dirname "$0")/.." || exit 1
id=$1; shift
for h in "$@"; do echo "fixed: property=$id $(git -C ${VERIF_REPO:-/repo} log -1 --format='%h %s' "$h" | sed 's/ fix: / /')" >> known-findings.txt; done
