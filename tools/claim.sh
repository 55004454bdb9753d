#!/bin/sh
# claim.sh ID [n]: record the last n /repo commits as fixed for ID, regenerate, commit
cd "$(dirname "$0")/.." || exit 1
id=$1; n=${2:-0}
if [ "$n" -gt 0 ]; then for h in $(git -C ${VERIF_REPO:-/repo} log --format=%h --reverse -"$n"); do echo "fixed: property=$id $h $(git -C ${VERIF_REPO:-/repo} log -1 --format=%s "$h" | sed 's/^fix: //')" >> known-findings.txt; done; fi
python3 tools/props.py >/dev/null && python3 tools/genmanifest.py && python3 tools/gendesign.py && git add -A && git commit -qm "$id: check" && git status --short | head -3
