#!/bin/bash
# Runs the check of a planted bug's property (or the checks given as further arguments)
# against a scratch copy of /repo that has the bug. usage: bugcheck.sh ID [CHECK...]
id=$1; shift
D=/tmp/bugcheck/$id; mkdir -p /tmp/bugcheck
[ -e "$D" ] && find "$D" -delete
git clone -q /repo "$D" && git -C "$D" apply -q "/verif/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; exit 9; }
[ $# -eq 0 ] && set -- "$(sed -n 's/.*"property": "\([^"]*\)".*/\1/p' "/verif/seeded/$id/meta.json")"
for c in "$@"; do
  out=$(SIM_REPO=$D SIM_REPLAYS=/tmp/bugcheck/replays timeout 900 python3 /verif/check.py "$c" 2>&1); rc=$?
  echo "$id $c rc=$rc $(echo "$out" | grep -m2 VIOLATION | cut -c1-220 | tr '\n' ' ')$([ $rc -eq 2 ] && echo "$out" | tail -3)"
done
find "$D" -delete
