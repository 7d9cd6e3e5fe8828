#!/bin/bash
# tryseed.sh ID [PROPERTY...]: run checks against a planted bug (applied to /repo and undone again).
cd "$(dirname "$0")/.." || exit 1
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  out=$(timeout 900 python3 bin/check.py "$p" 2>&1); code=$?
  echo "$id $p exit=$code $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^mismatch' | cut -c1-160)"
  [ $code -gt 1 ] && echo "$out" | tail -3 | cut -c1-600
done
