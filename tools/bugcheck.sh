#!/bin/bash
# bugcheck.sh ID...   run the check of each planted bug's property against a scratch copy of /repo with the bug
# (ID@C07 runs the check of another property)
cd "$(dirname "$0")/.."
one() {
  id=${1%@*}
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  case $1 in *@*) p=${1#*@};; esac
  d=$(mktemp -d /tmp/bugcheckXXXX)
  cp -a /repo "$d/repo"
  git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff" || echo "$id does not apply"
  t0=$SECONDS
  out=$(VERIF_REPO="$d/repo" ./check $p); rc=$?
  echo "$id $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -E '^(counterexample|ERROR)' | head -2 | cut -c1-200)"
  rm -rf "${d:?}"
}
for id in "$@"; do one "$id"; done
