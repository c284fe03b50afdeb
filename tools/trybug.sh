#!/bin/bash
# trybug.sh ID...: runs each planted bug's property's quick check against a
# scratch copy of /repo with the bug applied (PROP=Cxx: another property's).
here=$(cd "$(dirname "$0")/.." && pwd)
try() {
  id=$1
  p=${PROP:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "${SEED:-$here/seeded}/$id/meta.json")}
  w=$(mktemp -d /tmp/trybug.XXXXXX)
  git clone -q /repo "$w/repo"
  git -C "$w/repo" apply "${SEED:-$here/seeded}/$id/patch.diff" || { echo "$id does not apply"; rm -rf "$w"; return; }
  mkdir "$w/verif"
  cp -r "$here/harness" "$here/check.sh" "$here/known_findings.txt" "$w/verif/"
  sed -i "s#/repo#$w/repo#g" "$w/verif/check.sh" "$w/verif/harness/go.mod"
  out=$(bash "$w/verif/check.sh" "$p" "${TIER:-quick}" 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c "VIOLATION property=$p ") violation lines"
  [ -n "$V" ] && echo "$out" | tail -20
  rm -rf "$w"
}
for id in "$@"; do try "$id"; done
