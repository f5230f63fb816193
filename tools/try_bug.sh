#!/bin/bash
# Development helper: try planted changes in a scratch copy of /repo (never in /repo itself).
#   try_bug.sh demo <id>...        demo.sh on the unchanged copy (must pass) and on the patched one (must fail)
#   try_bug.sh check <id> [P..]    run the property's (or the given) quick checks against the patched copy
#   try_bug.sh tests <id>...       run the stable tests with ALL given patches applied together
S=$(cd "$(dirname "$0")/../seeded" && pwd)
V=$(cd "$(dirname "$0")/.." && pwd)
mode=$1; shift
mk() { W=$(mktemp -d /tmp/bug.XXXXXX); cp -a /repo "$W/repo"; }
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3
case $mode in
demo)
  for id in "$@"; do mk
    D=$(mktemp -d /tmp/demo.XXXXXX); cp -a "$S/$id/." "$D"; rm -f "$D"/*.diff "$D"/meta.json
    ( cd "$W/repo" && PYTHONPATH="$W/repo" timeout 300 bash "$D/demo.sh" >"$W/o1" 2>&1 ); a=$?
    git -C "$W/repo" apply "$S/$id/patch.diff" || echo "PATCH FAILS $id"
    ( cd "$W/repo" && PYTHONPATH="$W/repo" timeout 300 bash "$D/demo.sh" >"$W/o2" 2>&1 ); b=$?
    if [ $a = 0 ] && [ $b != 0 ]; then echo "$id demo ok"; else echo "$id demo BAD clean=$a bug=$b"; tail -n 5 "$W/o1" "$W/o2"; fi
    rm -rf "$W" "$D"
  done;;
check)
  id=$1; shift; mk; git -C "$W/repo" apply "$S/$id/patch.diff" || echo "PATCH FAILS $id"
  P="$*"; [ -z "$P" ] && P=$(python3 -c "import json,sys;print(json.load(open('$S/$id/meta.json'))['property'])")
  cp -a "$V" "$W/verif"
  for p in $P; do VP_REPO="$W/repo" timeout 900 bash "$W/verif/run.sh" $p >"$W/o" 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -A1 -m1 VIOLATION "$W/o" | tail -1 | cut -c1-200)"; done
  rm -rf "$W";;
tests)
  mk; for id in "$@"; do git -C "$W/repo" apply "$S/$id/patch.diff" || echo "PATCH FAILS $id"; done
  sed "s#/repo#$W/repo#g; s#R=\$(mktemp -d .*#R=\$(mktemp -d $W/reports.XXXXXX)#" /opt/vp/test.sh > "$W/test.sh"
  ( cd "$W/repo" && PYTHONPATH="$W/repo" bash "$W/test.sh" "$W/out.json" )
  python3 - "$W/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
print("stable failing:", sorted(b-o)[:20])
P
  rm -rf "$W";;
esac
