#!/bin/bash
# seed.sh ID...: confirms seeded changes in a scratch copy of /repo (builds, stable tests pass, demo passes without and fails with
# the patch) and reports whether the property's check catches each one. Development tool; no check uses it.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$here/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$w/repo"; mkdir "$w/demo"; cp -a "$d"/. "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
  res="$id $prop:"
  (cd "$w/repo" && bash "$w/demo/demo.sh") >"$w/d0" 2>&1 && res="$res demo0=ok" || { res="$res demo0=FAIL"; tail -20 "$w/d0"; }
  if ! git -C "$w/repo" apply "$d/patch.diff"; then echo "$res patch=FAIL"; rm -rf "$w"; continue; fi
  (. /opt/vp/env.sh; cd "$w/repo" && go build ./... ) >"$w/b" 2>&1 && res="$res build=ok" || { res="$res build=FAIL"; tail "$w/b"; }
  (cd "$w/repo" && bash "$w/demo/demo.sh") >"$w/d1" 2>&1 && { res="$res demo1=PASS(bad)"; } || res="$res demo1=fails"
  grep -qE 'build failed|cannot find|undefined:' "$w/d1" && { res="$res demo1=BUILDERR"; tail "$w/d1"; }
  if [ -z "${NOTEST:-}" ]; then
    bash "$here/tools/stable.sh" "$w/repo" >"$w/t" 2>&1 && res="$res tests=ok" || { res="$res tests=FAIL"; tail -5 "$w/t"; }
  fi
  if [ -z "${NOCHECK:-}" ]; then
    s=$(date +%s)
    (cd "$here" && VERIF_TIER=quick VERIF_SEED=1 VERIF_REPO="$w/repo" ./check.sh "$prop") >"$w/c" 2>&1; rc=$?
    res="$res check=rc$rc $(( $(date +%s)-s ))s $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' "$w/c") $(grep -A1 -m1 VIOLATION "$w/c" | tail -1 | cut -c1-150)"
  fi
  echo "$res"
  rm -rf "$w"
done
