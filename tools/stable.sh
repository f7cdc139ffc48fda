#!/bin/bash
# stable.sh DIR: runs the stable tests of a copy of the repository (as /opt/vp/test.sh does); exit 0 if all pass.
dir=$1; t=$(mktemp -d /tmp/stable.XXXXXX); trap 'rm -rf "$t"' EXIT
sed -e "s|/opt/vp/work|$t/work|; s|^cd /repo|cd $dir|" /opt/vp/test.sh >"$t/test.sh"
bash "$t/test.sh" "$t/out.json" >/dev/null 2>"$t/err"
python3 - "$t/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
passed=set(o.get('passed',o.get('pass',[])))
miss=[x for x in b if x not in passed]
print(len(b),'stable,',len(miss),'not passing:',miss)
sys.exit(1 if miss else 0)
P
