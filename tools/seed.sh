#!/bin/bash
# seed.sh ID [nodemo] [notest]: confirms a planted bug (development aid; vcheck repeats all of it).
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
opts="$*"
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
t=$(mktemp -d); cp "$d"/* $t/; rm -f $t/patch.diff $t/meta.json
if [[ $opts != *nodemo* ]]; then bash $t/demo.sh >$t/log 2>&1; echo "demo clean: $?"; tail -2 $t/log; fi
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .; rm -rf $t' EXIT
if [[ $opts != *notest* ]]; then
  bash /opt/vp/build.sh >$t/blog 2>&1 || { echo BUILD FAILED; tail -20 $t/blog; exit 1; }
  bash /opt/vp/test.sh $t/o.json 2>&1 | tail -1
  python3 - $t/o.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','pass','tests'):
            if k in x: return set(x[k] if isinstance(x[k],list) else [n for n,v in x[k].items() if v in (True,'pass','passed','ok')])
    return set()
print('stable tests lost:', sorted(names(b)-names(o))[:5], len(names(b)),len(names(o)))
P
fi
if [[ $opts != *nodemo* ]]; then bash $t/demo.sh >$t/log 2>&1; echo "demo patched: $?"; tail -3 $t/log; fi
cd /verif && VERIF_TIER=quick timeout 900 python3 tools/run.py $prop >$t/clog 2>&1; echo "check $prop: $?"; grep -v "^warning" $t/clog | cut -c1-300 | tail -4
