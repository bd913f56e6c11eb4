#!/bin/bash
# usage: tools/seed.sh ID  -- validates /verif/seeded/ID in a scratch copy of /repo.
id=$1; s=/verif/seeded/$id; W=$(mktemp -d /tmp/seedw.XXXXXX)
cp -a /repo "$W/repo"; cd "$W/repo" || exit 1
git checkout -q -- . 
env -i PATH="$PATH" HOME="$HOME" timeout 300 bash "$s/demo.sh" >"$W/clean.log" 2>&1; c=$?
git apply "$s/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
sed "s#/repo#$W/repo#g" /opt/vp/test.sh > "$W/test.sh"
bash "$W/test.sh" "$W/out.json" >"$W/test.log" 2>&1
python3 - "$W/out.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def st(x):
    for k in ('stable','tests','passed','pass','stable_pass'):
        if k in x:
            v=x[k]; return set(v if isinstance(v,list) else [t for t,r in v.items() if r in(True,'pass','passed','ok')])
    return None
B,O=st(b),st(o)
print(sys.argv[2],"tests baseline",len(B) if B else b.keys(),"missing now",sorted(B-O) if B and O is not None else o.keys())
P
env -i PATH="$PATH" HOME="$HOME" timeout 300 bash "$s/demo.sh" >"$W/bad.log" 2>&1; p=$?
echo "$id: demo clean=$c patched=$p"; [ $c -ne 0 ] && tail -5 "$W/clean.log"; tail -3 "$W/bad.log"
case "$W" in /tmp/seedw.*) find "$W" -mindepth 1 -delete; rmdir "$W";; esac
