#!/bin/bash
# plant.sh NAME [props...]: validates /verif/seeded/NAME in a scratch copy of /repo (patch applies, touches
# original lines, builds, stable tests pass, demo passes without and fails with it) and runs the checks on it.
set -u
name=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd); s=$here/seeded/$name
w=$(mktemp -d /tmp/plant.XXXXXX); trap '/bin/rm -rf "$w"' EXIT
mkdir "$w/repo" "$w/vp"; git -C /repo archive HEAD | tar -C "$w/repo" -xf -
for f in env.sh build.sh test.sh results.py; do sed "s|\"/repo/|\"$w/repo/|; s|-C /repo |-C $w/repo |; s|#/repo/|#$w/repo/|; s|/opt/vp|$w/vp|g" /opt/vp/$f > "$w/vp/$f"; done
cp /opt/vp/BASELINE.json /opt/vp/BUILD.json "$w/vp/" 2>/dev/null
demo() { mkdir "$w/d.$1"; cp -r "$s/." "$w/d.$1/"; /bin/rm -f "$w/d.$1/patch.diff" "$w/d.$1/meta.json"; (cd "$w/repo" && timeout 300 bash "$w/d.$1/demo.sh" > "$w/demo.$1" 2>&1); echo $?; }
c=$(demo clean); [ "$c" = 0 ] || { echo "$name: demo fails on the clean tree ($c)"; tail -20 "$w/demo.clean"; exit 1; }
(cd "$w/repo" && git init -q . && git apply "$s/patch.diff") || { echo "$name: patch does not apply"; exit 1; }
/bin/rm -rf "$w/repo/.git"
bash "$w/vp/build.sh" > "$w/build" 2>&1 || { echo "$name: does not build"; cat "$w/build"; exit 1; }
bash "$w/vp/test.sh" "$w/out.json" > "$w/test" 2>&1
python3 - "$w/out.json" <<'P' || { echo "$name: stable tests fail"; exit 1; }
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(r.get('passed',[]) if isinstance(r,dict) and 'passed' in r else [k for k,v in r.items() if v in ('pass','passed',True)])
m=[x for x in b if x not in p]
if m: print(m, str(r)[:300]); sys.exit(1)
P
python3 - "$s/patch.diff" <<'P'
import re,subprocess,sys
f=None;bad=[]
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); bl=subprocess.run(['git','-C','/repo','blame','-s','--abbrev=8',f],capture_output=True,text=True).stdout.split('\n')
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m[1]); continue
    if f and l.startswith('-') and not l.startswith('---'):
        if not bl[n-1].startswith('^'): bad.append((f,n,l.strip()))
        n+=1
    elif f and l.startswith(' '): n+=1
if bad: print('NOTE: changes lines added by fix commits:',bad)
P
d=$(demo patched); [ "$d" != 0 ] || { echo "$name: demo passes with the patch"; exit 1; }
ids=${*:-$(python3 -c "import json;[print(json.loads(l)['id']) for l in open('$here/properties.jsonl')]")}
hit=""
for i in $ids; do
	t0=$(date +%s); VERIF_REPO="$w/repo" timeout 900 bash "$here/check.sh" $i quick > "$w/chk" 2>&1; rc=$?; t=$(( $(date +%s)-t0 ))
	case $rc in 1) hit="$hit $i"; [ $t -gt 60 ] && echo "  $i took $t s" ;; 0) ;; *) echo "  $i exits $rc"; tail -3 "$w/chk" ;; esac
done
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
echo "$name ($prop): caught by:${hit:- NOTHING}"
[ -n "${PLANT_RECORD:-}" ] && python3 - "$here/tools/seeded_results.json" $name $hit <<'P'
import json,sys,os
f=sys.argv[1]; d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[2]]=sys.argv[3:]; json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
exit 0
