import os,subprocess,sys,json,shutil,tempfile,importlib.util
S='/verif/seeded'
DEMO='''#!/bin/bash
# Exits 0 when the property holds on the demonstrated input, nonzero when it is broken. Run with cwd = the repository.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$w"' EXIT
tar --exclude=./.git -cf - . | tar -C "$w" -xf - || exit 2
/bin/rm -f "$w/%s"/*_test.go
cp "$d/demo.go.txt" "$w/%s/zz_demo_test.go" || exit 2
cd "$w/%s" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
go test -vet=off -count=1 -timeout 200s -run 'TestDemo$' . > "$w/out" 2>&1
rc=$?
tail -n 15 "$w/out"
exit $rc
'''
def make(name,prop,edits,pkg,demo,needs,breaks):
    d=os.path.join(S,name); os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='/tmp/genb')
    subprocess.run(f'git -C /repo archive HEAD | tar -C {w} -xf - && cd {w} && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x',shell=True,check=True)
    for f,old,new in edits:
        p=os.path.join(w,f); s=open(p,newline='').read()
        if '\r\n' in s: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        assert s.count(old)==1,(name,f,s.count(old),old)
        open(p,'w',newline='').write(s.replace(old,new))
    out=subprocess.run(['git','-C',w,'diff'],capture_output=True).stdout
    open(d+'/patch.diff','wb').write(out)
    open(d+'/demo.sh','w').write(DEMO%(pkg,pkg,pkg)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.go.txt','w').write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
    print('made',name)
if __name__=='__main__':
    spec=importlib.util.spec_from_file_location('b',sys.argv[1]); m=importlib.util.module_from_spec(spec); m.make=make
    m.ONLY=set(sys.argv[2:]); spec.loader.exec_module(m)
