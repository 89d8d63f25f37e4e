import subprocess,sys,os,tempfile,shutil,json,importlib.util
env=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off')
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
spec=importlib.util.spec_from_file_location('b',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=set(sys.argv[2:])
for name,ids,edits in m.L:
    if only and name not in only: continue
    w=tempfile.mkdtemp(prefix='/tmp/tryb')
    subprocess.run(f'git -C /repo archive HEAD | tar -C {w} -xf -',shell=True,check=True)
    ok=True
    for f,old,new in edits:
        p=os.path.join(w,f); s=open(p,newline='').read()
        if '\r\n' in s: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        if s.count(old)!=1: print(name,'PATTERN',s.count(old),f,repr(old[:50])); ok=False; break
        open(p,'w',newline='').write(s.replace(old,new))
    if ok:
        d='nurbs' if edits[0][0].startswith('nurbs') else '.'
        r=subprocess.run(['go','build','./...'],cwd=w+'/'+d,env=env,capture_output=True,text=True)
        if r.returncode: print(name,'DOES NOT BUILD',r.stderr[:300])
        else:
            res=[]
            for i in ids.split():
                r=subprocess.run(['bash','/verif/check.sh',i,'quick'],env=dict(env,VERIF_REPO=w),capture_output=True,text=True,timeout=900)
                last=(r.stdout.strip().splitlines() or [''])
                wall=[l for l in last if l.startswith('property=')]
                res.append(f"{i}:{ {0:'missed',1:'CAUGHT'}.get(r.returncode,r.returncode)} {wall[0].split('wall=')[-1][:8] if wall else r.stderr[-200:]}")
                if r.returncode==1: break
            print(name,'|',' '.join(res),flush=True)
    shutil.rmtree(w)
