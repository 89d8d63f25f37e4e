#!/usr/bin/env python3
"""run.py OUT STEP [FILES...]: runs the checks on every STEP-th mutant of the files (all by default), 8 mutants at a time,
and writes one line per mutant: killed by ID, does not build, fails the stable tests, or SURVIVES."""
import os,subprocess,sys,json,shutil,tempfile,concurrent.futures as cf,threading
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R='/repo'
PK={'glTF':('export',['X01','X02']),'meshing':('tetra',['M04','M05','M06','M01','M02','M03']),'nurbs':('spline',['N01','N02','N03','N04']),
 'predicates':('pred',['P03','P01','P02']),'r3':('vec',['R01','R02','R03','R04','R05','R06']),'shape':('shapes',['G01','G03','G04','G02']),
 'step':('stepf',['S01','S02','S03','S04','S05','S06','S07','S08']),'triangulate2':('tri2',['T05','T07','T04','T06','T02']),
 'triangulate3':('tetra',['Q01','Q02'])}
FILE={'meshing/flip.go':['M06'],'meshing/helper.go':['M06','M04','M01'],'meshing/util.go':['M05','M06'],'meshing/mesh.go':['M04','M01','M02'],
 'triangulate2/hull.go':['T05','T04'],'triangulate2/node.go':['T05','T04','T01'],'triangulate2/triangulation.go':['T05','T06'],'triangulate2/triangulator.go':['T05','T04','T02','T01','T03'],'triangulate2/util.go':['T07','T06','T02'],
 'predicates/exact.go':['P03','P02','P04'],'predicates/planar.go':['P04'],'predicates/orient3d.go':['P03'],'triangulate3/englober.go':['Q01'],'triangulate3/gdel3d.go':['Q02'],'triangulate3/util.go':['Q01','Q02','M05','M06']}
EXTRA={'predicates/planar.go':('tri2',['T07','T05','T04','T02']),'predicates/exact.go':('tri2',['T07','T02'])}
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOSUMDB='off',GOWORK='off',GOFLAGS='-mod=mod',CGO_ENABLED='0',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
lock=threading.Lock(); out=open(sys.argv[1],'a'); base=tempfile.mkdtemp(prefix='/tmp/mutrun')
done=set(l.split('|')[0] for l in open(sys.argv[1]))
def sh(c,cwd=None,t=600):
    try: r=subprocess.run(c,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t); return r.returncode,r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 124,'timeout'
sh(['cp','-r',V+'/instr',base+'/instr']); print(sh(['go','build','-o',base+'/instr.bin','.'],base+'/instr'))
sh(['go','build','-o',base+'/mutate','.'],V+'/tools/mutate')
def one(f,n):
    key=f'{f}#{n}'
    if key in done: return
    w=tempfile.mkdtemp(dir=base)
    try:
        subprocess.run(f'git -C {R} archive HEAD | tar -C {w} -xf -',shell=True)
        os.rename(w+'/'+f,w+'/orig.go.txt') if 0 else None
        rc,d=sh([base+'/mutate',R+'/'+f,str(n),w+'/'+f]); d=d.strip()
        def log(s):
            with lock: out.write(f'{key}|{d}|{s}\n'); out.flush()
        if rc: return log('mutate failed')
        pkg=f.split('/')[0]
        cwd=w+'/nurbs' if pkg=='nurbs' else w
        rc,o=sh(['go','build','./...'],cwd)
        if rc: return log('does not build')
        tests=['-run','.']
        rc,o=sh(['go','test','-vet=off','-count=1','-timeout','100s','-json','./...'],cwd,150)
        passed=set()
        for l in o.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Action')=='pass' and 'Test' in e: passed.add(e['Test'])
        need={s.split('::')[-1].split('/')[-1].split('.')[-1].split(' ')[-1] for s in stable}
        bad=[s for s in need if s not in passed and s in NAMES['nurbs' if pkg=='nurbs' else 'rest']]
        if bad: return log('fails the stable tests')
        plan=[(PK[pkg][0],FILE.get(f,PK[pkg][1]))]+([EXTRA[f]] if f in EXTRA else [])
        if os.environ.get('MUT_IDS'): plan=[(PK[pkg][0],os.environ['MUT_IDS'].split())]
        for cmd,ids in plan:
            b=f'{w}/.v'; shutil.rmtree(b,ignore_errors=True); os.makedirs(b+'/run')
            for x in ('harness','rt','instr'): sh(['cp','-r',f'{V}/{x}',f'{b}/{x}'])
            shutil.copytree(w,b+'/src',ignore=shutil.ignore_patterns('.v'))
            rc,o=sh([base+'/instr.bin',b+'/src',b+'/harness/.src'])
            if rc: return log('INSTR FAILS '+o[-200:].replace('\n',' '))
            rc,o=sh(['go','build','-trimpath','-o',b+'/h.bin','./cmd/'+cmd],b+'/harness')
            if rc: return log('HARNESS FAILS '+o[-200:].replace('\n',' '))
            for i in ids:
                rc,o=sh(['timeout','700',b+'/h.bin','check','-prop',i,'-tier','quick','-seed','1','-work',b+'/run','-workers','1','-known',V+'/known_findings.json','-evidence',b+'/e.json'],None,900)
                if rc==1: return log('killed by '+i)
                if rc==124: continue
                if rc!=0: return log(f'{i} EXITS {rc} '+o[-200:].replace('\n',' '))
        log('SURVIVES')
    finally: shutil.rmtree(w,ignore_errors=True)
NAMES={}
for k,d in (('nurbs',R+'/nurbs'),('rest',R)):
    rc,o=sh(['go','test','-vet=off','-count=1','-json','./...'],tempfile.mkdtemp(dir=base) if 0 else d) if 0 else (0,'')
    w=tempfile.mkdtemp(dir=base); subprocess.run(f'git -C {R} archive HEAD | tar -C {w} -xf -',shell=True)
    rc,o=sh(['go','test','-vet=off','-count=1','-json','./...'],w+('/nurbs' if k=='nurbs' else ''))
    NAMES[k]={e['Test'] for e in map(lambda l: json.loads(l) if l.startswith('{') else {},o.splitlines()) if e.get('Action')=='pass' and 'Test' in e}
print(NAMES)
files=sys.argv[3:] or [f for f in subprocess.check_output(['git','-C',R,'ls-files','*.go'],text=True).split() if '_test' not in f and '/' in f]
step=int(sys.argv[2]); jobs=[]
for f in files:
    if f.split('/')[0] not in PK: continue
    n=int(sh([base+'/mutate',R+'/'+f])[1]); jobs+=[(f,i) for i in range((len(f)*7)%step,n,step)]
print(len(jobs),'mutants',flush=True)
with cf.ThreadPoolExecutor(int(os.environ.get('MUT_JOBS','8'))) as ex: list(ex.map(lambda j: one(*j),jobs))
shutil.rmtree(base)
