"""plant.py author <id>... : from /tmp/plant/specs.py build patch, write seeded dir
   plant.py check <id>...  : validate (build, tests, demo, check)"""
import sys, os, subprocess, json, shutil, time, re
sys.path.insert(0,'/tmp/plant')
REPO='/repo'; SEED='/verif/seeded'
BASE='b1c17ff'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): 
    assert sh('git -C /repo status --short').stdout.strip()=='' , 'repo dirty'
def orig_lines_ok(patch):
    # every removed line must blame to base
    cur=None; ok=True; removed=0
    for l in patch.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith('-') and not l.startswith('---'):
            b=sh(f'git -C /repo blame -s -L {n},{n} {cur}').stdout
            removed+=1
            if not b.startswith('^'+BASE[:7]) and not b.startswith(BASE[:7]):
                print('   NOT ORIGINAL:',b.strip()); ok=False
            n+=1
        elif l.startswith(' '): n+=1
    return ok and removed>0
def author(spec):
    clean()
    d=os.path.join(SEED,spec['id']); os.makedirs(d,exist_ok=True)
    try:
        for f,old,new in spec['edits']:
            p=os.path.join(REPO,f); s=open(p).read()
            cnt=s.count(old)
            if cnt!=1: raise SystemExit(f"{spec['id']}: {f}: {cnt} matches for {old!r}")
            open(p,'w').write(s.replace(old,new))
        patch=sh('git -C /repo diff').stdout
    finally:
        sh('git -C /repo checkout -- .')
    open(os.path.join(d,'patch.diff'),'w').write(patch)
    if not orig_lines_ok(patch): print(spec['id'],'WARNING: not only original lines')
    json.dump({k:spec[k] for k in ('property','needs','what_it_breaks')},open(os.path.join(d,'meta.json'),'w'),indent=1)
    kind=spec['demo'][0]
    if kind=='py':
        shutil.copy('/tmp/plant/common.py',os.path.join(d,'common.py'))
        open(os.path.join(d,'demo.py'),'w').write(spec['demo'][1])
        open(os.path.join(d,'demo.sh'),'w').write('#!/bin/bash\n# run with cwd /repo after the build\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    else:
        open(os.path.join(d,'demo.cpp'),'w').write(spec['demo'][1])
        flags=spec['demo'][2] if len(spec['demo'])>2 else ''
        if 'SRC' in flags:  # compile sources instead of libs
            libs='$(ls Utils/*.cpp Complex/*.cpp Pipes/*.cpp Preprocessing/*.cpp)'; flags=flags.replace('SRC','')
        else:
            libs='-Wl,--start-group $(find _build -name "lib*.a" -not -path "*gtest*") -Wl,--end-group'
        open(os.path.join(d,'demo.sh'),'w').write(f'''#!/bin/bash
# run with cwd /repo after the build
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++14 -w -g {flags} -I Utils -I Complex -I Pipes -I Preprocessing "$here/demo.cpp" {libs} -lpthread -o "$tmp/demo" || exit 2
cd "$tmp" && mkdir -p output && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
''')
    os.chmod(os.path.join(d,'demo.sh'),0o755)
def build():
    r=sh('bash /opt/vp/build.sh'); return r.returncode==0, r.stdout
STABLE=None
def tests():
    r=sh('bash /opt/vp/test.sh /tmp/plant/o.json')
    o=json.load(open('/tmp/plant/o.json')); return o
def stable():
    b=json.load(open('/opt/vp/BASELINE.json')); return b
def passing(o):
    if isinstance(o,dict) and 'passed' in o: return set(o['passed'])
    raise SystemExit(str(o)[:500])
def check(i, props=None, clean_demo=True):
    clean()
    d=os.path.join(SEED,i); meta=json.load(open(d+'/meta.json'))
    res={}
    if clean_demo:
        ok,_=build(); assert ok
        r=sh(f'bash {d}/demo.sh',cwd=REPO); res['demo_clean']=r.returncode
        if r.returncode: print(r.stdout[-800:])
    a=sh(f'git -C /repo apply {d}/patch.diff')
    if a.returncode: print(a.stdout); return {'id':i,'apply':False}
    try:
        ok,log=build(); res['build']=ok
        if not ok: print(log[-1500:])
        else:
            o=tests(); base=stable(); st=set(base.get('stable') or base.get('passed') or base.get('tests') or [])
            miss=st-passing(o); res['tests_broken']=sorted(miss)
            r=sh(f'bash {d}/demo.sh',cwd=REPO); res['demo_bug']=r.returncode; demo_out=r.stdout[-300:]
            res['demo_out']=demo_out.strip().splitlines()[-1:] 
            caught=[]
            for p in (props or [meta['property']]):
                t=time.time()
                e=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick')
                cmd=next(c for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']==p)['quick_cmd']
                r=subprocess.run(cmd,shell=True,cwd='/verif',env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                caught.append((p,r.returncode,len(v),round(time.time()-t,1)))
            res['checks']=caught
    finally:
        sh('git -C /repo checkout -- .')
    return dict(id=i,**res)
if __name__=='__main__':
    if sys.argv[1]=='author':
        from specs import SPECS
        ids=sys.argv[2:] or [s['id'] for s in SPECS]
        for s in SPECS:
            if s['id'] in ids: author(s); print('authored',s['id'])
    elif sys.argv[1]=='check':
        allp='--all' in sys.argv
        ids=[a for a in sys.argv[2:] if not a.startswith('--')] or sorted(os.listdir(SEED))
        props=None
        if allp: props=[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
        for i in ids:
            r=check(i,props); 
            good=r.get('demo_clean')==0 and r.get('build') and not r.get('tests_broken') and r.get('demo_bug')
            c=[x[0] for x in r.get('checks',[]) if x[1]==1 and x[2]]
            print('%-28s %s caught=%s %s'%(i,'VALID' if good else 'INVALID',c,r),flush=True)
        build()
