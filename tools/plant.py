#!/usr/bin/env python3
# usage: plant.py SPEC.py  where SPEC defines BUGS=[dict(id,prop,edits=[(file,old,new)],needs,breaks,demo,files={})]
import sys,os,subprocess,json,shutil,re
spec={}; exec(open(sys.argv[1]).read(),spec)
only=sys.argv[2:]
R='/repo'; S='/verif/seeded'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',**k)
def build():
    r=sh('bash /opt/vp/build.sh'); 
    return r.returncode==0, r.stdout[-1500:]+r.stderr[-1500:]
assert sh('git -C /repo status --porcelain').stdout.strip()=='', 'repo dirty'
ok,_=build(); assert ok
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    d=f"{S}/{b['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    good=True; why=''
    for f,old,new in b['edits']:
        p=f'{R}/{f}'; t=open(p).read()
        if t.count(old)!=1: good=False; why=f'{f}: count {t.count(old)} of {old[:60]!r}'; break
        open(p,'w').write(t.replace(old,new))
    if good:
        diff=sh('git -C /repo diff').stdout
        open(d+'/patch.diff','w').write(diff)
        # removed lines must be original
        base=sh('git -C /repo show 2ad85b1:'+b['edits'][0][0]).stdout.split('\n')
        for l in diff.split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:] not in base: why+=' NOTORIG:'+l
        open(d+'/demo.sh','w').write('#!/bin/bash\nXMQ=$PWD/build/default/release/xmq\nT=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\n'+b['demo'].lstrip('\n')); os.chmod(d+'/demo.sh',0o755)
        for n,c in b.get('files',{}).items(): open(f'{d}/{n}','w').write(c)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        ok,log=build()
        if not ok: good=False; why='BUILD '+log
        else:
            if '-Wall' and 'warning' in log: why+=' WARN'
            t=sh('bash /verif/tools/rtest.sh').stdout.strip()
            r=sh(f'bash {d}/demo.sh',cwd=R,timeout=300)
            with_rc=r.returncode
            chk='-'
            c=sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 {b.get('check') or './check.sh '+b['prop']+' quick'}")
            v=[l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
            chk=f"rc={c.returncode} {v[:1]}"
    sh('git -C /repo checkout -- .')
    ok,_=build()
    if good:
        r=sh(f'bash {d}/demo.sh',cwd=R,timeout=300)
        print(b['id'],'| tests:',t,'| demo with:',with_rc,'without:',r.returncode,r.stdout[-200:],r.stderr[-200:],'| check',chk,why,flush=True)
    else: print(b['id'],'FAILED',why,flush=True)
