import os,subprocess,shutil,json,sys
WT='/tmp/x/wt'
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# cwd: the repository. Exit 0: fine, 1: the property is broken.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/pypyvenv/bin/python "$(dirname "$0")/demo.py"
'''
def make(sid,prop,edits,demo,needs,breaks,test=True,check=True):
    d=f'/verif/seeded/{sid}'
    sh(f'rm -rf {WT}; cp -a /repo {WT}')
    for f,old,new in edits:
        p=f'{WT}/{f}'
        s=open(p,newline='').read()
        crlf='\r\n' in s
        if crlf: s=s.replace('\r\n','\n')
        if s.count(old)!=1: print(sid,'BAD edit count',s.count(old),repr(old[:60])); return False
        s=s.replace(old,new)
        if crlf: s=s.replace('\n','\r\n')
        open(p,'w',newline='').write(s)
    diff=subprocess.run(['git','-C',WT,'diff'],capture_output=True).stdout
    # original lines?
    orig=0;mine=0
    for f in {e[0] for e in edits}:
        bl=sh(f'git -C /repo blame -s {f}').stdout.splitlines()
        dd=subprocess.run(['git','-C',WT,'diff','-U0','--',f],capture_output=True).stdout.decode()
        import re
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',dd,re.M):
            a=int(m[1]);n=int(m[2] or 1)
            for i in range(a,a+n):
                if bl[i-1].startswith(('4c4e85f','^4c4e85f')): orig+=1
                else: mine+=1
    if not orig: print(sid,'no original line changed')
    if mine: print(sid,'touches fix lines',mine)
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1); open(d+'/meta.json','a').write('\n')
    ok=True
    a=sh(f'git -C /repo apply --check {d}/patch.diff'); 
    if a.returncode: print(sid,'apply',a.stderr); ok=False
    r=sh(f'bash {d}/demo.sh',cwd='/repo'); 
    if r.returncode: print(sid,'DEMO FAILS CLEAN',r.stdout[-800:],r.stderr[-800:]); ok=False
    r=sh(f'bash {d}/demo.sh',cwd=WT)
    if r.returncode==0: print(sid,'DEMO PASSES WITH PATCH'); ok=False
    elif r.returncode!=1 or 'Traceback' in r.stderr and 'AssertionError' not in r.stderr: print(sid,'demo rc',r.returncode,r.stderr[-300:])
    if test:
        r=sh(f'PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=/opt/vp/plugin setsid timeout -k 10 600 /opt/pypyvenv/bin/python -m pytest -q -p pypy_collect -p no:cacheprovider --timeout=120 test 2>&1 | tail -8',cwd=WT)
        if '49 passed' not in r.stdout: print(sid,'TESTS',r.stdout); ok=False
    res='-'
    if check:
        res=run(prop,WT)
    print(sid,prop,'ok' if ok else 'NOT OK','| check:',res,flush=True)
    if not ok: sh(f'rm -rf {d}')
    return ok
def run(prop,repo,tier='quick'):
    sh('rm -rf /tmp/x/vf; mkdir -p /tmp/x/vf; cp -a /verif/mon /verif/check.py /verif/KNOWN_FINDINGS.json /tmp/x/vf/')
    r=sh(f'CLUBS_REPO={repo} VERIF_TIER={tier} python3 check.py {prop}',cwd='/tmp/x/vf')
    line=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    what=r.stdout.splitlines()[-2][:160] if line else r.stdout[-200:]
    return f'{r.returncode} {"CAUGHT" if line else "MISSED"} {what}'
