#!/usr/bin/env python3
"""Makes and confirms planted changes: plants.py lists them. mk.py ID... (all if none)
   Works on a copy of /repo in /tmp/wt; writes /verif/seeded/<id>/."""
import sys,os,json,subprocess,shutil
here=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,here)
from plants import PLANTS
WT='/tmp/wt/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main():
    ids=sys.argv[1:] or [p['id'] for p in PLANTS]
    os.makedirs('/tmp/wt',exist_ok=True)
    if not os.path.exists(WT): sh('cp -a /repo '+WT)
    for p in PLANTS:
        if p['id'] not in ids: continue
        sh('git checkout -q -f --detach && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD',cwd=WT)
        d='/tmp/wt/'+p['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        demo=p.get('demo_sh') or open(here+'/demo.sh').read()
        open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
        for n,t in p.get('files',{}).items(): open(d+'/'+n,'w').write(t)
        if 'main' in p: open(d+'/main.rs','w').write(open(here+'/prelude.rs').read()+p['main'])
        a=sh(d+'/demo.sh',cwd=WT)
        for f,old,new in p['edits']:
            s=open(WT+'/'+f).read()
            assert s.count(old)==1,(p['id'],f,s.count(old),old)
            open(WT+'/'+f,'w').write(s.replace(old,new))
        diff=sh('git diff',cwd=WT).stdout
        open(d+'/patch.diff','w').write(diff)
        t=sh('cargo test --offline 2>&1 | grep -E "test result|error|warning: unused|FAILED"',cwd=WT)
        b=sh(d+'/demo.sh',cwd=WT)
        ok=a.returncode==0 and b.returncode not in (0,98,99) and 'error' not in t.stdout and 'FAILED' not in t.stdout
        print(p['id'],'OK' if ok else 'NOT OK','clean',a.returncode,'planted',b.returncode,b.stderr.strip()[-200:] if b.stderr else '')
        if not ok: print(a.stderr[-1500:]); print(t.stdout[-1500:]); print(b.stderr[-800:])
        else:
            meta={"property":p['property'],"needs":p['needs'],"what_it_breaks":p['breaks']}
            open(d+'/meta.json','w').write(json.dumps(meta,indent=1)+'\n')
            o='/verif/seeded/'+p['id']; shutil.rmtree(o,ignore_errors=True); shutil.copytree(d,o)
        sys.stdout.flush()
main()
