"""helper for planting: seed(id, property, needs, breaks, [(file, old, new)...], demo)"""
import os,subprocess,json,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(sid,prop,needs,breaks,edits,demo,extra={}):
    w='/tmp/plant'; shutil.rmtree(w,ignore_errors=True)
    subprocess.run(['git','-C','/repo','worktree','prune']); subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,old,new in edits:
        p=os.path.join(w,f); s=open(p).read(); assert s.count(old)==1,(sid,f,s.count(old),old); open(p,'w').write(s.replace(old,new))
    d=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
    shutil.rmtree(w)
    o=os.path.join(V,'seeded',sid); os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','w').write(d)
    open(o+'/demo.sh','w').write('#!/bin/bash\n# run with cwd /repo after the build\n'+demo); os.chmod(o+'/demo.sh',0o755)
    for k,v in extra.items(): open(os.path.join(o,k),'w').write(v)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(o+'/meta.json','w'),indent=1)
def ev(text,want,op='='):
    """demo: evaluating a text prints exactly this"""
    q=lambda s:"'"+s.replace("'","'\\''")+"'"
    return f'got=$(timeout 20 ./target/debug/basjoofan eval -- {q(text)} 2>&1)\nif [ "$got" != {q(want)} ]; then echo "expected {want}, got $got"; exit 1; fi\n'
