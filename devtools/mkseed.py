"""helper: seed(id, prop, [(file, old, new)...], needs, breaks, demo_c | demo_sh)"""
import os, subprocess, json, shutil
T=os.path.dirname(os.path.abspath(__file__)); R=os.path.join(os.path.dirname(T),'seeded')
def seed(i, prop, edits, needs, breaks, demo=None, sh=None, extra=()):
    d=os.path.join(R,i); os.makedirs(d,exist_ok=True)
    w='/tmp/mkseed_w'
    shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,o,n in edits:
        s=open(w+'/'+f).read()
        assert s.count(o)==1,(i,f,s.count(o))
        open(w+'/'+f,'w').write(s.replace(o,n))
    p=subprocess.check_output(['git','-C',w,'diff'],text=True)
    assert p
    open(d+'/patch.diff','w').write(p)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    if demo is not None:
        open(d+'/demo.c','w').write('#include "demo.h"\n'+demo)
        shutil.copy(T+'/demo.h',d); shutil.copy(T+'/demo_common.sh',d)
        open(d+'/demo.sh','w').write('#!/bin/bash\n. "$(dirname "$0")/demo_common.sh"\nrun_demo\n')
    else:
        shutil.copy(T+'/demo_common.sh',d)
        open(d+'/demo.sh','w').write(sh)
    for n,c in extra: open(d+'/'+n,'w').write(c)
    shutil.rmtree(w,ignore_errors=True)
