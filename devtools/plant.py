#!/usr/bin/env python3
"""plant.py [ids] [props=Pxx,..] : in a scratch clone of /repo, applies each planted bug, builds, runs the stable
tests and its demo (with and without), and the property's check (SIM_REPO points the check to the clone)."""
import sys, os, subprocess, json, shutil, time
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R=ROOT+'/seeded'; REPO=os.environ.get('PLANT_REPO','/repo'); C='/tmp/plant/repo'; BD='/tmp/plant/build'
CFG='cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DCMAKE_DISABLE_FIND_PACKAGE_Qt5=ON -DCMAKE_DISABLE_FIND_PACKAGE_Qt6=ON -DFETCH_ARGP=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_PROJECT_emv-utils_INCLUDE=/opt/vp/missing-mcc.cmake -DMCC_JSON_BUILD_PATH=%s/_build/mcc-codes/mcc_codes.json -DMCC_JSON_INSTALL_PATH=/usr/local/share/emv-utils/mcc_codes.json' % C
ST='|'.join(x.split('::')[0] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def build(): return sh('cd %s && ninja -C _build' % C)
def setup():
    shutil.rmtree('/tmp/plant', ignore_errors=True); os.makedirs('/tmp/plant')
    sh('git clone -q %s %s' % (REPO, C)); sh('cd %s && %s' % (C, CFG)); b=build(); assert b.returncode==0,b.stdout[-2000:]
def check(i, props=None):
    d=os.path.join(R,i); m=json.load(open(d+'/meta.json'))
    d0=sh('cd %s && bash %s/demo.sh'%(C,d))
    a=sh('git -C %s apply %s/patch.diff'%(C,d))
    if a.returncode: print(i,'does not apply',a.stdout); return
    try:
        b=build()
        if b.returncode: print(i,'does not build',b.stdout[-1500:]); return
        t=sh('ctest --test-dir %s/_build -j8 --timeout 60 -R "^(%s)$"'%(C,ST))
        dm=sh('cd %s && bash %s/demo.sh'%(C,d))
        ok = t.returncode==0 and dm.returncode not in (0,99) and d0.returncode==0
        print(i,m['property'],'COUNTS' if ok else 'BAD', 'tests',t.returncode,'demo with',dm.returncode,'without',d0.returncode, flush=True)
        if not ok: print(t.stdout[-700:] if t.returncode else '', dm.stdout[-800:], '|', d0.stdout[-800:])
        for p in props or [m['property']]:
            t=time.time(); c=sh('cd %s && SIM_REPO=%s SIM_BUILD=%s VERIF_EVID=/tmp/plant/evid python3 run.py %s'%(ROOT,C,BD,p))
            print('   ', 'CAUGHT' if c.returncode==1 else 'MISSED rc=%d %s'%(c.returncode,c.stdout[-300:] if c.returncode else ''), p, round(time.time()-t), [l[:300] for l in c.stdout.splitlines() if l.startswith(('class','VIOL','simulator','violation'))][:2], flush=True)
    finally:
        sh('git -C %s checkout -q -- .'%C); build()
if __name__=='__main__':
    ids=sys.argv[1:]; props=None
    for x in list(ids):
        if x.startswith('props='): props=x[6:].split(','); ids.remove(x)
    setup()
    for i in ids or sorted(os.listdir(R)):
        for j in sorted(os.listdir(R)):
            if j==i or j.startswith(i+'-'): check(j, props)
    shutil.rmtree('/tmp/plant', ignore_errors=True)
