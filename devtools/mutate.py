#!/usr/bin/env python3
"""Mutation survey of the checks (development only; works on scratch copies).
mutate.py FILE(relative to /repo) PROG PROPS(comma) N [seed] [secs]"""
import sys, os, re, random, subprocess, json, shutil, glob
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('MUT_REPO', '/repo')
sys.path.insert(0, ROOT)
import build as B
W = '/tmp/mut'
import threading
LOCK = threading.Lock()
CFG = 'cmake -S . -B b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DCMAKE_DISABLE_FIND_PACKAGE_Qt5=ON -DCMAKE_DISABLE_FIND_PACKAGE_Qt6=ON -DFETCH_ARGP=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_PROJECT_emv-utils_INCLUDE=/opt/vp/missing-mcc.cmake -DMCC_JSON_BUILD_PATH=/nonexistent -DMCC_JSON_INSTALL_PATH=/nonexistent'
def ops(line):
    out = []
    code = line.split('//')[0]
    if not code.strip() or code.strip().startswith(('#', '*', '/*', 'emv_debug', 'emv_tlv_debug')): return out
    def sub(pat, rep, name):
        for m in re.finditer(pat, code):
            new = code[:m.start()] + m.expand(rep) + code[m.end():]
            out.append((name, new + '\n'))
    sub(r' < ', ' <= ', 'lt-le'); sub(r' <= ', ' < ', 'le-lt'); sub(r' > ', ' >= ', 'gt-ge'); sub(r' >= ', ' > ', 'ge-gt')
    sub(r' == ', ' != ', 'eq-ne'); sub(r' != ', ' == ', 'ne-eq'); sub(r' && ', ' || ', 'and-or'); sub(r' \|\| ', ' && ', 'or-and')
    sub(r' \+ 1\b', '', 'drop+1'); sub(r' - 1\b', '', 'drop-1'); sub(r' \+ 2\b', ' + 1', '+2+1'); sub(r' - 2\b', ' - 1', '-2-1')
    sub(r'\b0x([0-9A-Fa-f]{2,4})\b', r'(0x\1 ^ 1)', 'hex^1')
    sub(r'(?<![\w.])([1-9]\d?)(?![\w.x])', r'(\1 + 1)', 'const+1')
    sub(r'if \(!', 'if (', 'drop!'); sub(r' \+= ', ' -= ', '+=-='); sub(r' & ', ' | ', '&|'); sub(r'<< ', '>> ', 'shl-shr')
    sub(r'\bcontinue;', 'break;', 'cont-brk'); sub(r'\bbreak;', 'continue;', 'brk-cont')
    sub(r'return (-?\d+|[A-Z_]+);', 'return 0;', 'ret0')
    s = code.strip()
    if re.match(r'^[\w>\-\.\[\]\*\+ ]+ [\+\-\|&]?= .*;$', s) and not re.match(r'^(const |static |unsigned |int |size_t |uint|struct |char |bool |enum |long )', s): out.append(('del-assign', '\n'))
    if re.match(r'^(r = )?[a-z_0-9]+\(.*\);$', s) and not s.startswith(('va_', 'return')): out.append(('del-call', '\n'))
    if re.match(r'^(\+\+|--)[\w>\-\.\*]+;$', s) or re.match(r'^[\w>\-\.\*]+(\+\+|--);$', s): out.append(('del-inc', '\n'))
    if re.match(r'^\s*(\} else )?if \(.*\) \{$', code.rstrip()):
        out.append(('if0', re.sub(r'if \((.*)\) \{\s*$', r'if (0 && (\1)) {', code.rstrip()) + '\n'))
        out.append(('if1', re.sub(r'if \((.*)\) \{\s*$', r'if (1 || (\1)) {', code.rstrip()) + '\n'))
    return [(n, l) for n, l in out if l.strip() != code.strip()]
def mutants(path):
    L = open(path).read().split('\n')
    res = []
    com = False
    for i, l in enumerate(L):
        if '/*' in l: com = True
        if com:
            if '*/' in l: com = False
            continue
        for n, new in ops(l):
            res.append((i, n, l, new.rstrip('\n')))
    return L, res
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def base(prog):
    """objects of the unmodified tree, and the link command"""
    p = B.PROGRAMS[prog]; w = W + '/base-' + prog
    if os.path.exists(w + '/ok'): return w
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    real_rm = shutil.rmtree; B.BUILD = W + '/bb-' + prog; shutil.rmtree(B.BUILD, ignore_errors=True)
    os.makedirs(B.BUILD)
    keep = os.path.join(B.BUILD, 'work-' + prog)
    def norm(path, **k):
        if path == keep and os.path.exists(keep): return
        real_rm(path, **k)
    B.shutil = type('x', (), {'rmtree': staticmethod(norm)}); B.build(prog); B.shutil = shutil
    for f in glob.glob(keep + '/*'): shutil.copy(f, w)
    open(w + '/ok', 'w').close()
    return w
def one(args):
    prog, rel, L, m, props, secs, idx = args
    i, name, old, new = m
    d = '%s/w%d-%d' % (W, os.getpid(), idx); os.makedirs(d, exist_ok=True)
    try:
        p = B.PROGRAMS[prog]; bw = W + '/base-' + prog
        LL = list(L); LL[i] = new
        bn = os.path.basename(rel); src = d + '/' + bn; open(src, 'w').write('\n'.join(LL))
        isc = rel.endswith('.cpp'); tool = rel.startswith('tools/')
        obj = ('tool_' if tool else 'lib_') + bn + '.o'
        inc = ['-I' + bw, '-I' + REPO + '/src', '-I' + REPO + '/tools', '-I/usr/include/PCSC', '-I' + ROOT + '/sim']
        defs = ['-DEMV_DEBUG_ENABLED', '-DUSE_PCSCLITE', '-DHAVE_ARPA_INET_H']
        ren = {a: 'sim_' + a for a in B.ALLOC}; ren.update({a: 'sim_' + a for a in p.get('rename', [])})
        cc = [B.CXX, '-std=c++17'] if isc else [B.CC, '-std=gnu11']
        extra = []
        a = None
        if bn in p.get('state', []): extra = ['-D_GLIBCXX_ASSERTIONS', '-fno-zero-initialized-in-bss', '--param', 'asan-globals=0']; a = ({}, True)
        elif tool:
            extra = ['-fno-zero-initialized-in-bss', '--param', 'asan-globals=0']; r = dict(ren); r.update(p.get('tool_rename', {}).get(bn, {})); a = (r, True)
        else: a = ({} if isc else ren,)
        try: B.compile_one((cc + B.COMMON + extra + defs + inc + ['-c', src], d + '/' + obj) + a)
        except B.BuildError as e: return (m, 'nobuild', '')
        objs = [d + '/' + obj] + [f for f in glob.glob(bw + '/*.o') if os.path.basename(f) != obj]
        libs = ['-lboost_locale', bw + '/libjsonc.a'] if p.get('jsonc') else ['-lboost_locale', '-ljson-c']
        r = sh([B.CXX] + B.SAN + ['-o', d + '/sim'] + objs + libs)
        if r.returncode: return (m, 'nolink', r.stdout[-300:])
        for pr in props:
            e = dict(os.environ, TZ='UTC', LANG='C')
            try: r = sh([d + '/sim', '--prop', pr, '--seed', '1', '--runs', '100000000', '--time', str(secs), '--jobs', '1', '--minbudget', '0.1', '--out', d + '/out'], env=e, cwd=d, timeout=secs * 4 + 120)
            except subprocess.TimeoutExpired: return (m, 'killed', pr + ' timeout')
            try: j = json.load(open(d + '/out'))
            except Exception: return (m, 'killed', pr + ' noresult')
            v = j.get('violation')
            if v: return (m, 'killed', '%s %s run %s' % (pr, v['class'], v['run']))
        # survivor: do the existing tests kill it?
        with LOCK:
            rp = W + '/rb'
            if not os.path.exists(rp + '/b'):
                sh(['git', 'clone', '-q', REPO, rp]);
                sh('cd %s && %s' % (rp, CFG), shell=True); sh('cmake --build %s/b -j4' % rp, shell=True)
            sh(['git', '-C', rp, 'fetch', '-q']); sh(['git', '-C', rp, 'reset', '-q', '--hard', 'origin/HEAD'])
            open(rp + '/' + rel, 'w').write('\n'.join(LL))
            b = sh('cmake --build %s/b -j4 && ctest --test-dir %s/b -j4 --timeout 60 -R "^(%s)$"'  % (rp, rp, '|'.join(x.split('::')[0] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'])), shell=True)
            sh(['git', '-C', rp, 'checkout', '-q', '.'])
            if b.returncode: return (m, 'tests', '')
        return (m, 'survived', '')
    finally:
        if os.path.exists(d): shutil.rmtree(d, ignore_errors=True)
def main():
    rel, prog, props, n = sys.argv[1], sys.argv[2], sys.argv[3].split(','), int(sys.argv[4])
    seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1; secs = float(sys.argv[6]) if len(sys.argv) > 6 else 8
    os.makedirs(W, exist_ok=True)
    base(prog)
    L, ms = mutants(REPO + '/' + rel)
    if os.environ.get('LINES'):
        a, b = map(int, os.environ['LINES'].split('-')); ms = [m for m in ms if a <= m[0] + 1 <= b]
    # a different error number is no behaviour any property speaks of
    ms = [m for m in ms if not (m[1] == 'const+1' and re.match(r'\s*return -\d', m[2]))]
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    log = open(W + '/' + rel.replace('/', '_') + '.%s.%d.log' % (prog, seed), 'w')
    st = {}
    with ThreadPoolExecutor(8) as ex:
        for m, res, info in ex.map(one, [(prog, rel, L, m, props, secs, k) for k, m in enumerate(ms)]):
            st[res] = st.get(res, 0) + 1
            log.write('%s %s:%d %s %s\n    - %s\n    + %s\n' % (res, rel, m[0] + 1, m[1], info, m[2].strip(), m[3].strip())); log.flush()
    print(rel, st)
main()
