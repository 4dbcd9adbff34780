#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree.

Objects of the repository are compiled unchanged and then have their
references to the allocator, the clock and (per program) other system
interfaces renamed to the simulator's entry points."""
import os, sys, glob, hashlib, subprocess, json, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(ROOT, '.build'))
CC, CXX = 'gcc', 'g++'
SAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-fsanitize=bounds', '-fno-sanitize-recover=bounds']
COMMON = ['-O1', '-g1', '-w', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE'] + SAN
ALLOC = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'reallocarray', 'asprintf', 'vasprintf', 'getline', 'getdelim', 'timespec_get', 'clock_gettime', 'time', 'nanosleep', 'usleep', 'sleep', 'gettimeofday']

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout

CONFIG = '''#ifndef EMV_UTILS_CONFIG_H
#define EMV_UTILS_CONFIG_H
#define EMV_UTILS_VERSION "0"
#define EMV_UTILS_VERSION_STRING "0"
#define HAVE_TIME_H
#define HAVE_TIMESPEC_GET
#define HAVE_CLOCK_GETTIME
#define HAVE_ARPA_INET_H
#define HAVE_TIMEGM
#define ISOCODES_JSON_PATH "/usr/share/iso-codes/json"
#define MCC_JSON_BUILD_PATH "/nonexistent/mcc_codes.json"
#define MCC_JSON_INSTALL_PATH "/nonexistent/mcc_codes.json"
#endif
'''

def tree_hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as fh:
                h.update(fh.read())
        except OSError:
            h.update(b'missing')
        h.update(b'\0')
    return h.hexdigest()[:24]

def repo_files(*dirs):
    out = []
    for d in dirs:
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if f.endswith(('.c', '.cpp', '.h', '.hpp', '.in')):
                    out.append(os.path.join(root, f))
    return out

def lib_sources():
    s = []
    for f in sorted(glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/src/*.cpp')):
        if os.path.basename(f) in ('iso8859_iconv.c', 'iso8859_simple.c'):
            continue
        s.append(f)
    return s

def compile_one(args):
    cmd, obj, renames = args[:3]
    sh(cmd + ['-o', obj])
    if renames or len(args) > 3:
        rf = obj + '.ren'
        with open(rf, 'w') as f:
            for k, v in renames.items():
                f.write('%s %s\n' % (k, v))
        sec = []
        if len(args) > 3:
            for s in ('.data', '.data.rel.local', '.data.rel'):
                sec += ['--rename-section', s + '=tooldata,alloc,load,data,contents']
            if not renames:
                sec += ['--set-section-flags', '.bss=alloc,load,data,contents', '--rename-section', '.bss=tooldata']
        sh(['objcopy', '--redefine-syms=' + rf] + sec + [obj])
    return obj

# program -> what goes in
PROGRAMS = {
    'sim_txn': dict(own=['core', 'model', 'world', 'fields', 'apdu', 'txn', 'sim_txn'], skip=['pcsc.c'], tools=[]),
    'sim_tool': dict(own=['core', 'model', 'world', 'txn', 'fields', 'service', 'program', 'atr', 'lines', 'apdu', 'sim_tool'], skip=[], tools=['emv-tool.c', 'print_helpers.c'],
                     tool_rename={'emv-tool.c': {'main': 'tool_main', 'exit': 'sim_exit', 'argp_parse': 'sim_argp_parse', 'argp_error': 'sim_argp_error', 'emv_strings_init': 'sim_strings_init',
                                                 'print_emv_debug': 'sim_print_emv_debug', 'print_emv_debug_verbose': 'sim_print_emv_debug_verbose'}}),
    'sim_decode': dict(own=['core', 'model', 'world', 'program', 'atr', 'lines', 'fields', 'apdu', 'sim_decode'], skip=['pcsc.c'], tools=['emv-decode.c', 'print_helpers.c'],
                     tool_rename={'emv-decode.c': {'main': 'decode_main', 'exit': 'sim_exit', 'argp_parse': 'sim_argp_parse', 'argp_error': 'sim_argp_error', 'emv_strings_init': 'sim_strings_init'}}),
    'sim_codes': dict(own=['core', 'sim_codes'], skip=['pcsc.c'], tools=[], state=['isocodes_lookup.cpp', 'mcc_lookup.cpp'], jsonc=True),
    'sim_pcsc': dict(own=['core', 'model', 'world', 'service', 'atr', 'sim_pcsc'], skip=[], tools=[]),
}
def load_programs():
    return PROGRAMS

def build(prog):
    os.makedirs(BUILD, exist_ok=True)
    p = load_programs()[prog]
    own = [os.path.join(ROOT, 'sim', o + '.cpp') for o in p['own']]
    key = tree_hash(repo_files('src', 'tools') + glob.glob(ROOT + '/sim/*') + [os.path.abspath(__file__)])
    out = os.path.join(BUILD, '%s-%s' % (prog, key))
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        for old in glob.glob(os.path.join(BUILD, prog + '-*')):
            try:
                os.unlink(old)
            except OSError:
                pass
        w = os.path.join(BUILD, 'work-' + prog)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        with open(os.path.join(w, 'emv_utils_config.h'), 'w') as f:
            f.write(CONFIG)
        ren = {a: 'sim_' + a for a in ALLOC}
        ren.update({a: 'sim_' + a for a in p.get('rename', [])})
        jobs = []
        inc = ['-I' + w, '-I' + REPO + '/src', '-I' + REPO + '/tools', '-I/usr/include/PCSC']
        defs = ['-DEMV_DEBUG_ENABLED', '-DUSE_PCSCLITE', '-DHAVE_ARPA_INET_H']
        for s in lib_sources():
            b = os.path.basename(s)
            if b in p.get('skip', []):
                continue
            cc = [CXX, '-std=c++17'] if s.endswith('.cpp') else [CC, '-std=gnu11']
            if b in p.get('state', []):
                # static variables in one section, so that each run can start from their initial values
                jobs.append((cc + COMMON + ['-D_GLIBCXX_ASSERTIONS', '-fno-zero-initialized-in-bss', '--param', 'asan-globals=0'] + defs + inc + ['-c', s], os.path.join(w, 'lib_' + b + '.o'), {}, True))
                continue
            jobs.append((cc + COMMON + defs + inc + ['-c', s], os.path.join(w, 'lib_' + b + '.o'), {} if s.endswith('.cpp') else ren))
        for t in p['tools']:
            s = os.path.join(REPO, 'tools', t)
            r = dict(ren)
            r.update(p.get('tool_rename', {}).get(t, {}))
            # variables of the program in one section, so that each run can start from their initial values
            jobs.append(([CC, '-std=gnu11'] + COMMON + ['-fno-zero-initialized-in-bss', '--param', 'asan-globals=0'] + defs + inc + ['-c', s], os.path.join(w, 'tool_' + t + '.o'), r, True))
        for s in own:
            jobs.append(([CXX, '-std=c++17'] + COMMON + inc + ['-I' + ROOT + '/sim', '-c', s], os.path.join(w, os.path.basename(s) + '.o'), {}))
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(compile_one, jobs))
        if p.get('jsonc'):
            # the JSON reader with simulated files
            a = sh([CC, '-print-file-name=libjson-c.a']).strip()
            rf = os.path.join(w, 'jsonc.ren')
            with open(rf, 'w') as f:
                for k in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'open', 'read', 'close', 'arc4random'):
                    f.write('%s simj_%s\n' % (k, k))
            sh(['objcopy', '--redefine-syms=' + rf, a, os.path.join(w, 'libjsonc.a')])
            p = dict(p, libs=['-lboost_locale', os.path.join(w, 'libjsonc.a')])
        sh([CXX] + SAN + ['-o', out + '.tmp'] + objs + p.get('libs', ['-lboost_locale', '-ljson-c']))
        os.rename(out + '.tmp', out)
        shutil.rmtree(w, ignore_errors=True)
    return out

if __name__ == '__main__':
    try:
        for pr in (sys.argv[1:] or load_programs().keys()):
            print(build(pr))
    except BuildError as e:
        print(e)
        sys.exit(1)
