#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

  run.py P05                 quick tier (VERIF_TIER=thorough or --thorough for the deep one)
  run.py --replay FILE       replays a violation file in a fresh process
  run.py --determinism P05   runs many seeds twice with different worker counts and compares

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Any other exit is an error of the check itself."""
import sys, os, json, time, subprocess, glob, re, shutil, tempfile
import build
from props import PROPS

ROOT = build.ROOT
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')

def env():
    e = dict(os.environ)
    for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS', 'LANGUAGE', 'LC_ALL', 'LC_MESSAGES', 'LC_CTYPE', 'SIM_HASHLOG'):
        e.pop(k, None)
    e['TZ'] = 'UTC'
    e['LANG'] = 'C'
    return e

def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) class=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def run_sim(binary, prop, seed, runs, tlimit, out, first=0, jobs=8, extra=(), e=None):
    cmd = [binary, '--prop', prop, '--seed', str(seed), '--runs', str(runs), '--from', str(first), '--jobs', str(jobs),
           '--time', str(tlimit), '--out', out] + list(extra)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=e or env(), cwd=os.path.dirname(out))
    res = {}
    try:
        res = json.load(open(out))
    except Exception as ex:
        res = {'error': 'no result: %s; %s' % (ex, p.stdout[-2000:])}
    return p.returncode, res, p.stdout

def merge(a, b):
    for k in ('runs', 'evals', 'sim_us', 'abandoned', 'masked', 'distinct', 'wall'):
        a[k] = a.get(k, 0) + b.get(k, 0)
    for k in ('faults', 'probes', 'known_hits'):
        d = a.setdefault(k, {})
        for n, v in b.get(k, {}).items():
            d[n] = d.get(n, 0) + v
    a.setdefault('samples', [])
    if len(a['samples']) < 6:
        a['samples'] += b.get('samples', [])
    a['masked_stages'] = sorted(set(a.get('masked_stages', [])) | set(b.get('masked_stages', [])))

def hashlog(binary, prop, seed, runs, jobs, tmp):
    base = os.path.join(tmp, 'hl%d' % jobs)
    for f in glob.glob(base + '.*'):
        os.unlink(f)
    e = env()
    e['SIM_HASHLOG'] = base
    run_sim(binary, prop, seed, runs, 120, os.path.join(tmp, 'hlout%d' % jobs), jobs=jobs, e=e)
    d = {}
    for f in glob.glob(base + '.*'):
        for l in open(f):
            i, h, n = l.split()
            d[int(i)] = (h, n)
    return d

def determinism(binary, prop, seed, runs, tmp, jobs=(3, 8)):
    a = hashlog(binary, prop, seed, runs, jobs[0], tmp)
    b = hashlog(binary, prop, seed, runs, jobs[1], tmp)
    same = sum(1 for i in a if b.get(i) == a[i])
    return len(a), len(b), same

def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        path = os.path.abspath(args[1])
        m = re.search(r'^property (\S+)', open(path, errors='replace').read(), re.M)
        prop = m.group(1)
        b = build.build(PROPS[prop]['bin'])
        with tempfile.TemporaryDirectory(prefix='simreplay') as tmp:
            p = subprocess.run([b, '--prop', prop, '--replay', path] + (['--trace', os.path.abspath(args[2])] if len(args) > 2 else []), env=env(), cwd=tmp)
        return 1 if p.returncode == 3 else 0 if p.returncode == 0 else 2
    if args and args[0] == '--determinism':
        bad = 0
        for prop in args[1:] or PROPS:
            b = build.build(PROPS[prop]['bin'])
            with tempfile.TemporaryDirectory(prefix='simdet') as tmp:
                n = int(os.environ.get('DET_RUNS', '4000'))
                for seed in range(1, 1 + int(os.environ.get('DET_SEEDS', '3'))):
                    x, y, s = determinism(b, prop, seed, n, tmp, (1 + seed % 5, 8))
                    print(prop, 'seed', seed, 'runs', x, y, 'identical', s)
                    bad |= not (x == y == s)
        return 2 if bad else 0

    prop = args[0]
    tier = 'thorough' if '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    cfg = PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    evf = os.path.join(EVID, prop + '.json')
    if os.path.exists(evf):
        os.unlink(evf)
    try:
        binary = build.build(cfg['bin'])
    except build.BuildError as ex:
        print('the simulator could not be built from the working tree:\n%s' % ex)
        return 2
    tbuild = time.time() - t0
    kn = known(prop)
    extra = []
    for k, _ in kn:
        extra += ['--known', k]
    tot = {}
    rc = 0
    seeds = []
    tmp = tempfile.mkdtemp(prefix='sim%s' % prop)
    try:
        det = determinism(binary, prop, seed, 160, tmp)
        if tier == 'quick':
            plan = [(seed, cfg['quick'])]
            limit = cfg.get('quick_time', 240)
        else:
            plan = [(seed * 1000 + i, cfg['quick'] * 4) for i in range(100000)]
            limit = int(os.environ.get('VERIF_THOROUGH_S', '720'))
        end = time.time() + limit
        viol = None
        for s, runs in plan:
            left = end - time.time()
            if left <= 1:
                break
            out = os.path.join(tmp, 'out')
            rc, res, txt = run_sim(binary, prop, s, runs, left, out, extra=extra + ['--minbudget', '20'])
            seeds.append(s)
            merge(tot, res)
            if rc == 3:
                viol = res['violation']
                break
            if rc != 0:
                print('simulator error %d: %s\n%s' % (rc, res.get('error'), txt[-3000:]))
                break
        code = 0
        replay = None
        if rc == 3:
            # gate: a fresh process must reproduce it exactly
            replay = os.path.join(EVID, prop + '.replay')
            shutil.copyfile(viol['replay'], replay)
            outs = []
            want = 'class=%s hash=%s' % (viol['class'], viol['hash'])
            for _ in range(8):
                p = subprocess.run([binary, '--prop', prop, '--replay', replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env(), cwd=tmp)
                outs.append((p.returncode, (p.stdout.splitlines() or [''])[0]))
                if len(outs) == 2 and all(o[0] == 3 and want in o[1] for o in outs):
                    break
            if len(outs) == 2:
                code = 1
            elif any(o[0] == 3 for o in outs):
                # the code under test acts on memory it never wrote: the
                # violation is real but not identical every time
                print('replay: %d of %d executions violate the property, not all alike' % (sum(o[0] == 3 for o in outs), len(outs)))
                code = 1
            else:
                print('violation did not replay: %r, wanted %s' % (outs, want))
                code = 2
        elif rc != 0:
            code = 2
        wall = time.time() - t0
        simw = max(tot.get('wall', 0), 1e-3)
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': tot.get('evals', 0),
                'distinct_nontrivial': tot.get('distinct', 0),
                'rule': cfg['rule'] + ' A run is counted once per distinct abstract history (sequence of operations, outcomes, reader answers by kind) and only if ' + cfg.get('nontrivial', 'the system under test exchanged data with the simulated environment') + '.',
                'samples': tot.get('samples', [])[:6],
                'simulated_runs': tot.get('runs', 0),
                'seeds': seeds[:50] if len(seeds) > 50 else seeds,
                'runs_per_hour': int(tot.get('runs', 0) / simw * 3600),
                'simulated_time_s': round(tot.get('sim_us', 0) / 1e6, 3),
                'faults_injected': tot.get('faults', {}),
                'conditions_reached': tot.get('probes', {}),
                'runs_ended_early_by_another_propertys_failure': tot.get('abandoned', 0) + tot.get('masked', 0),
                'determinism_self_check': {'runs': det[0], 'identical_with_other_worker_count': det[2]},
                'real_components': cfg['real'], 'simulated_components': cfg['stub'],
                'known_findings_hit': tot.get('known_hits', {}),
                'build_s': round(tbuild, 1),
            },
            'assumptions': cfg.get('assumptions', []),
            'wall_s': round(wall, 2), 'violations': 1 if code == 1 else 0,
        }
        json.dump(ev, open(evf, 'w'), indent=1)
        for k, d in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, d))
        print('%s %s: %d runs, %d oracle evaluations, %d distinct non-trivial, %d faults, %.1f s' % (
            prop, tier, tot.get('runs', 0), tot.get('evals', 0), tot.get('distinct', 0), sum(tot.get('faults', {}).values()), wall))
        if code == 1:
            print('class %s: %s' % (viol['class'], viol['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
        return code
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
