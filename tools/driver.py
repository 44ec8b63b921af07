"""Start the worker processes of one check, merge what they observed, decide, and write the evidence file."""
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
WORKERS = 6
# seconds and histories per worker
BUDGET = {'quick': (35, 10 ** 9), 'thorough': (600, 10 ** 9)}


def budget(prop, tier):
    t, n = BUDGET[tier]
    cfg = json.load(open(os.path.join(ROOT, 'tools', 'budgets.json'))).get(prop, {})
    t, n = cfg.get(tier, [t, n])
    return float(os.environ.get('VERIF_LIMIT', t)), n


def env(tmp, prop='', i=0):
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO + ':' + ROOT, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'),
             TMPDIR=os.path.join(tmp, 'tmp'), LC_ALL='C.UTF-8', PYTHONWARNINGS='ignore')
    os.makedirs(e['TMPDIR'], exist_ok=True)
    if prop[0] == 'D' and i % WORKERS >= WORKERS - 2:
        # a platform whose default encoding is not UTF-8
        e.update(LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0', PYTHONIOENCODING='utf-8')
    return e


def known():
    """(property, key) -> text from known_findings.txt; 'fixed:' lines suppress nothing."""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else ():
        line = line.strip()
        if line.startswith('finding:'):
            _, prop, key, text = line.split(None, 3)
            out[prop.split('=')[1], key] = text
    return out


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def main():
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        code = run(tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def wait_all(procs, deadline):
    """Wait for the workers; stop early (True) once one of them has reported a violation and the others had a little time to do so."""
    stop = None
    while any(p.poll() is None for _, p in procs) and time.time() < deadline:
        time.sleep(.2)
        if stop is None:
            for out, p in procs:
                if p.poll() is not None and os.path.exists(out) and json.load(open(out))['violation']:
                    stop = time.time() + 2
        elif time.time() > stop:
            return True
    return False


def run(tmp, t0):
    if sys.argv[1] == '--replay':
        rep = json.load(open(sys.argv[2]))
        return subprocess.call([PY, '-m', 'mon.run', '--replay', sys.argv[2]], cwd=ROOT, env=env(tmp, rep['property'], rep['history']))
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit, maxh = budget(prop, tier)
    procs = []
    for w in range(WORKERS):
        out = os.path.join(tmp, 'w%d.json' % w)
        procs.append((out, subprocess.Popen([PY, '-m', 'mon.run', prop, str(w), str(WORKERS), str(limit), str(maxh), out], cwd=ROOT, env=env(tmp, prop, w),
                                            stdout=open(out + '.out', 'w'), stderr=subprocess.STDOUT, preexec_fn=limit_memory)))
    deadline = time.time() + limit + 150
    results, errors = [], []
    stopped = wait_all(procs, deadline)
    for out, p in procs:
        if p.returncode is None:
            p.kill()
            p.wait()
            if stopped:
                continue
            errors.append('worker timed out: ' + open(out + '.out', errors='replace').read()[-2000:])
            continue
        if not os.path.exists(out):
            errors.append('worker died (%s): %s' % (p.returncode, open(out + '.out', errors='replace').read()[-3000:]))
            continue
        r = json.load(open(out))
        results.append(r)
        if r['error'] and not r['violation']:
            errors.append(r['error'])
    ev = 0
    distinct, counters, samples, findings, viol = set(), {}, [], {}, []
    rule, need = '', []
    for r in results:
        ev += r['evaluations']
        distinct.update(r['distinct'])
        for k, n in r['counters'].items():
            counters[k] = counters.get(k, 0) + n
        samples += r['samples'][:4]
        findings.update(r['findings'])
        rule, need = r['rule'], r['need']
        if r['violation']:
            viol.append(r['violation'])
    hist = sum(r['histories'] for r in results)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': ev, 'distinct_nontrivial': len(distinct), 'rule': rule, 'samples': samples[:12], 'histories': hist,
                     'observed': dict(sorted(counters.items())), 'workers': WORKERS},
        'assumptions': ['observations are public return values and cached_* accessors of one process under PyPy 3.9', 'the reference model mon/model.py is right'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    listed = known()
    unlisted = []
    for k, what in sorted(findings.items()):
        if (prop, k) in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, what))
        else:
            unlisted.append((k, what))
    print('%s: %d histories, %d observations judged, %d distinct non-trivial, %.1f s' % (prop, hist, ev, len(distinct), time.time() - t0))
    if viol or unlisted:
        if viol:
            v = min(viol, key=lambda x: x['history'])
        else:
            v = {'property': prop, 'seed': seed, 'tier': tier, 'history': 0, 'what': 'finding not listed: %s' % unlisted[0][0], 'detail': unlisted[0][1]}
        os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', 'replay', '%s-%s-%d-%d.json' % (prop, tier, seed, v['history']))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('what: %s' % v['what'])
        print(str(v['detail'])[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('INCONCLUSIVE (error in the machinery): %s' % errors[0], file=sys.stderr)
        return 3
    missing = [k for k in need if not counters.get(k)]
    if missing or ev < 50:
        print('INCONCLUSIVE: the monitor never observed %s (%d observations)' % (missing, ev), file=sys.stderr)
        return 3
    return 0


main()
