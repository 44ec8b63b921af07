"""Worker: python -m mon.run ID worker workers limit_s max_histories outfile  |  --replay FILE"""
import gc
import importlib
import json
import os
import signal
import sys
import time
import traceback


class Ctx:
    """Counters and samples of one worker run."""

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.evaluations = 0
        self.findings = {}

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def judged(self, key, nontrivial=True, sample=None):
        """One judged observation. key is hashable and identifies the case."""
        self.evaluations += 1
        if nontrivial:
            h = hash(key)
            if h not in self.distinct:
                self.distinct.add(h)
                if sample is not None and len(self.samples) < 12 and len(self.distinct) % 37 == 5:
                    self.samples.append(sample() if callable(sample) else sample)

    def finding(self, key, what):
        """A deviation listed in known_findings.txt (by mechanism)."""
        self.findings.setdefault(key, what)


HANG = 110      # seconds; histories take well below 1 s


def from_library(ex):
    import algebraixlib
    lib = os.path.dirname(os.path.abspath(algebraixlib.__file__)) + os.sep
    mine = os.path.dirname(os.path.abspath(__file__)) + os.sep
    for f in reversed(traceback.extract_tb(ex.__traceback__)):
        if os.path.abspath(f.filename).startswith(lib):
            return True
        if os.path.abspath(f.filename).startswith(mine) and f.name != 'alarm':
            return False
    return False


def main():
    sys.setrecursionlimit(20000)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if sys.argv[1] == '--replay':
        rep = json.load(open(sys.argv[2]))
        prop, seed, tier = rep['property'], rep['seed'], rep['tier']
    else:
        prop, worker, workers, limit, maxh, outfile = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    from mon.engine import Violation
    check = importlib.import_module('mon.checks.' + prop)
    ctx = Ctx(prop, seed, tier)

    class Hang(Exception):
        pass

    def alarm(*a):
        signal.alarm(30)
        raise Hang('no return within %d s' % HANG)
    signal.signal(signal.SIGALRM, alarm)

    def one(i):
        signal.alarm(HANG)
        try:
            check.history(ctx, i)
        except Violation as v:
            return {'property': prop, 'seed': seed, 'tier': tier, 'history': i, 'what': v.what, 'detail': v.detail}
        except MemoryError:
            raise
        except Exception as ex:
            # An exception that nobody expected: the library's if it comes from its code (valid inputs only are generated), ours otherwise.
            if not from_library(ex):
                raise
            what = 'the library hangs: %s' % ex if isinstance(ex, Hang) else 'the library raised %s' % type(ex).__name__
            return {'property': prop, 'seed': seed, 'tier': tier, 'history': i, 'what': what, 'detail': traceback.format_exc()[-3000:]}
        finally:
            signal.alarm(0)
        return None

    if sys.argv[1] == '--replay':
        # what needs a certain schedule of threads may need several attempts
        for _ in range(getattr(check, 'REPLAYS', 1)):
            v = one(rep['history'])
            if v:
                break
        print('replay: ' + ('VIOLATION reproduced: %s' % v['what'] if v else 'no violation'))
        if v:
            print(json.dumps(v, indent=1))
        sys.exit(1 if v else 0)

    last = cost = 0

    def recycle():
        # Objects of earlier histories die now (and not at some later time), so that the addresses of objects get used again.
        nonlocal last, cost
        t = time.time()
        if t - last > 15 * cost:
            gc.collect()
            last, cost = time.time(), time.time() - t
            ctx.count('collections')

    t0 = time.time()
    out = {'violation': None, 'error': None, 'histories': 0}
    i = worker
    try:
        while out['histories'] < maxh and time.time() - t0 < limit:
            v = one(i)
            out['histories'] += 1
            recycle()
            if v:
                out['violation'] = v
                break
            i += workers
    except Exception:
        out['error'] = 'history %d\n%s' % (i, traceback.format_exc())
    out.update(evaluations=ctx.evaluations, distinct=sorted(ctx.distinct), counters=ctx.counters, samples=ctx.samples, findings=ctx.findings,
               rule=check.RULE, need=getattr(check, 'NEED', []), wall=time.time() - t0)
    json.dump(out, open(outfile, 'w'))


main()
