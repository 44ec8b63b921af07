"""Several threads work on the same objects at once; every answer must be the one a lone thread gets."""
import io
import json
import os
import random
import sys
import threading
import time
from mon import gen as G
from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon.engine import ALG_PREDS, MEMBERS, PREDS, History, Violation, member_truth, pred_truth, short_tb
from mon.opcheck import accepted, weighted
from mon.model import U

import algebraixlib
import algebraixlib.import_export.csv as ecsv
import algebraixlib.import_export.json as ejson
import algebraixlib.import_export.mojson as mojson
import algebraixlib.import_export.xml as exml
import algebraixlib.util.latexprinter as latex
import algebraixlib.util.mathobjectprinter as printer

NEED = ['operations', 'predicates', 'lookups', 'texts', 'exports', 'imports', 'switches inside the library', 'facts verified', 'objects verified', 'threads', 'storms', 'storms of lookups']
RULE = ('Shared objects that know nothing about themselves yet are used by 3-5 threads at once; each thread runs the same operations, predicates, lookups, renderings, exports and imports in its own order, with thread switches '
        'forced at random lines inside the library. Answers are compared with the model or with those of a lone thread on equal objects, and all objects and their remembered facts are verified afterwards. '
        'Distinct by the observed order of starts and ends of tasks of the threads (interleavings).')
REPLAYS = 30
LIB = os.path.dirname(os.path.abspath(algebraixlib.__file__)) + os.sep


def flat(m):
    """Model result in a comparable form."""
    return m


class Task:
    def __init__(self, kind, text, run, judge):
        self.kind, self.text, self.run, self.judge = kind, text, run, judge


def equals(exp):
    return lambda got: got is exp if (exp is U or got is U or type(exp) is bool) else type(got) is type(exp) and got == exp


def tasks_of(ctx, h, objs, storm):
    r = h.rng
    out = []
    for _ in range(r.randint(4, 10) if storm else r.randint(8, 16)):
        k = r.uniform(*(storm if type(storm) is tuple else (.4, .66))) if storm else r.random()
        o, m = r.choice(objs)
        if k < .4:
            op = weighted(r, O.OPS)
            args = h.draw_args(op)
            if args is None:
                continue
            margs = [x for _, x in args]
            exp = op.model(*margs)
            out.append(Task('operations', h.text(op, args), lambda op=op, args=args: L.to_model(op.fn(*[a for a, _ in args])),
                            lambda got, op=op, margs=margs, exp=exp: accepted(op, margs, exp, got)))
        elif k < .62:
            n, f = r.choice(PREDS + MEMBERS)
            if '.' in n:
                exp = member_truth(n, m)
            elif mm.ambiguous(m):
                continue
            else:
                exp = pred_truth(n, m)
            out.append(Task('predicates', '%s(%s)' % (n, mm.show(m)), lambda f=f, o=o: L.to_model(f(o)), equals(exp)))
        elif k < .72:
            x, xm = h.pick_left(m)
            if m[0] not in 'SM':
                continue
            n = r.choice(['call', 'index', 'lefts', 'rights', 'has'])
            o2 = L.build(m, r)
            f = {'call': lambda o, x: o(x), 'index': lambda o, x: o[x], 'lefts': lambda o, x: o.get_left_set(), 'rights': lambda o, x: o.get_right_set(),
                 'has': lambda o, x: o.has_element(x)}[n]
            try:
                exp = L.to_model(f(o2, x))
            except Exception:
                ctx.count('exceptions of a lone thread')
                continue
            out.append(Task('lookups', '%s of %s at %s' % (n, mm.show(m), mm.show(xm)), lambda f=f, o=o, x=x: L.to_model(f(o, x)), equals(exp)))
        elif k < .84:
            n, f = r.choice([('str', str), ('repr', repr), ('hash', hash), ('LaTeX', latex.math_object_to_latex), ('mo_to_str', printer.mo_to_str), ('ground set', lambda o: str(o.get_ground_set()))])
            if n == 'mo_to_str':
                exp = f(o)      # not canonical for equal objects
            else:
                exp = f(L.build(m, r))
            out.append(Task('texts', '%s of %s' % (n, mm.show(m)), lambda f=f, o=o: L.to_model(f(o)), equals(exp)))
        elif k < .9:
            n = r.choice(['csv', 'mojson'])
            if n == 'csv':
                if not (mm.is_clan(m) or mm.is_mclan(m)):
                    continue

                def f(o):
                    b = io.StringIO()
                    return ecsv.export_csv(o, b), ''.join(sorted(b.getvalue().splitlines(True)))
            else:
                def f(o):
                    return canon(json.loads(json.dumps(o, cls=mojson.ExportJson)))
            try:
                exp = f(L.build(m, r))
            except Exception:
                ctx.count('exceptions of a lone thread')
                continue
            out.append(Task('exports', '%s of %s' % (n, mm.show(m)), lambda f=f, o=o: L.to_model(f(o)), equals(exp)))
        else:
            out.append(an_import(r))
    return out


def canon(x):
    """JSON with lists sorted: the order of elements is not promised."""
    if isinstance(x, list):
        return sorted((canon(y) for y in x), key=repr)
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    return x


def an_import(r):
    cols = r.sample(['a', 'b', 'c', 'd', 'id'], r.randint(1, 4))
    rows = [{c: r.choice(['1', '2', 'x', 'y']) for c in cols if r.random() < .9} for _ in range(r.randint(1, 12))]
    A, C, S, M = mm.A, mm.C, mm.S, mm.M
    rels = [S(C(A(c), A(v)) for c, v in row.items()) for row in rows]
    k = r.randint(0, 3)
    if k == 0:
        text = ','.join(cols) + '\n' + ''.join(','.join(row.get(c, '""') for c in cols) + '\n' for row in rows)
        return Task('imports', 'import_csv of %r' % text, lambda: L.to_model(ecsv.import_csv(io.StringIO(text))), equals(S(rels)))
    if k == 1:
        text = ','.join(cols) + '\n' + ''.join(','.join(row.get(c, '""') for c in cols) + '\n' for row in rows)
        cnt = {}
        for x in rels:
            cnt[x] = cnt.get(x, 0) + 1
        return Task('imports', 'import_csv (rows counted) of %r' % text, lambda: L.to_model(ecsv.import_csv(io.StringIO(text), has_dup_rows=True)), equals(M(cnt)))
    if k == 2:
        text = '<t>' + ''.join('<r %s z="1"/>' % ' '.join('%s="%s"' % kv for kv in row.items()) for row in rows) + '</t>'
        exp = S([C(A('t'), S(C(A('r'), S(list(x[1]) + [C(A('z'), A('1'))])) for x in rels))])
        return Task('imports', 'import_xml of %r' % text, lambda: L.to_model(exml.import_xml(io.StringIO(text))), equals(exp))
    text = json.dumps({'r': [dict(row, z='1') for row in rows]})
    exp = S(C(A('r'), S(list(x[1]) + [C(A('z'), A('1'))])) for x in rels)
    return Task('imports', 'import_json of %r' % text, lambda: L.to_model(ejson.import_json(io.StringIO(text))), equals(exp))


def run_threads(tasks, seeds, share):
    """Run all tasks in every thread; return (events, results, errors)."""
    events, results, errors, switches = [], [], [], [0]
    gate = threading.Barrier(len(seeds))

    def tracer(rnd):
        def local(frame, event, arg):
            if event == 'line' and rnd.random() < share:
                switches[0] += 1
                time.sleep(0)
            return local

        def enter(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(LIB) else None
        return enter

    def work(t, seed):
        rnd = random.Random(seed)
        mine = list(range(len(tasks)))
        if rnd.random() < .7:
            rnd.shuffle(mine)
        gate.wait()
        sys.settrace(tracer(rnd))
        try:
            for i in mine:
                events.append((t, i, 0))
                try:
                    x = tasks[i].run()
                    results.append((i, x))
                except Exception as e:
                    errors.append((i, e, short_tb(e)))
                events.append((t, i, 1))
        finally:
            sys.settrace(None)
    ths = [threading.Thread(target=work, args=(t, x), daemon=True) for t, x in enumerate(seeds)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return events, results, errors, switches[0]


def history(ctx, i):
    # many: a storm of questions about a few fresh objects that know nothing yet
    storm = i // 6 % 4 != 0
    if storm and i // 6 % 8 in (3, 6):
        storm = (.62, .72) if i // 6 % 16 < 8 else (.62, .84)
    h = History(ctx.prop, ctx.seed, i, ctx.counters, huge=False, tiny=True if storm is True and i % 5 else None)
    r = h.rng
    h.new = .25
    objs = []
    for _ in range(r.randint(1, 2) if storm else r.randint(3, 6)):
        kind = r.choice(['func', 'func', 'func', 'rel', 'clan', 'mclan', 'mset'] if type(storm) is tuple else ['rel', 'clan', 'mclan', 'set', 'mset', 'clan', 'rel', 'func'])
        objs.append(h.fresh(h.gen.of(kind)) if storm else h.pick(kind, fresh=.7))
    if storm is True:
        ctx.count('storms')
    elif storm:
        ctx.count('storms of lookups')
        for o, m in objs:
            if r.random() < .5:
                # what the answers rest on is known already
                L.properties.is_functional(o)
                L.clans.is_member(o)
                L.relations.is_member(o)
    ts = tasks_of(ctx, h, objs, storm)
    if not ts:
        return
    n = r.randint(3, 5)
    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    try:
        events, results, errors, sw = run_threads(ts, [r.random() for _ in range(n)], r.choice([.005, .02, .02, .1]))
    finally:
        sys.setswitchinterval(old)
    detail = {'threads': n, 'tasks': [t.text[:200] for t in ts], 'trace': h.trace[-30:]}
    for t, e, tb in errors:
        raise Violation('%s raised %s among threads' % (ts[t].kind, type(e).__name__), dict(detail, task=ts[t].text, exception=tb))
    for t, got in results:
        ctx.count(ts[t].kind)
        if not ts[t].judge(got):
            raise Violation('another answer among threads', dict(detail, task=ts[t].text, got=mm.show(got) if L.is_val(got) else repr(got)))
    ctx.count('threads', n)
    ctx.count('switches inside the library', sw)
    open_, overlaps = set(), 0
    for t, k, end in events:
        if end:
            open_.discard((t, k))
        else:
            overlaps += bool(open_)
            open_.add((t, k))
    ctx.count('tasks started while others were running', overlaps)
    for o, m in objs + [(e.obj, e.model) for e in h.pool]:
        now = L.to_model(o)
        if now != m:
            raise Violation('an object changed its value among threads', dict(detail, was=mm.show(m), now=mm.show(now)))
        ctx.count('objects verified')
        seen = {}
        for bad in L.check_flags(o, m, seen):
            raise Violation('a false fact was remembered among threads', dict(detail, object=mm.show(bad[0]), fact=bad[1], remembered=bad[2], truth=str(bad[3])))
        ctx.count('facts verified', sum(seen.values()))
    ctx.judged(tuple((t, k, e) for t, k, e in events), overlaps > 0, lambda: '%d threads, %d tasks, order of starts and ends %s' % (n, len(ts), events[:30]))
