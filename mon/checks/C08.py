"""Faults: operations that are interrupted, whose callbacks, values, sources or targets fail, or whose callbacks use the library themselves."""
import builtins
import gc
import io
import json
import os
import sys
import tempfile
from mon import gen as G
from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon.checks import C07
from mon.engine import History, Violation, short_tb
from mon.opcheck import accepted, weighted
from mon.model import A, C, S, M, U

import algebraixlib
import algebraixlib.import_export.csv as ecsv
import algebraixlib.import_export.json as ejson
import algebraixlib.import_export.mojson as mojson
import algebraixlib.import_export.rdf as erdf
import algebraixlib.import_export.xml as exml
import algebraixlib.util.miscellaneous as misc

NEED = ['interrupted operations', 'interrupted predicates', 'interrupted lookups', 'interrupted texts', 'interrupted exports', 'interrupted imports', 'completed before the interruption', 'interrupted twice',
        'failed callbacks', 'failed values', 'failed sources', 'failed targets', 'failed slices', 'failed conversions', 'malformed files', 'nested calls', 'nested imports', 'objects verified', 'facts verified', 'abandoned generators']
RULE = ('Operations, predicates, lookups, renderings, imports and exports are ended by an exception: at a random line inside the library, by a callback, by the comparison or hash of an atom\'s value, by a source or target of data, '
        'or run with callbacks that use the library on the same objects. The exception must come out, all objects and remembered facts are verified against their models, and the repetition must give the answer of the model. '
        'Distinct by kind of fault, task and place.')
LIB = os.path.dirname(os.path.abspath(algebraixlib.__file__)) + os.sep


class Stop(BaseException):
    """Like KeyboardInterrupt."""


class Boom(Exception):
    pass


class BoomKey(KeyError):
    pass


class BoomValue(ValueError):
    pass


class BoomOS(OSError):
    pass


class BoomType(TypeError):
    pass


class BoomAttr(AttributeError):
    pass


class BoomMem(MemoryError):
    pass


class BoomIndex(IndexError):
    pass


ASYNC = [Stop, Stop, Boom, BoomMem]
SYNC = [Stop, Boom, BoomKey, BoomValue, BoomOS, BoomType, BoomAttr, BoomIndex, BoomMem]


def verify(ctx, what, objs, detail):
    for o, m, hsh in objs:
        try:
            now = L.to_model(o)
        except Exception as ex:
            raise Violation('%s: an object is broken' % what, dict(detail, was=mm.show(m), exception=short_tb(ex)))
        if now != m or hash(o) != hsh:
            raise Violation('%s: an object has changed' % what, dict(detail, was=mm.show(m), now=mm.show(now)))
        seen = {}
        for bad in L.check_flags(o, m, seen):
            raise Violation('%s: a false fact is remembered' % what, dict(detail, object=mm.show(bad[0]), fact=bad[1], remembered=bad[2], truth=str(bad[3])))
        ctx.count('objects verified')
        ctx.count('facts verified', sum(seen.values()))
    if L.undef.RaiseOnUndef.get_level() != 0:
        raise Violation('%s: the raise level has changed' % what, detail)


def objects(h, more=()):
    out = []
    for o, m in [(e.obj, e.model) for e in h.pool] + list(more):
        if isinstance(o, L.mo.MathObject) and L.is_val(m):
            out.append((o, m, None))
    return out


class Cut:
    """Raise an exception at the k-th line executed inside the library."""

    def __init__(self, exc, k):
        self.exc, self.k, self.fired, self.where = exc, k, None, None

    def __enter__(self):
        def local(frame, event, arg):
            if event == 'line' and self.fired is None:
                self.k -= 1
                if self.k <= 0:
                    self.fired = self.exc('injected')
                    self.where = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                    sys.settrace(None)
                    raise self.fired
            return local

        def enter(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(LIB) else None
        gc.disable()  # No finalisers: an exception in a generator that is being collected goes nowhere.
        sys.settrace(enter)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        gc.enable()


def fault(ctx, what, detail, run, fired):
    """Run what fails (or not); True if it was ended by the injected exception. fired() is that exception or None."""
    try:
        run()
    except BaseException as ex:
        f = fired()
        if f is None:
            if not isinstance(ex, Exception):
                raise
            raise Violation('%s: raised %s' % (what, type(ex).__name__), dict(detail, exception=short_tb(ex)))
        x = ex
        while x is not None and x is not f:
            x = x.__cause__ or x.__context__
        if x is None or type(ex) is not type(f):
            raise Violation('%s: another exception came out' % what, dict(detail, raised=repr(f), exception=short_tb(ex)))
        return True
    if fired() is not None:
        raise Violation('%s: the exception was swallowed' % what, dict(detail, raised=repr(fired())))
    return False


def interrupts(ctx, h, storm):
    r = h.rng
    h.new = .3
    objs = []
    for _ in range(r.randint(1, 3)):
        kind = r.choice(['rel', 'clan', 'mclan', 'set', 'mset', 'clan', 'rel', 'func'])
        objs.append(h.fresh(h.gen.of(kind)) if storm else h.pick(kind, fresh=.6))
    ts = C07.tasks_of(ctx, h, objs, storm)
    objs = [(o, m, hash(L.build(m))) for o, m, _ in objects(h, objs)]
    for t in ts:
        detail = {'task': t.text[:1500], 'trace': h.trace[-20:]}
        hits = 0
        for _ in range(r.choice([1, 1, 2, 3])):
            cut = Cut(r.choice(ASYNC), r.randint(1, 2 ** r.randint(1, 9)))

            def run():
                with cut:
                    t.run()
            hit = fault(ctx, t.kind, detail, run, lambda: cut.fired)
            detail['interrupted at'] = cut.where
            ctx.count('interrupted ' + t.kind if hit else 'completed before the interruption')
            if hit:
                hits += 1
                ctx.judged(('cut', t.text, cut.where, cut.exc.__name__), True, lambda: '%s interrupted at %s' % (t.text[:200], cut.where))
            if r.random() < .5 or not hit:
                verify(ctx, 'after an interruption', objs, detail)
        if hits > 1:
            ctx.count('interrupted twice')
        try:
            got = t.run()
        except Exception as ex:
            raise Violation('%s raised %s after an interruption' % (t.kind, type(ex).__name__), dict(detail, exception=short_tb(ex)))
        if not t.judge(got):
            raise Violation('another answer after an interruption', dict(detail, got=mm.show(got) if L.is_val(got) else repr(got)[:1500]))
    verify(ctx, 'after interruptions', objs, {'tasks': [t.text[:200] for t in ts], 'trace': h.trace[-20:]})


CALLS = [o for o in O.OPS if o.name in ('sets.restrict', 'partition.partition', 'partition.make_labeled_partition', 'sets.chain_binary_operation', 'extension.unary_extend', 'extension.binary_extend',
                                        'extension.unary_multi_extend', 'extension.binary_multi_extend')]


class Trap:
    """Wraps a callable; its k-th call fails."""

    def __init__(self, f, exc, k, once=False):
        self.f, self.exc, self.k, self.fired, self.calls, self.once = f, exc, k, None, 0, once

    def __call__(self, *a):
        self.calls += 1
        if self.k is not None and self.calls >= self.k and not (self.once and self.fired):
            self.fired = self.fired or self.exc('injected')
            raise self.fired
        return self.f(*a)


def callbacks(ctx, h):
    r = h.rng
    op = r.choice(CALLS)
    args = h.draw_args(op)
    if args is None:
        return
    margs = [m for _, m in args]
    text = h.text(op, args)
    detail = {'call': text[:1500], 'trace': h.trace[-20:]}
    objs = [(o, m, hash(L.build(m))) for o, m, _ in objects(h, args)]
    pos = 1 if op.name == 'sets.chain_binary_operation' else len(args) - 1
    exp = op.model(*margs)
    if r.random() < .55:
        trap = Trap(args[pos][0], r.choice(SYNC), r.choice([1, 1, 2, 3, r.randint(1, 12)]), r.random() < .4)
        vals = [a for a, _ in args]
        vals[pos] = trap
        level = detail['level'] = r.choice([0, 0, 1, 2])

        def run():
            try:
                op.fn(*vals)
            except L.undef.UndefException:
                if level == 0 or trap.fired:
                    raise
        L.undef.RaiseOnUndef.set_level(level)
        try:
            hit = fault(ctx, op.name, detail, run, lambda: trap.fired)
            now = L.undef.RaiseOnUndef.get_level()
        finally:
            L.undef.RaiseOnUndef.reset()
        if now != level:
            raise Violation('after a failed callback: the raise level has changed', dict(detail, now=now))
        if hit:
            ctx.count('failed callbacks')
            ctx.judged((op.name, trap.calls, type(trap.fired).__name__) + tuple(m for m in margs if L.is_val(m)), True, lambda: '%s, call %d raising %s' % (text[:200], trap.calls, type(trap.fired).__name__))
        verify(ctx, 'after a failed callback', objs, detail)
    else:
        # the callback works with the library while the operation runs
        inner = []
        mathobjs = [(o, m) for o, m, _ in objs]
        outer = (op, args[pos][0], vals0(args))
        depth = [0]

        def nested(*a):
            if depth[0] < 2 and r.random() < .5:
                depth[0] += 1
                try:
                    work(ctx, h, mathobjs, outer, args, exp, margs)
                finally:
                    depth[0] -= 1
            inner.append(1)
            return args[pos][0](*a)
        vals = vals0(args)
        vals[pos] = nested
        try:
            got = L.to_model(op.fn(*vals))
        except Exception as ex:
            if isinstance(ex, Violation):
                raise
            raise Violation('%s raised %s while its callback uses the library' % (op.name, type(ex).__name__), dict(detail, exception=short_tb(ex)))
        if not accepted(op, margs, exp, got):
            raise Violation('another result of %s if its callback uses the library' % op.name, dict(detail, expected=mm.show(exp), got=mm.show(got)))
        if inner:
            ctx.count('nested calls')
            ctx.judged(('nested', op.name) + tuple(m for m in margs if L.is_val(m)), True, lambda: '%s with nested calls' % text[:200])
        verify(ctx, 'after nested calls', objs, detail)
    got = L.to_model(op.fn(*vals0(args)))
    if not accepted(op, margs, exp, got):
        raise Violation('another result of %s after a failed or nesting callback' % op.name, dict(detail, expected=mm.show(exp), got=mm.show(got)))


def vals0(args):
    return [a for a, _ in args]


def work(ctx, h, objs, outer, args, exp, margs):
    """Something with the objects of the running operation, judged."""
    r = h.rng
    op, f, vals = outer
    if r.random() < .35:
        got = L.to_model(op.fn(*vals))
        if not accepted(op, margs, exp, got):
            raise Violation('another result of a nested %s' % op.name, {'call': h.text(op, args)[:1500], 'expected': mm.show(exp), 'got': mm.show(got), 'trace': h.trace[-20:]})
        return
    for t in C07.tasks_of(ctx, h, objs, True)[:2]:
        try:
            got = t.run()
        except Exception as ex:
            raise Violation('nested %s raised %s' % (t.kind, type(ex).__name__), {'task': t.text[:1500], 'exception': short_tb(ex), 'trace': h.trace[-20:]})
        if not t.judge(got):
            raise Violation('another answer of a nested call', {'task': t.text[:1500], 'got': mm.show(got) if L.is_val(got) else repr(got)[:1500], 'trace': h.trace[-20:]})


FUSE = {'left': None, 'exc': None, 'fired': None}


class Bomb:
    """A value that compares, hashes and prints itself, until the fuse is down."""

    def __init__(self, v):
        self.v = v

    def _tick(self):
        if FUSE['left'] is not None:
            FUSE['left'] -= 1
            if FUSE['left'] <= 0:
                FUSE['fired'] = FUSE['fired'] or FUSE['exc']('injected')
                raise FUSE['fired']

    def __eq__(self, o):
        self._tick()
        return isinstance(o, Bomb) and self.v == o.v

    def __hash__(self):
        self._tick()
        return self.v // 2      # some collide

    def __lt__(self, o):
        self._tick()
        return self.v < o.v

    def __repr__(self):
        self._tick()
        return 'Bomb(%d)' % self.v


def fuse(run, exc, k):
    FUSE.update(left=k, exc=exc, fired=None)
    try:
        return run()
    finally:
        FUSE['left'] = None


BOMBS = [[Bomb(0), Bomb(1), Bomb(2)], [Bomb(0), Bomb(1), 'a'], [Bomb(0), Bomb(1), Bomb(4), 0, 1]]


def values(ctx, h):
    """Operations on objects whose values fail."""
    r = h.rng
    h.gen = G.Gen(r, nest=r.choice([0, 0, .1]), pools=BOMBS)
    h.pool.clear()
    if r.random() < .75:
        for _ in range(20):
            op = weighted(r, O.OPS)
            if op.fam not in ('A08',):
                break
        args = h.draw_args(op)
        if args is None:
            return
        margs = [m for _, m in args]
        exp = op.model(*margs)
        run = lambda: op.fn(*vals0(args))
        judge = lambda got: accepted(op, margs, exp, got)
        name, text, more = op.name, h.text(op, args), args
    else:
        o, m = h.pick(r.choice(['rel', 'clan', 'mclan', 'set', 'mset']))
        o2, m2 = L.build(m, r), m
        name, run, judge = r.choice([
            ('==', lambda: o == o2, lambda g: g is True), ('!=', lambda: o != o2, lambda g: g is False), ('<', lambda: o < o2, lambda g: g is False),
            ('copy', lambda: L.mo.Set([o, o2]), lambda g: g == S([m])), ('repr', lambda: repr(o) == repr(o2), lambda g: g is True), ('in', lambda: o2 in L.mo.Set([o]), lambda g: g is True)])
        text, more = '%s of %s' % (name, mm.show(m)), [(o, m), (o2, m2)]
    detail = {'call': text[:1500], 'trace': h.trace[-20:]}
    objs = [(o, m, hash(L.build(m))) for o, m, _ in objects(h, more)]
    # an ordering may legitimately take a TypeError for 'no order'
    exc = r.choice([Stop, Boom, BoomKey, BoomValue, BoomOS, BoomIndex, BoomMem])
    k = r.randint(1, 2 ** r.randint(0, 7))
    if fault(ctx, name, detail, lambda: fuse(run, exc, k), lambda: FUSE['fired']):
        ctx.count('failed values')
        ctx.judged(('value', text, k), True, lambda: '%s, %d-th comparison or hash fails' % (text[:200], k))
    FUSE['fired'] = None
    verify(ctx, 'after a failed value', objs, detail)
    got = L.to_model(run())
    if not judge(got):
        raise Violation('another result of %s after a failed value' % name, dict(detail, got=mm.show(got) if L.is_val(got) else repr(got)))


class Opened:
    """Records the files that are opened meanwhile."""

    def __enter__(self):
        self.files = []
        self.old = builtins.open

        def opened(*a, **k):
            f = self.old(*a, **k)
            self.files.append(f)
            return f
        builtins.open = io.open = opened
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.old

    def check(self, ctx, what, detail):
        for f in self.files:
            if not f.closed:
                name = f.name
                f.close()
                raise Violation('%s: a file stays open' % what, dict(detail, file=os.path.basename(str(name))))
            ctx.count('files closed')


class BadStream(io.StringIO):
    """A source or target that fails after some calls."""

    def arm(self, exc, k):
        self.exc, self.k, self.fired = exc, k, None
        return self

    def tick(self):
        if getattr(self, 'k', None) is not None:
            self.k -= 1
            if self.k <= 0:
                self.fired = self.fired or self.exc('injected')
                raise self.fired

    def read(self, *a):
        self.tick()
        return super().read(*a)

    def readline(self, *a):
        self.tick()
        return super().readline(*a)

    def __next__(self):
        self.tick()
        return super().__next__()

    def write(self, *a):
        self.tick()
        return super().write(*a)


def a_table(h):
    r = h.rng
    cols = r.sample(['a', 'b', 'c', 'd', 'id'], r.randint(1, 4))
    rows = [{c: r.choice(['1', '2', '3', '44']) for c in cols if r.random() < .9} for _ in range(r.randint(1, 12))]
    text = ','.join(cols) + '\r\n' + ''.join(','.join(row.get(c, '""') for c in cols) + '\r\n' for row in rows)
    return cols, rows, text


def rel_of(row, f=lambda v: v):
    return S(C(A(c), A(f(v))) for c, v in row.items())


def sources(ctx, h):
    r = h.rng
    cols, rows, text0 = a_table(h)
    text = text0
    docs = {'csv': (text, lambda s: ecsv.import_csv(s), S(rel_of(x) for x in rows)),
            'csv rows': (text, lambda s: ecsv.import_csv(s, has_dup_rows=True), counted(rel_of(x) for x in rows)),
            'json': (json.dumps({'r': [dict(x, z='1') for x in rows]}), ejson.import_json, S(C(A('r'), S(list(rel_of(x)[1]) + [C(A('z'), A('1'))])) for x in rows)),
            'xml': ('<t>' + ''.join('<r %s z="1"/>' % ' '.join('%s="%s"' % kv for kv in x.items()) for x in rows) + '</t>', exml.import_xml,
                    S([C(A('t'), S(C(A('r'), S(list(rel_of(x)[1]) + [C(A('z'), A('1'))])) for x in rows))]))}
    name = r.choice(sorted(docs))
    text, load, exp = docs[name]
    detail = {'format': name, 'text': text[:1500]}
    k = r.random()
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'd.' + name[:3])
        if k < .35:
            src = BadStream(text).arm(r.choice(SYNC), r.choice([1, 2, r.randint(1, 10)]))
            if fault(ctx, 'import of ' + name, detail, lambda: load(src), lambda: src.fired):
                ctx.count('failed sources')
                ctx.judged(('source', name, text), True)
        elif k < .6 and name.startswith('csv'):
            col = r.choice(cols)
            n = sum(col in x for x in rows)
            trap = Trap(int, r.choice(SYNC), r.randint(1, max(1, n)), r.random() < .4)
            kw = {'types': {col: trap}, 'has_dup_rows': name == 'csv rows'}
            way = r.choice(['path', 'buffer'])
            put(path, text)
            with Opened() as files:
                if fault(ctx, 'import of ' + name, detail, lambda: ecsv.import_csv(path if way == 'path' else io.StringIO(text), **kw), lambda: trap.fired):
                    ctx.count('failed conversions')
                    ctx.judged(('conversion', name, text, trap.calls), True)
            files.check(ctx, 'after a failed conversion', detail)
        elif k < .72:
            # a conversion that imports itself meanwhile
            col = r.choice(cols)
            dup = r.random() < .5
            others = [C07.an_import(r) for _ in range(2)]
            put(path, text0)

            def nested(v):
                if r.random() < .5:
                    t = r.choice(others)
                    if not t.judge(t.run()):
                        raise Violation('another result of an import during an import', dict(detail, inner=t.text))
                return v
            got = L.to_model(ecsv.import_csv(path if r.random() < .5 else io.StringIO(text0), types={col: nested}, has_dup_rows=dup))
            exp0 = counted(rel_of(x) for x in rows) if dup else S(rel_of(x) for x in rows)
            if got != exp0:
                raise Violation('another result of an import whose conversion imports', dict(detail, expected=mm.show(exp0), got=mm.show(got)))
            ctx.count('nested imports')
            ctx.judged(('nested import', text0, others[0].text), True)
        else:
            bad = text[:r.randint(1, len(text) - 1)] if not name.startswith('csv') else None
            if bad is None:
                # bytes that are no text are left out on import
                return targets(ctx, h)
            put(path, bad)
            with Opened() as files:
                try:
                    got = L.to_model(load(path))
                    raise Violation('a malformed file was imported', dict(detail, malformed=bad, got=mm.show(got)))
                except Violation:
                    raise
                except Exception:
                    ctx.count('malformed files')
                    ctx.judged(('malformed', name, bad), True)
            files.check(ctx, 'after a malformed file', dict(detail, malformed=bad))
        # afterwards everything works as ever
        put(path, text)
        with Opened() as files:
            try:
                got = L.to_model(load(path if r.random() < .7 else io.StringIO(text)))
            except Exception as ex:
                raise Violation('import after a failure raised %s' % type(ex).__name__, dict(detail, exception=short_tb(ex)))
        files.check(ctx, 'after an import', detail)
    if got != exp:
        raise Violation('import after a failure: wrong result', dict(detail, expected=mm.show(exp), got=mm.show(got)))


def counted(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return M(d)


def put(path, text):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)


class BadText:
    """A value whose text cannot be made."""

    def __init__(self, trap):
        self.trap = trap

    def __str__(self):
        return self.trap()

    def __repr__(self):
        return 'BadText'


def targets(ctx, h):
    r = h.rng
    cols = r.sample(['a', 'b', 'c'], r.randint(1, 3))
    rows = [S(C(A(c), A(r.randint(0, 9))) for c in cols) for _ in range(r.randint(1, 8))]
    m = r.choice([S(rows), counted(rows)])
    o = L.build(m, r)
    objs = [(o, m, hash(o))]
    fmt = r.choice(['csv', 'rdf', 'write']) if m[0] == 'S' else r.choice(['csv', 'write'])
    exc = r.choice(SYNC)
    detail = {'format': fmt, 'object': mm.show(m)}
    lefts = L.mo.Set(*[L.mo.Atom(c) for c in cols])

    def export(to, obj=o, **kw):
        if fmt == 'csv':
            return ecsv.export_csv(obj, to, **kw)
        if fmt == 'rdf':
            return erdf.export_table(to, lefts, obj, out_format=r.choice(['csv', 'json']))
        return misc.write_to_file_or_path(to, lambda f: [f.write('x\n') for _ in range(5)] and None)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'out')
        if r.random() < .4:
            to = BadStream().arm(exc, r.choice([1, 2, r.randint(1, 10)]))
            hit = fault(ctx, 'export as ' + fmt, detail, lambda: export(to), lambda: to.fired)
        elif fmt == 'csv' and r.random() < .5:
            trap = Trap(lambda rel: 0, exc, r.randint(1, 3))
            with Opened() as files:
                hit = fault(ctx, 'export as ' + fmt, detail, lambda: export(path, sort_key=trap), lambda: trap.fired)
            files.check(ctx, 'after a failed export', detail)
        elif fmt == 'write':
            def fail(f):
                f.write('x')
                raise bang
            bang = exc('injected')
            with Opened() as files:
                hit = fault(ctx, 'write_to_file_or_path', detail, lambda: misc.write_to_file_or_path(path, fail), lambda: bang)
            files.check(ctx, 'after a failed export', detail)
        else:
            trap = Trap(lambda: 'text', exc, 1)
            bad = L.mo.Set(list(o.data) + [L.mo.Set([L.mo.Couplet(c, BadText(trap)) for c in cols])])
            with Opened() as files:
                hit = fault(ctx, 'export as ' + fmt, detail, lambda: export(path, bad), lambda: trap.fired)
            files.check(ctx, 'after a failed export', detail)
        if hit:
            ctx.count('failed targets')
            ctx.judged(('target', fmt, m, exc.__name__), True)
        verify(ctx, 'after a failed export', objs, detail)
        with Opened() as files:
            res = export(path)
        files.check(ctx, 'after an export', detail)
        with open(path, encoding='utf-8', newline='') as f:
            out = f.read()
    if fmt == 'csv':
        if res is not True:
            raise Violation('export after a failure: not done', dict(detail, got=repr(res)))
        back = L.to_model(ecsv.import_csv(io.StringIO(out), types={c: int for c in cols}, has_dup_rows=m[0] == 'M'))
        if back != m:
            raise Violation('export after a failure: wrong file', dict(detail, text=out, got=mm.show(back)))


def slices(ctx, h):
    """Orders that fail, or use the library themselves; generators that are not used up."""
    r = h.rng
    mc = L.multiclans
    o, m = h.pick('mclan', fresh=.7)
    if mm.bulk(m) > 3000:
        return
    objs = [(o, m, hash(L.build(m)))]
    detail = {'multiclan': mm.show(m)}
    less = lambda a, b: mm.show(L.to_model(a)) < mm.show(L.to_model(b))
    k = r.random()
    if k < .4:
        trap = Trap(less, r.choice(SYNC), r.choice([1, 2, r.randint(1, 8)]))
        f = r.choice([lambda: mc.order_slice(o, trap, 0, float('inf')), lambda: list(mc.order_slice_to_listgen(o, trap, 0, 3))])
        if fault(ctx, 'order_slice', detail, f, lambda: trap.fired):
            ctx.count('failed slices')
            ctx.judged(('slice', m, trap.calls), True)
    elif k < .7:
        g1 = iter(mc.order_slice_to_listgen(o, less, 0, float('inf')))
        g2 = iter(mc.multiclan_to_listgen(o, 0, float('inf')))
        out = []
        for _ in range(r.randint(0, 3)):
            for g in (g1, g2):
                x = next(g, None)
                if x is not None and g is g1:
                    out.append((L.to_model(x[0]), x[1]))
        del g1, g2
        want = sorted(m[1], key=lambda t: mm.show(t[0]))[:len(out)]
        if out != want:
            raise Violation('order_slice_to_listgen: wrong rows if used step by step', dict(detail, got=[(mm.show(a), b) for a, b in out], expected=[(mm.show(a), b) for a, b in want]))
        ctx.count('abandoned generators')
        ctx.judged(('generators', m, len(out)), bool(out))
    else:
        def nested(a, b):
            if r.random() < .3:
                got = L.to_model(mc.order_slice(o, less, 0, 1))
                total = sum(n for _, n in got[1])
                if total != min(1, sum(n for _, n in m[1])):
                    raise Violation('a nested order_slice gives a wrong number of rows', dict(detail, got=mm.show(got)))
            return less(a, b)
        got = L.to_model(mc.order_slice(o, nested, 0, float('inf')))
        if got != m:
            raise Violation('order_slice: another result if the order uses the library', dict(detail, got=mm.show(got)))
        ctx.count('nested calls')
    verify(ctx, 'after a slice', objs, detail)
    got = L.to_model(mc.order_slice(o, less, 0, float('inf')))
    if got != m:
        raise Violation('order_slice after a failure: wrong result', dict(detail, got=mm.show(got)))


def constructors(ctx, h):
    r = h.rng
    es = [h.pick('mo') for _ in range(r.randint(1, 6))]
    objs = [(o, m, hash(L.build(m))) for o, m, _ in objects(h, es)]
    at = r.randint(0, len(es))
    bang = r.choice(SYNC)('injected')

    def src():
        for j, (o, m) in enumerate(es):
            if j == at:
                raise bang
            yield o
        raise bang
    name, f = r.choice([('Set', L.mo.Set), ('Multiset', L.mo.Multiset)])
    direct = r.random() < .5
    detail = {'elements': [mm.show(m) for _, m in es], 'constructor': name}
    if fault(ctx, name, detail, lambda: f(src(), direct_load=direct), lambda: bang):
        ctx.count('failed sources')
        ctx.judged(('constructor', name, at, tuple(m for _, m in es)), True)
    verify(ctx, 'after a failed constructor', objs, detail)


def history(ctx, i):
    r0 = i % 6
    h = History(ctx.prop, ctx.seed, i, ctx.counters, huge=False, tiny=True if r0 in (1, 4) else None)
    if r0 < 4:
        interrupts(ctx, h, r0 == 1)
        return
    for _ in range(12):
        if h.rng.random() < .3:
            h.age()
        h.rng.choice([callbacks, callbacks, callbacks, sources, targets, slices, constructors])(ctx, h)
    for _ in range(8):
        values(ctx, h)
