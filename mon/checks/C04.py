"""Calling, indexing and left/right sets evaluate the object as the function its value says, in any order of accesses."""
import gc

from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon.engine import History, Violation, short_tb
from mon.model import E, EM, U

NEED = ['call', 'getitem', 'get_left_set', 'get_right_set', 'call undefined', 'getitem of set relation', 'getitem of clan', 'getitem of multirelation',
        'getitem of multiclan', 'getitem undefined', 'raw lefts', 'repeated accesses', 'results of operations', 'missing lefts', 'nested left sets', 'results used', 'temporary lefts']
RULE = ('Objects of all kinds (fresh, aged, results of operations) are called, indexed and asked for left and right sets in random interleaved order, with raw and converted lefts, and '
        'compared with the model; results are compared with freshly built equals. Non-trivial: defined result; distinct by question, object and left.')


def question(h, m):
    """(name, library call, expected, accept, key)."""
    r = h.rng
    k = r.random()
    if k < .12:
        if mm.ambiguous(m):
            return None
        return 'get_left_set', lambda o: o.get_left_set(), mm.left_set(m), (EM,) if m == EM else (), ()
    if k < .2:
        if mm.ambiguous(m):
            return None
        return 'get_right_set', lambda o: o.get_right_set(), mm.right_set(m), (EM,) if m == EM else (), ()
    lefts = set()
    if m[0] in 'SM':
        for e in mm.elems(m):
            for c in ([e] if e[0] == 'C' else mm.elems(e) if e[0] in 'SM' else []):
                if c[0] == 'C':
                    lefts.add(c[1])
    q = r.random()
    if lefts and q < .7:
        x = r.choice(sorted(lefts, key=mm.show))
    elif lefts and q < .85:
        # a value that is nearly one of the lefts
        x = r.choice(sorted(lefts, key=mm.show))
        if x[0] == 'A':
            v = x[2]
            x = mm.A(r.choice([str(v), [v] and (v,), v + v if isinstance(v, (str, int)) and not isinstance(v, bool) else v,
                               float(v) if isinstance(v, int) and abs(v) < 2 ** 53 else v, bool(v)]))
        else:
            x = r.choice([mm.S([x]), mm.C(x, x)])
        h.count('missing lefts')
    else:
        x = h.gen.comp() if r.random() < .8 else h.gen.any(2)
    raw = x[0] == 'A' and r.random() < .5
    lo = x[2] if raw else L.build(x, r)
    if raw:
        h.count('raw lefts')
    if k < .5:
        return 'call', lambda o: o(lo), mm.call(m, x), (), (x,)
    return 'getitem', lambda o: o[lo], mm.getitem(m, x), (), (x,)


def kind(m):
    return ('set relation' if mm.is_rel(m) else 'clan' if mm.is_clan(m) else 'multirelation' if m[0] == 'M' and all(e[0] == 'C' for e, _ in m[1]) else
            'multiclan' if mm.is_mclan(m) else 'other')


def judge(ctx, h, o, m, q, how):
    name, f, exp, acc, key = q
    detail = {'object': mm.show(m), 'how': how, 'question': name, 'argument': [mm.show(x) for x in key], 'expected': mm.show(exp), 'trace': h.trace[-30:]}
    try:
        res = f(o)
        got = L.to_model(res)
    except Exception as ex:
        raise Violation('%s raised %s' % (name, type(ex).__name__), dict(detail, exception=short_tb(ex)))
    if not (got is exp or (L.is_val(got) and exp is not U and got == exp) or (L.is_val(got) and got in acc)):
        raise Violation('%s gives the wrong result' % name, dict(detail, got=mm.show(got)))
    h.log('%s%s of %s = %s' % (name, [mm.show(x) for x in key], mm.show(m), mm.show(got)))
    ctx.count(name)
    if got is U:
        ctx.count(name + ' undefined')
    else:
        if name == 'getitem':
            ctx.count('getitem of ' + kind(m))
        elif name != 'call' and (mm.level(m) or 0) not in ('any',) and m[0] == 'S' and mm.level(m) is not None and not mm.is_rel(m) and not mm.is_clan(m):
            ctx.count('nested left sets')
    ctx.judged((name, m) + key, got is not U, lambda: '%s %s of %s = %s (%s)' % (name, [mm.show(x) for x in key], mm.show(m)[:200], mm.show(got)[:100], how))
    if got is not U and h.rng.random() < .5:
        use(ctx, h, res, got, detail)
    return res, got


def use(ctx, h, res, got, detail):
    """The result is an object like any other one."""
    fresh = L.build(got, h.rng)
    try:
        ok = res == fresh and fresh == res and not res != fresh and hash(res) == hash(fresh) and len({res, fresh}) == 1
        if got[0] in 'SM':
            n = len(got[1]) if got[0] == 'S' else sum(x for _, x in got[1])
            ok = ok and len(res) == n == res.cardinality and res.is_empty is (not got[1])
        flags = list(L.check_flags(res, got))
    except Exception as ex:
        raise Violation('using the result raised %s' % type(ex).__name__, dict(detail, exception=short_tb(ex)))
    if not ok:
        raise Violation('the result does not behave like its value', dict(detail, got=mm.show(got)))
    if flags:
        raise Violation('the result remembers something false', dict(detail, got=mm.show(got), flag=repr(flags[0][1:])))
    ctx.count('results used')
    h.add(res, got, 'lookup')


def temporaries(ctx, h):
    """A few long-lived objects are asked for many short-lived lefts, whose memory is used again for other lefts."""
    r = h.rng
    objs = [h.fresh(mm.S(mm.C(mm.A(j), mm.A((j * 3) % 7)) for j in range(r.randint(5, 40)))),
            h.fresh(mm.S(mm.C(mm.S([mm.A(j)]), mm.C(mm.A(j), mm.A('x'))) for j in range(12))),
            h.fresh(mm.S(mm.S([mm.C(mm.A('k'), mm.A(j)), mm.C(mm.A(j), mm.A(j + 1))]) for j in range(10))),
            h.fresh(mm.M({mm.S([mm.C(mm.A(j), mm.A(n))]): n for j in range(8) for n in (1, 2)}))]
    for _ in range(r.randint(3, 5)):
        for o, m in objs:
            for _ in range(r.randint(20, 60)):
                j = r.randint(-2, 42)
                x = r.choice([mm.A(j), mm.A(j), mm.A(str(j)), mm.S([mm.A(j)]), mm.C(mm.A(j), mm.A(j))])
                if r.random() < .3:
                    q = ('call', lambda o, y=L.build(x, r): o(y), mm.call(m, x), (), (x,))
                else:
                    q = ('getitem', lambda o, y=L.build(x, r): o[y], mm.getitem(m, x), (), (x,))
                judge(ctx, h, o, m, q, 'long-lived')
                del q
        ctx.count('temporary lefts')
        gc.collect()


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    if i % 25 == 7:
        temporaries(ctx, h)
        return
    for _ in range(h.steps(25)):
        k = r.random()
        if k < .45 or not h.pool:
            m = h.gen.of(r.choice(['rel', 'rel', 'func', 'func', 'clan', 'mclan', 'mset', 'set', 'sos', 'mo', 'cpl']))
            if r.random() < .15:
                m = mm.M({h.gen.couplet(): h.gen.mult() for _ in range(h.gen.n())})
            elif r.random() < .12:
                m = mm.S([h.gen.clan() for _ in range(r.randint(1, 3))])
            elif r.random() < .03:
                n = r.randint(30, 300)
                m = mm.S(mm.C(mm.A(j), mm.A(j % 7)) for j in range(n))
            o, _ = h.fresh(m)
            how = 'fresh'
        elif k < .7:
            e = r.choice(h.pool)
            o, m, how = e.obj, e.model, e.born
            if r.random() < .5:
                h.age()
        else:
            op = r.choice(O.OPS)
            args = h.draw_args(op)
            if args is None:
                continue
            try:
                o = h.call(op, args)
                m = L.to_model(o)
                exp = op.model(*[x for _, x in args])
            except Exception:
                ctx.count('exceptions in operations')
                continue
            if not L.is_val(m) or not (exp is None or m == exp) or mm.bulk(m) > 6000:
                continue
            how = 'result of ' + h.text(op, args)[:300]
            h.add(o, m, how)
            ctx.count('results of operations')
        qs = [x for x in (question(h, m) for _ in range(r.randint(1, 5))) if x]
        qs += [q for q in qs if r.random() < .3]
        ctx.count('repeated accesses', max(0, len(qs) - len({id(q) for q in qs})))
        r.shuffle(qs)
        for q in qs:
            judge(ctx, h, o, m, q, how)
            if r.random() < .1:
                h.age()
