"""Unchecked calls and direct loading give what the checked calls and conversion give."""
import collections
from mon import gen as G
from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon.engine import ALG_PREDS, PREDS, History, Violation, short_tb
from mon.checks.C05 import NO_RIGHTS, positions
from mon.model import U, E, EM

CHECKED = [o for o in O.OPS if o.checked]
ALL_PREDS = PREDS + ALG_PREDS + [('couplets.is_reflexive', L.couplets.is_reflexive)]
KIND = {'couplets': 'cpl', 'relations': 'rel', 'clans': 'clan', 'multiclans': 'mclan'}
NEED = [o.name for o in CHECKED] + ['Undef arguments', 'undefined results', 'predicates', 'predicates of Undef', 'direct loads', 'unchecked first', 'fresh copies']
RULE = ('Every operation and predicate with a _checked switch is called both ways, in both orders, on the same aged objects or on fresh copies, with members of its algebra and with Undef; the results '
        'are compared with each other (whether they are right is judged by A01-B02). Non-trivial: not all operands empty; distinct by operation and operands.')


def run(f):
    """Result as comparable value."""
    try:
        res = f()
        return res, L.to_model(res)
    except Exception as ex:
        return None, ('exception', type(ex).__name__, short_tb(ex))


def same(a, b):
    if a is U or b is U:
        return a is b
    if type(a) is bool or type(b) is bool:
        return a is b
    return a == b


def compare(ctx, h, name, text, chk, unc, detail, accept=None):
    r = h.rng
    if r.random() < .5:
        x, c = run(chk)
        y, u = run(unc)
    else:
        y, u = run(unc)
        x, c = run(chk)
        ctx.count('unchecked first')
    for w, v in (('checked', c), ('unchecked', u)):
        if isinstance(v, tuple) and v and v[0] == 'exception':
            raise Violation('%s (%s) raised %s' % (name, w, v[1]), dict(detail, exception=v[2], call=text))
    if not same(c, u) and not (accept and c is not U and u is not U and accept(c) and accept(u)):
        raise Violation('%s: the unchecked result differs' % name, dict(detail, call=text, checked=mm.show(c), unchecked=mm.show(u)))
    return y, u, x, c


def step_op(ctx, h):
    r = h.rng
    op = r.choice(CHECKED)
    args = h.draw_args(op)
    if args is None:
        return
    margs = [m for _, m in args]
    if not (op.limit or O.small)(*margs):
        return
    # unchecked calls need converted arguments
    args = [(a if isinstance(a, L.mo.MathObject) or not L.is_val(m) else L.mo.Atom(a), m) for a, m in args]
    undef = False
    if r.random() < .25:
        ks = positions(op, args)
        for p in r.sample(range(len(ks)), min(len(ks), r.choice([1, 1, 2]))):
            args[p] = (L.UNDEF, U)
            undef = True
    text = h.text(op, args)
    a1 = a2 = [a for a, _ in args]
    if r.random() < .4:
        a2 = [L.build(m, r) if L.is_val(m) and isinstance(a, L.mo.MathObject) else a for a, m in args]
        if r.random() < .5:
            a1, a2 = a2, a1
        ctx.count('fresh copies')
    y, u, x, c = compare(ctx, h, op.name, text, lambda: op.fn(*a1), lambda: op.fn(*a2, _checked=False), {'trace': h.trace[-25:]},
                         (lambda g: g in (E, EM) or op.accept(margs, g)) if op.accept and not undef else None)
    if undef and c is not U and not (op.name in NO_RIGHTS and args[0][1] is not U and c in (E, EM)):
        raise Violation('%s of Undef is defined' % op.name, {'call': text, 'got': mm.show(c)})
    ctx.count(op.name)
    if undef:
        ctx.count('Undef arguments')
    elif c is U:
        ctx.count('undefined results')
    h.log('%s = %s both ways' % (text, mm.show(c)))
    ctx.judged((op.name,) + tuple(m for m in margs if L.is_val(m)) + (undef,), undef or any(L.is_val(m) and not (m[0] in 'SM' and not m[1]) for m in margs),
               lambda: '%s = %s both ways' % (text[:300], mm.show(c)[:150]))
    if L.is_val(c) and op.out:
        h.add(r.choice([x, y]) if same(c, u) else x, c, op.name)


def step_pred(ctx, h):
    r = h.rng
    n, f = r.choice(ALL_PREDS)
    alg = n.split('.')[0] if '.' in n else None
    if r.random() < .15:
        o, m = L.UNDEF, U
        ctx.count('predicates of Undef')
    elif alg:
        o, m = h.pick(KIND[alg])
    else:
        o, m = h.pick(r.choice(['rel', 'clan', 'mclan', 'cpl', 'sos', 'set']))
        if mm.ambiguous(m):
            return
    o2 = o if r.random() < .5 or m is U else L.build(m, r)
    y, u, x, c = compare(ctx, h, n, '%s(%s)' % (n, mm.show(m)), lambda: f(o), lambda: f(o2, _checked=False), {'trace': h.trace[-25:]})
    if type(c) is not bool and c is not U or (m is U and c is not U):
        raise Violation('%s does not give a truth value or Undef' % n, {'object': mm.show(m), 'got': mm.show(c)})
    ctx.count('predicates')
    ctx.judged((n, m if m is not U else 0), m is U or m[0] not in 'SM' or bool(m[1]))


def step_load(ctx, h):
    r = h.rng
    m = h.gen.of(r.choice(['set', 'mset', 'cpl', 'rel', 'clan', 'mclan', 'atom', 'sos']))
    k = m[0]
    B = lambda e: L.build(e, r)
    if k == 'A':
        ways = [lambda: L.mo.Atom(m[2]), lambda: L.mo.Atom(m[2], direct_load=True)]
    elif k == 'C':
        ways = [lambda: L.mo.Couplet(B(m[1]), B(m[2])), lambda: L.mo.Couplet(B(m[1]), B(m[2]), direct_load=True), lambda: L.mo.make_couplet(B(m[1]), B(m[2])),
                lambda: L.mo.make_couplet_unchecked(B(m[1]), B(m[2]))]
        if m[1] == m[2]:
            ways += [lambda: L.mo.Couplet(B(m[1]), direct_load=True), lambda: L.mo.Couplet(B(m[1]))]
    elif k == 'S':
        es = list(m[1]) + ([r.choice(sorted(m[1], key=mm.show))] if m[1] else [])
        r.shuffle(es)
        b = [B(e) for e in es]
        ways = [lambda: L.mo.Set(b), lambda: L.mo.Set(b, direct_load=True), lambda: L.mo.Set(iter(b), direct_load=True), lambda: L.mo.Set(frozenset(b), direct_load=True),
                lambda: L.mo.Set({x: 0 for x in b}.keys(), direct_load=True), lambda: L.mo.Set(set(b))]
        if len(b) > 1:
            ways += [lambda: L.mo.Set(*b), lambda: L.mo.Set(*b, direct_load=True), lambda: L.mo.make_set(*b), lambda: L.mo.make_set_unchecked(*b)]
        elif len(b) == 1:
            ways += [lambda: L.mo.Set(b[0]), lambda: L.mo.Set(b[0], direct_load=True)]
        if len(m[1]) == 1:
            x = B(es[0])
            ways += [lambda: L.mo.Set(x, direct_load=True), lambda: L.mo.Set(x)]
    else:
        es = {B(e): n for e, n in sorted(m[1], key=lambda t: (r.random(), mm.show(t[0])))}
        ways = [lambda: L.mo.Multiset(es), lambda: L.mo.Multiset(es, direct_load=True), lambda: L.mo.Multiset(collections.Counter(es), direct_load=True),
                lambda: L.mo.Multiset(collections.Counter(es))]
        flat = [e for e, n in es.items() for _ in range(n)]
        if len(flat) <= 3000:
            r.shuffle(flat)
            ways += [lambda: L.mo.Multiset(flat), lambda: L.mo.Multiset(flat, direct_load=True), lambda: L.mo.Multiset(iter(flat), direct_load=True)]
            if 1 < len(flat) < 200:
                ways += [lambda: L.mo.Multiset(*flat), lambda: L.mo.Multiset(*flat, direct_load=True)]
    w1, w2 = r.choice(ways), r.choice(ways)
    detail = {'value': mm.show(m)}
    try:
        a, b_ = w1(), w2()
        ok = a == b_ and b_ == a and not a != b_ and hash(a) == hash(b_) and L.to_model(a) == m == L.to_model(b_)
        ok = ok and a.is_empty == b_.is_empty and repr(a) == repr(b_) if ok and mm.size(m) < 100 else ok
        if ok and k in 'SM':
            ok = len(a) == len(b_) and a.data == b_.data and type(a.data) is type(b_.data) and all((x in b_.data) for x in a.data)
        fa, fb = [[getattr(o, 'cached_' + n) for n in L.FLAG_NAMES] for o in (a, b_)]
        bad = list(L.check_flags(a, m)) + list(L.check_flags(b_, m))
    except Exception as ex:
        raise Violation('building an object raised %s' % type(ex).__name__, dict(detail, exception=short_tb(ex)))
    if not ok:
        raise Violation('equal contents give different objects', dict(detail, first=repr(a), second=repr(b_)))
    if bad:
        raise Violation('a new object remembers something false', dict(detail, flag=repr(bad[0][1:])))
    ctx.count('direct loads')
    ctx.judged(('load', m), k == 'A' or k == 'C' or bool(m[1]))
    h.add(r.choice([a, b_]), m, 'new')


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    for _ in range(h.steps(45)):
        k = r.random()
        if k < .2:
            h.age()
        elif k < .7:
            step_op(ctx, h)
        elif k < .88:
            step_pred(ctx, h)
        else:
            step_load(ctx, h)
