"""Remembered facts (cached_* accessors) of operands, elements and results are true; no operation aborts; asking agrees with the value."""
from mon import gen as G
from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon.engine import ALG_PREDS, MEMBERS, PREDS, MODELS, History, Violation, member_truth, pred_truth, short_tb
from mon.opcheck import weighted
from mon.model import U

NEED = ['operations', 'operations in a tiny universe', 'facts', 'questions about results'] + ['fact ' + n for n in L.FLAG_NAMES]
RULE = ('Random histories of all operations of all algebras on aged operands. After each operation every remembered fact of its result, of its operands and of '
        'their elements is compared with the truth of the value. Non-trivial: an object with at least one remembered fact; distinct by operation and result value.')


def alg_truth(name, m):
    alg, what = name.split('.')
    if not MODELS[alg](m):
        return U
    return mm.prop(m, what[3:])


def look(ctx, h, o, m, what):
    seen = {}
    full = h.rng.random() < .15
    for om, name, val, t in L.check_flags(o, m, seen, deep=full or h.rng.random() < .3, atoms=full):
        raise Violation('false remembered fact: %s %s' % (name, val), {'object': mm.show(om), 'truth': repr(t), 'after': what, 'trace': h.trace[-40:]})
    for k, n in seen.items():
        ctx.count('fact ' + k, n)
    ctx.count('facts', sum(seen.values()))
    return bool(seen)


def ask(ctx, h, o, m, what):
    """Answers about an object as left by an operation."""
    r = h.rng
    qs = [(n, f, member_truth) for n, f in MEMBERS]
    if not mm.ambiguous(m):
        qs += [(n, f, pred_truth) for n, f in PREDS] + [(n, f, alg_truth) for n, f in ALG_PREDS]
    for n, f, truth in r.sample(qs, r.randint(1, 5)):
        t = truth(n, m)
        try:
            x = f(o)
        except Exception as ex:
            raise Violation('%s raised %s' % (n, type(ex).__name__), {'object': mm.show(m), 'after': what, 'exception': short_tb(ex), 'trace': h.trace[-40:]})
        x = U if x is L.UNDEF else x
        if not (x is t):
            raise Violation('%s of an aged object differs from its value' % n, {'object': mm.show(m), 'got': repr(x), 'truth': repr(t), 'after': what,
                                                                               'trace': h.trace[-40:]})
        ctx.count('questions about results')
        h.log('ask %s of %s' % (n, mm.show(m)))


TRUTH = {}


def truths(m):
    t = TRUTH.get(m)
    if t is None:
        if len(TRUTH) > 200000:
            TRUTH.clear()
        amb = mm.ambiguous(m)
        t = TRUTH[m] = [None if amb and n not in L.FLAG_NAMES[:4] else L.truth(m, n) for n in L.FLAG_NAMES]
    return t


def arena(ctx, i):
    """Values of a tiny universe that have been asked everything meet each other in many operations; all facts of the results are judged."""
    h = History(ctx.prop, ctx.seed, i, ctx.counters, tiny=True)
    h.new, h.ask = 0, 0
    r = h.rng
    full = r.random() < .7
    kinds = ['rel'] * 9 + ['func'] * 3 + ['clan'] * 10 + ['mclan'] * 8 + ['mset', 'set', 'set', 'sos', 'som', 'cpl']
    for k in kinds:
        o, m = h.fresh(h.gen.of(k))
        if r.random() < .25:
            x = h.related(k, [(o, m), (o, m)]) if k != 'cpl' else None
            if x and r.random() < .5:
                o, m = x
        if full or r.random() < .6:
            h.ask_all(o, m)
    for e in h.pool:
        look(ctx, h, e.obj, e.model, 'questions')
    trace, h.log = h.trace, lambda s: None
    for _ in range(150):
        op = weighted(r, ARENA)
        args = h.draw_args(op)
        if args is None:
            continue
        try:
            res = op.fn(*[a for a, _ in args])
        except Exception as ex:
            raise Violation('%s raised %s' % (op.name, type(ex).__name__), {'call': h.text(op, args), 'exception': short_tb(ex), 'trace': trace})
        ctx.count('operations in a tiny universe')
        got = L.to_model(res)
        if not L.is_val(got):
            continue
        some = False
        for n, t in zip(L.FLAG_NAMES, truths(got)):
            v = getattr(res, 'cached_' + n)
            if v == L.CacheStatus.UNKNOWN or t is None:
                continue
            some = True
            ctx.count('fact ' + n)
            if not (t is True if v == L.CacheStatus.IS else t is False if v == L.CacheStatus.IS_NOT else t is U):
                raise Violation('false remembered fact: %s of the result of %s' % (n, op.name),
                                {'call': h.text(op, args), 'result': mm.show(got), 'remembered': int(v), 'truth': repr(t), 'trace': trace})
        ctx.judged((op.name,) + tuple(m if L.is_val(m) else 0 for _, m in args), some, lambda: h.text(op, args)[:300])


ARENA = [o for o in O.OPS if o.out]


def history(ctx, i):
    if i % 3:
        return arena(ctx, i)
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    for _ in range(h.steps(60)):
        if r.random() < .4:
            if h.pool:
                e = r.choice(h.pool)
                if r.random() < .5:
                    ask(ctx, h, e.obj, e.model, 'pooled')
                else:
                    h.age()
                look(ctx, h, e.obj, e.model, 'a question')
            continue
        step(ctx, h, weighted(r, O.OPS))


def step(ctx, h, op):
    r = h.rng
    args = h.draw_args(op)
    if args is None:
        return
    kw = {}
    if op.checked and r.random() < .4:
        kw = {'_checked': False}
    text = h.text(op, args) + (' unchecked' if kw else '')
    try:
        res = h.call(op, args, **kw)
    except Exception as ex:
        raise Violation('%s raised %s' % (op.name, type(ex).__name__), {'call': text, 'exception': short_tb(ex), 'trace': h.trace[-40:]})
    h.log(text)
    ctx.count('operations')
    some = False
    for o, m in args:
        if L.is_val(m) and not callable(o) and not isinstance(o, (dict, str, int, float)) and isinstance(o, L.mo.MathObject):
            some |= look(ctx, h, o, m, text)
    got = L.to_model(res)
    if L.is_val(got):
        some |= look(ctx, h, res, got, text)
        if r.random() < .35:
            ask(ctx, h, res, got, text)
            look(ctx, h, res, got, text + ' and questions')
        if op.out:
            h.add(res, got, op.name)
    ctx.judged((op.name, got if L.is_val(got) else str(got)) + tuple(m if L.is_val(m) else 0 for _, m in args), some,
               lambda: '%s: %s' % (text[:300], {n: getattr(res, 'cached_' + n) for n in L.FLAG_NAMES} if L.is_val(got) else got))
