"""is_member / is_absolute_member of all algebras and get_ground_set equal the definitions, whatever was asked before."""
from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon import structs
from mon.engine import ALG_PREDS, MEMBERS, PREDS, History, Violation, member_truth, short_tb

NEED = ['fresh objects', 'aged objects', 'results of operations', 'ground sets', 'one flaw', 'True', 'False', 'with inner empties', 'is_member_or_undef'] + [n for n, _ in MEMBERS]
RULE = ('Random objects of any nesting (fresh, aged, results of operations) are asked for membership in every algebra in random order and for their ground set. '
        'Non-trivial: object that is not an atom; distinct by question and value.')
ALGEBRAS = {a.__name__.rsplit('.', 1)[1]: a for a in (L.sets, L.couplets, L.relations, L.clans, L.multisets, L.multiclans)}
# the documentation leaves open whether these count as absolute
OPEN = {('sets.is_absolute_member', mm.E), ('relations.is_absolute_member', mm.E), ('clans.is_absolute_member', mm.E), ('multisets.is_absolute_member', mm.EM),
        ('multiclans.is_absolute_member', mm.EM)}


def inner_empty(m, top=True):
    if m[0] == 'A':
        return False
    if m in (mm.E, mm.EM):
        return not top
    return any(inner_empty(x, False) for x in (m[1:] if m[0] == 'C' else mm.elems(m)))


def truth(n, m):
    if not n.endswith('absolute_member'):
        return member_truth(n, m)
    alg = n.split('.')[0]
    if alg == 'couplets':
        return mm.is_c(m) and m[1][0] == 'A' == m[2][0]
    return member_truth(n, m)


def interrogate(ctx, h, o, m, how):
    r = h.rng
    trail = []
    nontriv = m[0] != 'A'
    if inner_empty(m):
        ctx.count('with inner empties')
    qs = list(MEMBERS)
    r.shuffle(qs)
    for n, f in qs[:r.choice([2, 4, 12])]:
        k = r.random()
        if k < .1:
            pn, pf = r.choice(PREDS + ALG_PREDS)
            try:
                pf(o)
            except Exception:
                ctx.count('predicate exceptions')
            trail.append(pn)
        elif k < .25:
            ground(ctx, h, o, m, how, trail)
        detail = {'object': mm.show(m), 'how': how, 'asked before': trail, 'trace': h.trace[-30:]}
        if n.endswith('.is_member') and r.random() < .15:
            f = getattr(ALGEBRAS[n.split('.')[0]], 'is_member_or_undef')
            if f(L.UNDEF) is not True or any(getattr(ALGEBRAS[n.split('.')[0]], q)(L.UNDEF) is not False for q in ('is_member', 'is_absolute_member')):
                raise Violation('Undef() is a member of %s or not accepted by is_member_or_undef' % n.split('.')[0], detail)
            ctx.count('is_member_or_undef')
        try:
            x = f(o)
        except Exception as ex:
            raise Violation('%s raised %s' % (n, type(ex).__name__), dict(detail, exception=short_tb(ex)))
        t = truth(n, m)
        if type(x) is not bool:
            raise Violation('%s does not return a truth value' % n, dict(detail, got=repr(x)))
        if (n, m) in OPEN:
            continue
        if x is not t:
            raise Violation('%s is wrong' % n, dict(detail, got=x, truth=t))
        ctx.count(n)
        ctx.count(str(x))
        trail.append(n)
        ctx.judged((n, m), nontriv, lambda: '%s(%s) = %s (%s)' % (n, mm.show(m)[:200], x, how))


def ground(ctx, h, o, m, how, trail):
    try:
        g = o.get_ground_set()
    except Exception as ex:
        raise Violation('get_ground_set raised %s' % type(ex).__name__, {'object': mm.show(m), 'how': how, 'asked before': trail, 'exception': short_tb(ex)})
    want = structs.ground(m)
    got = structs.of_lib(g)
    if got != want:
        raise Violation('get_ground_set is wrong', {'object': mm.show(m), 'how': how, 'got': str(g), 'expected': structs.show(want)})
    ctx.count('ground sets')
    trail.append('get_ground_set')
    ctx.judged(('ground', m), m[0] != 'A')


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    for _ in range(h.steps(25)):
        k = r.random()
        if k < .5:
            m = h.gen.of(r.choice(['rel', 'clan', 'mclan', 'func', 'set', 'sos', 'som', 'mset', 'mo', 'mo', 'mo', 'cpl']))
            if r.random() < .06:
                ctx.count('one flaw')
                m = h.gen.one_flaw(True)
            elif r.random() < .25 and m[0] in 'SM':
                # put an empty collection in
                x = r.choice([mm.E, mm.EM, mm.S([mm.E]), mm.S([mm.EM]), mm.C(mm.E, h.gen.atom()), mm.M({mm.E: 2})])
                m = mm.S(set(m[1]) | {x}) if m[0] == 'S' else mm.M(dict(m[1], **{}) | {x: 1}) if False else m if m[0] == 'M' else m
                if m[0] == 'M':
                    d = dict(m[1])
                    d[x] = 1
                    m = mm.M(d)
            if r.random() < .1:
                m = mm.S([m]) if r.random() < .5 else mm.M({m: 2})
            o, _ = h.fresh(m)
            interrogate(ctx, h, o, m, 'fresh')
            ctx.count('fresh objects')
        elif k < .75 and h.pool:
            h.age()
            e = r.choice(h.pool)
            interrogate(ctx, h, e.obj, e.model, 'aged')
            ctx.count('aged objects')
        else:
            op = r.choice(O.OPS)
            args = h.draw_args(op)
            if args is None:
                continue
            try:
                res = h.call(op, args)
                got = L.to_model(res)
                exp = op.model(*[m for _, m in args])
            except Exception:
                ctx.count('exceptions in operations')
                continue
            if L.is_val(got) and (exp is None or got == exp):
                h.log(h.text(op, args))
                h.add(res, got, op.name)
                interrogate(ctx, h, res, got, 'result of %s' % h.text(op, args))
                ctx.count('results of operations')
