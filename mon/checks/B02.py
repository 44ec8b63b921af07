"""is_* predicates equal the definitions on fresh, aged and equal objects, in any order of asking, checked and unchecked."""
from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon.engine import ALG_PREDS, MEMBERS, MODELS, PREDS, History, Violation, pred_truth, short_tb
from mon.model import U

NEED = ['answers True', 'answers False', 'answers Undef', 'fresh objects', 'aged objects', 'results of operations', 'repeated questions', 'unchecked questions',
        'higher-level sets', 'one flaw', 'couplets.is_reflexive']
RULE = ('Random objects of all kinds (fresh, aged, results of operations, equal copies) are asked random sequences of predicates; every answer is compared with the '
        'mathematical definition on the value. Non-trivial: answer not Undef; distinct by predicate and value.')
COUPLET = [('couplets.is_reflexive', L.couplets.is_reflexive)]


def alg_truth(name, m):
    alg, what = name.split('.')
    if not MODELS[alg](m):
        return U
    return mm.prop(m, what[3:])


def question(ctx, h, o, m, n, f, truth, how, trail):
    r = h.rng
    t = truth(n, m)
    kw = {}
    alg = n.split('.')[0]
    if r.random() < .25 and (alg == n or MODELS[alg](m)):
        kw = {'_checked': False}
        ctx.count('unchecked questions')
    try:
        x = f(o, **kw)
    except Exception as ex:
        raise Violation('%s raised %s' % (n, type(ex).__name__), {'object': mm.show(m), 'how': how, 'asked before': trail, 'exception': short_tb(ex), 'trace': h.trace[-30:]})
    x = U if x is L.UNDEF else x
    if x is not t:
        raise Violation('%s is wrong' % n, {'object': mm.show(m), 'how': how, 'got': repr(x), 'truth': repr(t), 'kw': kw, 'asked before': trail, 'trace': h.trace[-30:]})
    ctx.count('answers %s' % ('Undef' if x is U else x))
    ctx.count(n)
    ctx.judged((n, m), x is not U, lambda: '%s(%s) = %s (%s)' % (n, mm.show(m)[:200], x, how))
    trail.append(n)


def interrogate(ctx, h, o, m, how, least=0):
    r = h.rng
    qs = [(n, f, alg_truth) for n, f in COUPLET]
    if not mm.ambiguous(m):
        qs += [(n, f, pred_truth) for n, f in PREDS] + [(n, f, alg_truth) for n, f in ALG_PREDS]
    if m[0] != 'C':
        qs = qs[1:] + ([qs[0]] if r.random() < .05 else [])
    # mostly ask questions of algebras the object belongs to
    mine = [q for q in qs if '.' not in q[0] or MODELS[q[0].split('.')[0]](m)]
    if not mine:
        mine = qs
    trail = []
    for _ in range(max(least, r.choice([1, 2, 4, 9]))):
        if not qs:
            break
        if r.random() < .12:
            n, f = r.choice(MEMBERS)
            f(o)
            trail.append(n)
        n, f, t = r.choice(mine if r.random() < .85 else qs)
        question(ctx, h, o, m, n, f, t, how, trail)
        if r.random() < .15:
            ctx.count('repeated questions')
            question(ctx, h, o, m, n, f, t, how, trail)
    if (mm.level(m) or 0) != 'any' and (mm.level(m) or 0) > 2:
        ctx.count('higher-level sets')


def higher(h):
    """A set of clans or of sets of clans, often regular."""
    r, g = h.rng, h.gen
    if r.random() < .25:
        return g.hollow()
    base = g.clan()
    cl = [base]
    for _ in range(r.randint(0, 2)):
        k = r.random()
        if k < .4:
            cl.append(mm.S(x for x in base[1] if r.random() < .6))
        elif k < .7:
            cl.append(mm.S(mm.S(mm.C(c[1], g.comp(False)) if r.random() < .7 else c for c in x[1]) for x in base[1]))
        else:
            cl.append(g.clan())
    s = mm.S(cl)
    if r.random() < .3:
        s = mm.S([s] + [mm.S(r.sample(cl, 1)) for _ in range(r.randint(0, 1))])
    return s


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    for _ in range(h.steps(25)):
        k = r.random()
        if k < .45:
            flaw = r.random() < .09
            if flaw:
                ctx.count('one flaw')
                m = h.gen.one_flaw()
            else:
                m = higher(h) if r.random() < .2 else h.gen.of(r.choice(['rel', 'rel', 'clan', 'clan', 'mclan', 'mclan', 'func', 'set', 'sos', 'mset', 'mo', 'cpl']))
            o, _ = h.fresh(m)
            interrogate(ctx, h, o, m, 'fresh', 14 if flaw else 0)
            ctx.count('fresh objects')
            if r.random() < .3:
                o2 = L.build(m, r)
                interrogate(ctx, h, o2, m, 'equal copy')
                interrogate(ctx, h, o, m, 'asked again')
        elif k < .7 and h.pool:
            h.age()
            e = r.choice(h.pool)
            interrogate(ctx, h, e.obj, e.model, 'aged')
            ctx.count('aged objects')
        else:
            op = r.choice(O.OPS)
            args = h.draw_args(op)
            if args is None:
                continue
            try:
                res = h.call(op, args)
                got = L.to_model(res)
                exp = op.model(*[m for _, m in args])
            except Exception:
                ctx.count('exceptions in operations')
                continue
            if L.is_val(got) and (exp is None or got == exp):
                h.log(h.text(op, args))
                h.add(res, got, op.name)
                interrogate(ctx, h, res, got, 'result of %s' % h.text(op, args))
                ctx.count('results of operations')
