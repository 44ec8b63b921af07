"""Values of extended operations, plus: arguments the operation really received, and arguments of the wrong kind."""
from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon.engine import History, Violation, short_tb
from mon.opcheck import ops_history, RULE as R0
from mon.ops import BY_FAM
NEED = [o.name for o in BY_FAM['A07']] + ['recorded calls', 'wrong arguments', 'Undef arguments']
RULE = R0 + ' The calls the extended operation receives are recorded and must be exactly pairs (left operand element, right operand element).'


def history(ctx, i):
    ops_history(ctx, i, ['A07'], steps=45, others=.2, age=.3)
    h = History(ctx.prop + 'x', ctx.seed, i, ctx.counters)
    r = h.rng
    e = L.extension
    for _ in range(6):
        name, kinds, arity = r.choice([('unary_extend', ['set'], 1), ('binary_extend', ['set', 'set'], 2), ('unary_multi_extend', ['mset'], 1),
                                       ('unary_multi_extend', ['set'], 1), ('binary_multi_extend', ['mset', 'mset'], 2)])
        args = [h.pick(k, fresh=.6) for k in kinds]
        if not O.prod(*[m for _, m in args]):
            continue
        seen = []
        f = (O.unops if arity == 1 else O.binops)(h)
        g = O.as_lib(f, r)

        def rec(*xs):
            seen.append(tuple(L.to_model(x) for x in xs))
            return g(*xs)
        kw = {'_checked': False} if r.random() < .3 else {}
        detail = {'call': '%s(%s)' % (name, ', '.join(mm.show(m) for _, m in args)), 'kw': kw}
        try:
            getattr(e, name)(*[a for a, _ in args], rec, **kw)
        except Exception as ex:
            raise Violation('%s raised %s' % (name, type(ex).__name__), dict(detail, exception=short_tb(ex)))
        es = [list(mm.elems(m)) for _, m in args]
        want = {(a,) for a in es[0]} if arity == 1 else {(a, b) for a in es[0] for b in es[1]}
        if set(seen) != want:
            raise Violation(name + ': operation applied to other elements', dict(detail, missing=str([tuple(map(mm.show, x)) for x in want - set(seen)][:5]),
                                                                                 extra=str([tuple(map(mm.show, x)) for x in set(seen) - want][:5])))
        ctx.count('recorded calls', len(seen))
        ctx.judged((name, 'calls') + tuple(m for _, m in args), bool(want))
        # wrong kinds
        pos = r.randrange(arity)
        wrong = list(args)
        if r.random() < .4:
            wrong[pos] = (L.UNDEF, mm.U)
            kw = {'_checked': False} if r.random() < .5 else {}
            ctx.count('Undef arguments')
        else:
            kw = {}
            for _ in range(20):
                o, m = h.pick(r.choice(['mo', 'atom', 'cpl', 'set', 'mset']))
                bad = m[0] != ('S' if name in ('unary_extend', 'binary_extend') else 'M')
                if name == 'unary_multi_extend':
                    bad = m[0] not in 'SM'
                if bad:
                    wrong[pos] = (o, m)
                    break
            else:
                continue
            ctx.count('wrong arguments')
        seen.clear()
        text = '%s(%s)' % (name, ', '.join(mm.show(m) for _, m in wrong))
        try:
            res = getattr(e, name)(*[a for a, _ in wrong], rec, **kw)
        except Exception as ex:
            raise Violation('%s raised %s for a wrong argument' % (name, type(ex).__name__), dict(call=text, kw=kw, exception=short_tb(ex)))
        if res is not L.UNDEF:
            raise Violation(name + ': defined result for a wrong argument', dict(call=text, kw=kw, got=repr(res)))
        ctx.judged((name, 'wrong') + tuple(m if m is not mm.U else 'U' for _, m in wrong), True)
