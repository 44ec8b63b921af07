"""Value monitor: every result of the operations of one family equals the model's result."""
from . import lib as L
from . import model as mm
from . import ops as O
from .engine import History, Violation, short_tb
from .model import U

SAFE = [o for o in O.OPS]


def weighted(rng, ops):
    tot = sum(o.weight for o in ops)
    x = rng.random() * tot
    for o in ops:
        x -= o.weight
        if x < 0:
            return o
    return ops[-1]


def accepted(op, margs, exp, got):
    if exp is None:
        return op.accept(margs, got)
    if type(exp) is bool:
        return got is exp
    if exp is U or got is U:
        ok = exp is got
    else:
        ok = exp == got and L.is_val(got)
    return ok or bool(op.accept and got is not U and op.accept(margs, got))


def fail(h, op, args, what, exp=None, got=None, ex=None):
    detail = {'call': h.text(op, args), 'expected': mm.show(exp) if exp is not None else None, 'got': mm.show(got) if got is not None else None,
              'trace': h.trace[-40:]}
    if ex is not None:
        detail['exception'] = short_tb(ex)
    raise Violation('%s: %s' % (op.name, what), detail)


def result(h, op, args, exp, **kw):
    """Call op and return (lib result, model result), judged against exp."""
    margs = [m for _, m in args]
    try:
        res = h.call(op, args, **kw)
        got = L.to_model(res)
    except Exception as ex:
        fail(h, op, args, 'raised %s%s' % (type(ex).__name__, kw or ''), exp=exp, ex=ex)
    if not accepted(op, margs, exp, got):
        fail(h, op, args, 'wrong result%s' % (' with %r' % kw if kw else ''), exp=exp, got=got)
    return res, got


def nontrivial(margs, got):
    if type(got) is bool or got is U:
        return any(L.is_val(m) and m[0] in 'SM' and m[1] for m in margs)
    return got is not None and (got[0] in 'AC' or bool(got[1]))


def ops_history(ctx, i, fams, steps=60, others=.25, age=.45):
    """Judge the ops of fams; other families' ops run unjudged in between so that operands carry their history."""
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    judged = [o for f in fams for o in O.BY_FAM[f]]
    for _ in range(h.steps(steps)):
        r = h.rng.random()
        if r < age:
            h.age()
            continue
        if r < age + others * (1 - age):
            op = weighted(h.rng, O.OPS)
        else:
            op = weighted(h.rng, judged)
        args = h.draw_args(op)
        if args is None:
            continue
        margs = [m for _, m in args]
        if op.fam not in fams:
            try:
                res = h.call(op, args)
                got = L.to_model(res)
                exp = op.model(*margs)
                if accepted(op, margs, exp, got) and L.is_val(got) and op.out:
                    h.log(h.text(op, args))
                    h.add(res, got, op.name)
            except Exception:
                ctx.count('exceptions in unjudged operations')
            continue
        exp = op.model(*margs)
        first = h.rng.random() < .5
        can_un = op.checked and all(hasattr(a, 'get_ground_set') or callable(a) for a, _ in args)
        if can_un and not first:
            result(h, op, args, exp, _checked=False)
            ctx.count('unchecked calls')
        res, got = result(h, op, args, exp)
        h.log(h.text(op, args) + ' = ' + mm.show(got))
        if can_un and first and h.rng.random() < .6:
            result(h, op, args, exp, _checked=False)
            ctx.count('unchecked calls')
        ctx.count(op.name)
        ctx.judged((op.name,) + tuple(m if not callable(m) else id(type(m)) for m in margs), nontrivial(margs, got),
                   lambda: '%s = %s' % (h.text(op, args)[:300], mm.show(got)[:200]))
        if got is U:
            ctx.count('undef results')
        elif L.is_val(got) and op.out:
            h.add(res, got, op.name)


RULE = ('Random histories over a pool of shared, aged objects; each judged call is compared with the set-theoretic model, checked and unchecked. '
        'Non-trivial: non-empty result, or a truth value/Undef on non-empty operands; distinct by operation and operand values.')
