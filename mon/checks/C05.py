"""Undefined results: Undef or UndefException as the raise level says; Undef never inside of an object; no trace of a failed call."""
import copy
from mon import gen as G
from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon.engine import ALG_PREDS, PREDS, History, Violation, member_truth, pred_truth, short_tb
from mon.opcheck import accepted
from mon.model import U, E, EM

import algebraixlib.util.rdf as urdf

RU = L.undef.RaiseOnUndef
NEED = ['level 0', 'level 1', 'level 2', 'non-member', 'Undef argument', 'undefined result', 'defined result', 'raised', 'returned Undef', 'predicates', 'same call at another level', 'slices', 'windows', 'predicates of raw values', 'left sets',
        'constructors', 'comparisons', 'undefined inner results', 'unchecked Undef argument', 'operands after exceptions']
RULE = ('Operations and predicates of all algebras with valid arguments, arguments outside the algebra and Undef in every position, at raise levels 0 to 3; after each call the level, the '
        'operands and the repetition at level 0 are checked. Non-trivial: undefined case; distinct by operation, operands and level.')

# algebra of the argument positions of operations with irregular signatures ('left': any object)
POS = {'sets.restrict': ['set'], 'relations.get_rights_for_left': ['rel', 'left'], 'relations.get_right': ['rel', 'left'], 'relations.get_left': ['rel', 'left'],
       'relations.defined_at': ['rel', 'left'], 'clans.defined_at': ['clan', 'left'], 'multiclans.defined_at': ['mclan', 'left'],
       'multiclans.get_rights_for_left': ['mclan', 'left'], 'extension.unary_extend': ['set'], 'extension.binary_extend': ['set', 'set'],
       'extension.unary_multi_extend': ['som_or_mset'], 'extension.binary_multi_extend': ['mset', 'mset']}
# Undef as a left means "no rights" here
NO_RIGHTS = ('relations.get_rights_for_left', 'multiclans.get_rights_for_left')
# an undefined result may count as a wrong argument (level 1) here
LOOSE1 = ('relations.get_right', 'relations.get_left', 'sets.chain_binary_operation', 'relations.functional_add')
NO_ARGS = ('clans.from_set', 'relations.from_dict', 'clans.from_dict', 'multiclans.from_dict', 'partition.partition', 'partition.make_labeled_partition')
OPS = [o for o in O.OPS if o.name not in NO_ARGS]


def positions(op, args):
    if op.kinds:
        return list(op.kinds)
    if op.name in POS:
        return list(POS[op.name])
    if op.name.endswith('.diag'):
        return ['left'] * len(args)
    if op.name.endswith('.project'):
        return [op.name.startswith('clans') and 'clan' or 'mclan'] + ['left'] * (len(args) - 1)
    if op.name == 'sets.chain_binary_operation':
        return ['sos' if args[2][0] is L.sets.is_member else 'som']
    raise AssertionError(op.name)


def non_member(h, kind):
    r = h.rng
    for _ in range(40):
        if r.random() < .06 and kind in ('rel', 'clan', 'mclan', 'sos', 'som'):
            m = h.gen.one_flaw(True)
            if kind == 'sos':
                m = mm.S([mm.S([mm.A(j)]) for j in range(r.choice([3, 20, 70]))] + [h.gen.any(1)])
            elif kind == 'som':
                m = mm.S([mm.M({mm.A(j): 2}) for j in range(r.choice([3, 20, 70]))] + [h.gen.any(1)])
            if not G.kind_ok(kind, m):
                return L.build(m, r), m
        o, m = h.pick(r.choice(['mo', 'atom', 'cpl', 'set', 'mset', 'rel', 'clan', 'mclan', 'sos', 'som']), fresh=.4)
        if r.random() < .2:
            # nearly a member
            if kind in ('rel', 'clan', 'sos', 'som') and m[0] == 'S':
                m = mm.S(set(m[1]) | {h.gen.atom()})
                o = L.build(m, r)
            elif kind == 'mclan' and m[0] == 'M':
                d = dict(m[1])
                d[h.gen.couplet() if r.random() < .5 else mm.S([h.gen.atom()])] = h.gen.mult()
                m = mm.M(d)
                o = L.build(m, r)
        if not G.kind_ok(kind, m):
            return o, m
    return None


def invoke(f, level):
    """(kind, value): what f() does at that level; the level is always reset."""
    RU.set_level(level)
    try:
        try:
            res = f()
        except L.undef.UndefException:
            return 'raised', None
        if RU.get_level() != level:
            raise Violation('the raise level changed during an operation', {'from': level, 'to': RU.get_level()})
        return 'value', res
    finally:
        RU.reset()
        if RU.get_level() != 0:
            raise Violation('reset() does not restore level 0', {'level': RU.get_level()})


def judge(ctx, h, name, text, f, level, case, exp_ok, loose1=False, inner=False, watch=()):
    """case: 'non-member' | 'Undef argument' | 'undefined result' | 'defined result' (exp_ok judges the value)."""
    detail = {'call': text, 'raise level': level, 'case': case, 'trace': h.trace[-25:]}
    try:
        how, res = invoke(f, level)
        got = L.to_model(res) if how == 'value' else None
    except Violation:
        raise
    except L.BadObject as ex:
        raise Violation('a result holds something that is no math object', dict(detail, what=str(ex)))
    except Exception as ex:
        raise Violation('%s raised %s' % (name, type(ex).__name__), dict(detail, exception=short_tb(ex)))
    if case == 'defined result':
        if how == 'raised':
            if not (inner and level >= 2):
                raise Violation('%s raised UndefException although the result is defined' % name, detail)
            ctx.count('undefined inner results')
        elif not exp_ok(got):
            raise Violation('%s gives a wrong result' % name, dict(detail, got=mm.show(got)))
    else:
        must = {'non-member': 1, 'Undef argument': 2, 'undefined result': 2}[case]
        if how == 'raised':
            if level < must and not (loose1 and level >= 1):
                raise Violation('%s raised UndefException at level %d' % (name, level), detail)
        elif got is not U:
            raise Violation('%s is defined' % name, dict(detail, got=mm.show(got)))
        elif level >= must:
            raise Violation('%s did not raise UndefException' % name, detail)
    ctx.count('raised' if how == 'raised' else 'returned Undef' if got is U else 'returned a value')
    ctx.count('level %d' % min(level, 2))
    ctx.count(case)
    h.log('%s at level %d: %s' % (text, level, how if how == 'raised' else mm.show(got)))
    for o, m in watch:
        if L.is_val(m) and isinstance(o, L.mo.MathObject):
            if L.to_model(o) != m:
                raise Violation('an operand changed', dict(detail, was=mm.show(m), now=mm.show(L.to_model(o))))
            if how == 'raised' or h.rng.random() < .1:
                for bad in L.check_flags(o, m):
                    raise Violation('an operand remembers something false after the call', dict(detail, object=mm.show(bad[0]), flag=repr(bad[1:])))
                ctx.count('operands after exceptions')
    return how, res, got


def step_op(ctx, h):
    r = h.rng
    op = r.choice(OPS)
    args = h.draw_args(op)
    if args is None:
        return
    ks = positions(op, args)
    bad = []
    k = r.random()
    if ks and k < .75:
        ps = [r.randrange(len(ks))] if r.random() < .8 else list(range(len(ks)))
        kind = r.choice(['non-member', 'Undef argument'])
        for p in ps:
            if kind == 'Undef argument':
                args[p] = (L.UNDEF, U)
                bad.append(p)
            elif ks[p] != 'left':
                x = non_member(h, ks[p])
                if x is not None:
                    args[p] = x
                    bad.append(p)
                    ks[p] = 'bad'
            else:
                args[p] = h.pick('mo')
    level = r.choice([0, 0, 1, 1, 2, 3])
    kw = {}
    text = h.text(op, args)
    margs = [m for _, m in args]
    if bad:
        case = kind
        if kind == 'Undef argument' and op.name in NO_RIGHTS and bad == [1]:
            case = 'defined result'
        ok = lambda g: g in (E, EM)
        exp = U
    else:
        if not (op.limit or O.small)(*margs):
            return
        exp = op.model(*margs)
        case = 'undefined result' if exp is U else 'defined result'
        ok = lambda g: accepted(op, margs, exp, g)
    if op.checked and all(L.is_val(m) or m is U for m in margs) and (not bad or kind == 'Undef argument') and r.random() < .35:
        # members and Undef only, without checks
        kw['_checked'] = False
        args = [(L.mo.Atom(a) if L.is_val(m) and not isinstance(a, L.mo.MathObject) else a, m) for a, m in args]
        text += ' unchecked'
        if bad:
            ctx.count('unchecked Undef argument')
    inner = op.fam in ('A02', 'A03', 'A05', 'A07', 'A01', 'A04')
    how, res, got = judge(ctx, h, op.name, text, lambda: op.fn(*[a for a, _ in args], **kw), level, case, ok, op.name in LOOSE1, inner, args)
    ctx.judged((op.name, level) + tuple(m for m in margs if L.is_val(m)), case != 'defined result', lambda: '%s at level %d: %s' % (text[:300], level, how))
    if how == 'value' and L.is_val(got) and op.out:
        h.add(res, got, op.name)
    if how == 'raised' and r.random() < .5:
        # the failed call leaves no trace
        judge(ctx, h, op.name, text, lambda: op.fn(*[a for a, _ in args], **kw), 0, case, ok, op.name in LOOSE1, inner, args)
    elif case != 'defined result' and r.random() < .4:
        # nor does a returned Undef change what happens at another level
        judge(ctx, h, op.name, text, lambda: op.fn(*[a for a, _ in args], **kw), r.choice([1, 2, 2, 3]), case, ok, op.name in LOOSE1, inner, args)
        ctx.count('same call at another level')


def step_pred(ctx, h):
    r = h.rng
    level = r.choice([0, 1, 2, 3])
    if r.random() < .6:
        n, f = r.choice(ALG_PREDS)
        alg = n.split('.')[0]
        kind = {'relations': 'rel', 'clans': 'clan', 'multiclans': 'mclan'}[alg]
        if r.random() < .3:
            o, m = L.UNDEF, U
            case = 'Undef argument'
        elif r.random() < .5:
            x = non_member(h, kind)
            if x is None:
                return
            o, m = x
            case = 'non-member'
        else:
            o, m = h.pick(kind)
            case = 'defined result'
        ok = lambda g: g is mm.prop(m, n.split('.is_')[1])
        loose = False
    else:
        n, f = r.choice(PREDS)
        if r.random() < .1:
            raw = r.choice([None, 5, 'a', (), [1], {1: 2}, object])
            judge(ctx, h, n, '%s(%r)' % (n, raw), lambda: f(raw), level, 'non-member', None)
            ctx.count('predicates of raw values')
            return
        if r.random() < .2:
            # (counts as a wrong type of argument)
            o, m = L.UNDEF, U
            case = 'Undef argument'
        else:
            o, m = h.pick(r.choice(['mo', 'rel', 'clan', 'mclan', 'sos', 'set', 'mset']))
            if mm.ambiguous(m):
                return
            t = pred_truth(n, m)
            case = 'undefined result' if t is U else 'defined result'
            ok = lambda g: g is t
        if case != 'defined result':
            ok = None
        loose = True
    text = '%s(%s)' % (n, mm.show(m))
    kw = {}
    if case != 'non-member' and '.' in n and r.random() < .3:
        kw['_checked'] = False
        text += ' unchecked'
    for _ in range(r.choice([1, 1, 2])):
        # (the second answer is remembered)
        judge(ctx, h, n, text, lambda: f(o, **kw), level, case, ok, loose, True, [(o, m)])
        level = r.choice([level, 2])
    ctx.count('predicates')
    ctx.judged((n, level, m if L.is_val(m) else 0), case != 'defined result', lambda: '%s at level %d' % (text[:300], level))


def step_other(ctx, h):
    r = h.rng
    level = r.choice([0, 1, 2])
    k = r.random()
    if k < .4:
        lt = lambda a, b: L.mo.Atom(repr(a) < repr(b))
        n, f = r.choice([('order_slice', lambda o: L.multiclans.order_slice(o, lt, 0, 10)), ('order_slice_to_listgen', lambda o: L.multiclans.order_slice_to_listgen(o, lt, 0, 10)),
                         ('multiclan_to_listgen', lambda o: L.multiclans.multiclan_to_listgen(o, 0, 10))])
        kind = 'mclan'
        what = 'slices'
    elif k < .6:
        o2, m2 = h.pick('clan')
        n, f = r.choice([('join', lambda o: urdf.join(o, o2)), ('join', lambda o: urdf.join(o2, o))])
        kind = 'clan'
        what = 'joins'
    else:
        n, f = r.choice([('get_left_set', lambda o: o.get_left_set()), ('get_right_set', lambda o: o.get_right_set())])
        o, m = h.pick('mo')
        exp = mm.left_set(m)
        if mm.ambiguous(m) or exp is not U:
            return
        judge(ctx, h, n, '%s of %s' % (n, mm.show(m)), lambda: f(o), level, 'undefined result', None, True, False, [(o, m)])
        if r.random() < .5:
            judge(ctx, h, n, '%s of %s' % (n, mm.show(m)), lambda: f(o), r.choice([0, 2]), 'undefined result', None, True, False, [(o, m)])
        ctx.count('left sets')
        ctx.judged((n, level, m), True)
        return
    if what == 'slices' and r.random() < .4:
        window(ctx, h, lt, level)
        return
    if r.random() < .4:
        o, m, case = L.UNDEF, U, 'Undef argument'
    else:
        x = non_member(h, kind)
        if x is None:
            return
        o, m = x
        case = 'non-member'
    for level in (level, r.choice([0, 1, 2])):
        judge(ctx, h, n, '%s(%s)' % (n, mm.show(m)), lambda: f(o), level, case, None, False, False, [(o, m)])
    ctx.count(what)
    ctx.judged((n, level, m if L.is_val(m) else 0), True)


def window(ctx, h, lt, level):
    """Slices whose multiclan, offset or limit is Undef or of a wrong type."""
    r = h.rng
    o, m = h.pick('mclan')
    n, f = r.choice([('order_slice', lambda o, a, b, **k: L.multiclans.order_slice(o, lt, a, b, **k)), ('order_slice_to_listgen', lambda o, a, b, **k: L.multiclans.order_slice_to_listgen(o, lt, a, b, **k)),
                     ('multiclan_to_listgen', L.multiclans.multiclan_to_listgen)])
    args = [o, L.mo.Atom(r.randint(0, 3)), L.mo.Atom(r.choice([1, 5, float('inf')]))]
    kw = {}
    if r.random() < .6:
        case = 'Undef argument'
        args[r.randrange(3)] = L.UNDEF
        if r.random() < .5:
            kw['_checked'] = False
    else:
        case = 'non-member'
        args[r.choice([1, 2])] = r.choice([L.mo.Atom('1'), 'x', 1.5, L.mo.Atom(2.5), L.mo.Set(), L.mo.Couplet(1, 2)])
    text = '%s(%s, %s, %s%s)' % ((n, mm.show(m)) + tuple(args[1:]) + (' unchecked' if kw else '',))
    judge(ctx, h, n, text, lambda: f(*args, **kw), level, case, None, False, False, [(o, m)])
    ctx.count('windows')
    ctx.judged((n, level, m, text), True)


def step_leak(ctx, h):
    """Undef in constructors and comparisons."""
    r = h.rng
    o, m = h.pick('mo')
    a = L.mo.Atom('a')
    u = L.undef.Undef()
    if u is not L.UNDEF or copy.copy(u) is not u or copy.deepcopy(u) is not u or L.undef.make_undef() is not u:
        raise Violation('Undef is not a singleton', {})
    raw = r.choice([1, 'x', None, True, (), [u]])
    n, f = r.choice([
        ('Undef == x', lambda: u == r.choice([o, raw, u])), ('Undef != x', lambda: u != r.choice([o, raw, u])), ('bool(Undef)', lambda: bool(u)), ('not Undef', lambda: not u),
        ('Undef as condition', lambda: 1 if u else 0), ('x == Undef', lambda: raw == u if raw.__class__ is not list else u == raw), ('Atom == Undef', lambda: a == u), ('Atom != Undef', lambda: a != u)])
    try:
        x = f()
    except TypeError:
        ctx.count('comparisons')
    except Exception as ex:
        raise Violation('%s raised %s' % (n, type(ex).__name__), {'exception': short_tb(ex), 'raw': repr(raw), 'object': mm.show(m)})
    else:
        raise Violation('%s is possible' % n, {'result': repr(x), 'raw': repr(raw), 'object': mm.show(m)})
    dl = r.random() < .5
    n, f = r.choice([
        ('Atom(Undef)', lambda: L.mo.Atom(u)), ('Set(Undef)', lambda: L.mo.Set(u, direct_load=dl)), ('Set([x, Undef])', lambda: L.mo.Set([o, u], direct_load=dl)),
        ('Set(x, Undef)', lambda: L.mo.Set(o, u, direct_load=dl)), ('Multiset(Undef)', lambda: L.mo.Multiset(u, direct_load=dl)),
        ('Multiset([x, Undef])', lambda: L.mo.Multiset([o, u], direct_load=dl)), ('Couplet(x, Undef)', lambda: L.mo.Couplet(o, u, direct_load=dl)),
        ('Couplet(Undef, x)', lambda: L.mo.Couplet(u, o, direct_load=dl)), ('Couplet(Undef)', lambda: L.mo.Couplet(u, direct_load=dl)), ('auto_convert(Undef)', lambda: L.mo.auto_convert(u)),
        ('clans.from_set(x, Undef)', lambda: L.clans.from_set(o, a, u)), ('clans.from_set(Undef, x)', lambda: L.clans.from_set(u, o)),
        ('relations.from_dict({x: Undef})', lambda: L.relations.from_dict({o: u})), ('clans.from_dict({x: Undef})', lambda: L.clans.from_dict({o: u})),
        ('multiclans.from_dict({x: Undef})', lambda: L.multiclans.from_dict({o: u}))])
    try:
        x = f()
    except (TypeError, AssertionError):
        pass
    except Exception as ex:
        raise Violation('%s raised %s' % (n, type(ex).__name__), {'exception': short_tb(ex)})
    else:
        if x is not u and u_inside(x):
            raise Violation('%s holds Undef' % n, {'result': repr(x), 'object': mm.show(m)})
    # make_set and make_couplet take care of Undef
    es = [h.pick('mo') for _ in range(r.randint(2, 3))]
    mix = [x for x, _ in es] + [u] * r.randint(0, 2)
    r.shuffle(mix)
    for mk in (L.mo.make_set, L.mo.make_set_unchecked):
        s = mk(*mix)
        if not L.to_model(s) == mm.S(x for _, x in es):
            raise Violation('make_set is wrong', {'elements': [mm.show(x) for _, x in es], 'got': str(s)})
    pair = [es[0][0], es[1][0]]
    if r.random() < .7:
        pair[r.randrange(2)] = u
    for mk in (L.mo.make_couplet, L.mo.make_couplet_unchecked):
        for level in (0, 1, 2):
            how, c = invoke(lambda: mk(*pair), level)
            if any(p is u for p in pair):
                if (how == 'raised') != (level == 2) or (how == 'value' and c is not u):
                    raise Violation('make_couplet with Undef is wrong', {'level': level, 'how': how})
            elif how == 'raised' or L.to_model(c) != mm.C(es[0][1], es[1][1]):
                raise Violation('make_couplet is wrong', {'level': level, 'how': how})
    ctx.count('constructors')
    ctx.judged(('leak', n, m), True)


def u_inside(x, depth=0):
    if x is L.UNDEF:
        return True
    if isinstance(x, L.mo.Atom):
        return x.value is L.UNDEF
    if isinstance(x, L.mo.Couplet):
        return u_inside(x.left) or u_inside(x.right)
    if isinstance(x, (L.mo.Set, L.mo.Multiset)):
        return any(u_inside(e) for e in x.data)
    return False


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    for _ in range(40):
        k = r.random()
        if k < .15:
            h.age()
        elif k < .65:
            step_op(ctx, h)
        elif k < .8:
            step_pred(ctx, h)
        elif k < .93:
            step_other(ctx, h)
        else:
            step_leak(ctx, h)
