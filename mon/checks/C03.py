"""Constructors with every accepted argument shape; afterwards all accessors describe exactly the expected content."""
import collections
import random
from mon import lib as L
from mon import model as mm
from mon import gen as G
from mon.engine import Violation, short_tb
from mon.model import A, C, S, M

mo = L.mo
NEED = ['Set *args', 'Set list', 'Set generator', 'Set single', 'Set string', 'Multiset *args', 'Multiset list', 'Multiset generator', 'Multiset dict', 'Multiset Counter', 'Multiset single', 'Couplet',
        'Couplet reflexive', 'Atom', 'direct load', 'factories', 'absent elements', 'raw containment', 'rejected', 'large contents', 'duplicates', 'sources changed later']
RULE = ('Random contents given to the constructors in every accepted shape, with and without direct load; iteration, len, cardinality, is_empty, in, has_element, '
        'get_multiplicity, left, right, value and type are compared with the content. Non-trivial: not empty; distinct by shape and content.')


def raw(r, m, p=.5):
    return m[2] if m[0] == 'A' and r.random() < p else L.build(m, r)


def content(ctx, r, o, m, how):
    """All public accessors of o describe m."""
    detail = {'how': how, 'expected': mm.show(m)}

    def want(what, got, exp):
        if not (got is exp or (type(got) is type(exp) and got == exp)):
            raise Violation('%s is wrong' % what, dict(detail, got=repr(got), should_be=repr(exp)))
    got = L.to_model(o)
    if got != m:
        raise Violation('constructed content is wrong', dict(detail, got=mm.show(got)))
    for f, k in (('is_atom', 'A'), ('is_couplet', 'C'), ('is_set', 'S'), ('is_multiset', 'M')):
        want(f, getattr(o, f), m[0] == k)
    want('is_empty', o.is_empty, m[0] in 'SM' and not m[1])
    if m[0] == 'A':
        want('value', o.value, m[2])
        want('type', o.type, m[1])
    if m[0] not in 'SM':
        return
    d = {e: 1 for e in m[1]} if m[0] == 'S' else dict(m[1])
    n = sum(d.values())
    want('len', len(o), n)
    want('cardinality', o.cardinality, n)
    it = collections.Counter(L.to_model(e) for e in o)
    if dict(it) != d:
        raise Violation('iteration is wrong', dict(detail, got={mm.show(k): v for k, v in it.items()}))
    if m[0] == 'S' and type(o.data) is not frozenset:
        raise Violation('data is no frozenset', detail)
    if len(o.data) != len(d):
        raise Violation('data has another size', detail)
    probes = r.sample(sorted(d, key=mm.show), min(len(d), 6))
    near = []
    for e in probes:
        near += [A(str(e[2])) if e[0] == 'A' else S([e]), C(e, e)]
        if e[0] == 'A' and isinstance(e[2], (int, float)) and abs(e[2]) < 1e15:
            near += [A(float(e[2])), A(int(e[2])), A(bool(e[2]))]
        if e[0] == 'C':
            near += [C(e[2], e[1]), e[1]]
        if e[0] == 'S':
            near.append(M({x: 1 for x in e[1]}))
    for e in probes + near + [A('absent'), mm.E, mm.EM]:
        b = L.build(e, r)
        want('has_element', o.has_element(b), e in d)
        want('in', b in o, e in d)
        if e not in d:
            ctx.count('absent elements')
        if e[0] == 'A':
            want('raw in', e[2] in o, e in d)
            ctx.count('raw containment')
        if m[0] == 'M':
            want('get_multiplicity', o.get_multiplicity(b), d.get(e, 0))
    got = L.to_model(o)
    if got != m or len(o) != n or o.cardinality != n:
        raise Violation('asking changed the content', dict(detail, got=mm.show(got)))
    for f in [o.has_element] + ([o.get_multiplicity] if m[0] == 'M' else []):
        try:
            f('raw')
        except TypeError:
            ctx.count('rejected')
        else:
            raise Violation('raw value accepted as element', dict(detail, function=repr(f)))
    ctx.count('accessors')


def one(ctx, r, g):
    k = r.random()
    if r.random() < .06:
        es = [A(x) for x in r.sample(range(2000), r.choice([50, 300]))]
        ctx.count('large contents')
    else:
        es = [g.any(2) if r.random() < .5 else g.atom() for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    es = es + ([r.choice(es) for _ in range(r.randint(0, 3))] if es else [])
    direct = r.random() < .35
    if len(set(es)) < len(es):
        ctx.count('duplicates')
    p = 0 if direct else .5
    xs = [raw(r, e, p) for e in es]
    kw = {'direct_load': True} if direct else {}
    if direct:
        ctx.count('direct load')
    single_ok = len(xs) == 1 and not isinstance(xs[0], (tuple, frozenset, bytes, range, dict))
    if k < .35:
        m = S(es)
        ctor, name = mo.Set, 'Set'
    elif k < .7:
        cnt = collections.Counter(es)
        m = M(cnt)
        ctor, name = mo.Multiset, 'Multiset'
    elif k < .85:
        l, rt = g.any(2), g.any(2)
        how = r.choice(['Couplet', 'Couplet reflexive'])
        if how == 'Couplet' and rt != A(None):
            if r.random() < .5:
                o = mo.Couplet(raw(r, l, p), raw(r, rt, p), **kw)
            else:
                o = mo.Couplet(left=raw(r, l, p), right=raw(r, rt, p), **kw)
            m = C(l, rt)
        else:
            how = 'Couplet reflexive'
            o = mo.Couplet(raw(r, l, p), **kw) if r.random() < .5 else mo.Couplet(raw(r, l, p), None, **kw)
            m = C(l, l)
        if o.left is not o.left or L.to_model(o.left) != m[1] or L.to_model(o.right) != m[2]:
            raise Violation('couplet components', {'expected': mm.show(m), 'got': mm.show(L.to_model(o))})
        ctx.count(how)
        return o, m, how
    elif k < .95:
        m = g.atom() if r.random() < .7 else A(r.choice([None, True, 1.5, 'x' * 50, (1, ('a', 2)), frozenset([1]), b'q', range(3), 2 ** 80, '', 0, 1j]))
        o = mo.Atom(m[2], **({'direct_load': True} if r.random() < .3 else {}))
        again = mo.Atom(o)
        if again is not o and not (again == o and again.type is o.type):
            raise Violation('atom of an atom', {'atom': mm.show(m)})
        if L.to_model(again) != m or L.to_model(o) != m:
            raise Violation('atom of an atom changed it', {'atom': mm.show(m), 'got': repr(o)})
        for bad in (mo.Set(), mo.Couplet(1, 2), mo.Multiset('a'), [], {}, L.UNDEF):
            try:
                mo.Atom(bad)
            except TypeError:
                ctx.count('rejected')
            else:
                raise Violation('atom of something that is no atom value', {'value': repr(bad)})
        if L.to_model(mo.auto_convert(o)) != m or L.to_model(mo.auto_convert(m[2])) != m:
            raise Violation('auto_convert', {'atom': mm.show(m)})
        ctx.count('Atom')
        return o, m, 'Atom'
    else:
        from algebraixlib.mathobjects import make_couplet, make_couplet_unchecked, make_set, make_set_unchecked
        ctx.count('factories')
        objs = [L.build(e, r) for e in es]
        with_undef = objs + [L.UNDEF] * r.randint(0, 2)
        r.shuffle(with_undef)
        if r.random() < .5:
            f = r.choice([make_set, make_set_unchecked])
            return f(*with_undef), S(es), f.__name__
        f = r.choice([make_couplet, make_couplet_unchecked])
        if len(objs) < 2:
            objs = [L.build(g.any(1), r), L.build(g.any(1), r)]
        a, b = objs[:2]
        for bad in ((a, L.UNDEF), (L.UNDEF, b), (L.UNDEF, L.UNDEF)):
            if f(*bad) is not L.UNDEF:
                raise Violation('couplet with an undefined component', {'args': repr(bad)})
        return f(a, b), C(L.to_model(a), L.to_model(b)), f.__name__
    shapes = ['list', 'generator', 'iterator', 'keys']
    if not (len(xs) == 1 and not single_ok) and len(xs) < 60:
        shapes.append('*args')
        if len(xs) == 1:
            # one argument that is a math object or a plain value stands for itself
            shapes += ['*args'] * 2
    if not any(isinstance(x, mo.MathObject) for x in xs) or True:
        shapes += ['tuple', 'set', 'frozenset'] if name == 'Set' else ['tuple']
    if name == 'Multiset':
        shapes += ['dict', 'Counter', 'dict']
        if es and all(c == 1 for c in m_counts(es)):
            shapes += ['set']
    shape = r.choice(shapes)
    how = '%s %s' % (name, shape)
    if shape == '*args':
        if len(xs) == 1:
            how = '%s single' % name
            if isinstance(xs[0], str):
                ctx.count('%s string' % name)
            if isinstance(xs[0], str) and direct:
                return None
        o = ctor(*xs, **kw)
    elif shape == 'list':
        o = ctor(xs, **kw)
    elif shape == 'tuple':
        o = ctor(tuple(xs), **kw)
    elif shape == 'generator':
        o = ctor((x for x in xs), **kw)
    elif shape == 'iterator':
        o = ctor(iter(xs), **kw)
    elif shape == 'keys':
        if name == 'Multiset' or any(not isinstance(x, mo.MathObject) for x in xs):
            xs = [L.build(e, r) for e in es]
        if name == 'Multiset':
            m = M({e: 1 for e in es})
        o = ctor({x: None for x in xs}.keys(), **kw)
    elif shape in ('set', 'frozenset'):
        xs = [L.build(e, r) for e in es]
        xs = {'set': set, 'frozenset': frozenset}[shape](xs)
        o = ctor(xs, **kw)
        if name == 'Multiset':
            m = M({e: 1 for e in es})
    else:
        cnt = {}
        keys = {}
        for e in dict.fromkeys(es):
            n = r.choice([1, 1, 2, 3, 7, 1000])
            x = raw(r, e, p)
            if x in keys or (e[0] == 'A' and any(q[0] == 'A' and q[2] == e[2] for q in cnt)):
                x = L.build(e, r)
            keys[x] = n
            cnt[e] = n
        m = M(cnt)
        xs = collections.Counter(keys) if shape == 'Counter' else keys
        o = ctor(xs, **kw)
    if shape in ('list', 'set', 'dict', 'Counter') and r.random() < .5:
        # the source changes afterwards; the object does not
        ctx.count('sources changed later')
        y = L.build(A('later'), r)
        if r.random() < .4:
            xs.clear()
        if shape == 'list':
            xs[len(xs) // 2:] = [y]
        elif shape == 'set':
            xs.add(y)
        else:
            for x in list(xs):
                xs[x] += 1
            xs[y] = 2
    ctx.count(how)
    return o, m, how + (' direct' if direct else '')


def m_counts(es):
    return collections.Counter(es).values()


def history(ctx, i):
    r = random.Random('%s/%s/%s' % (ctx.prop, ctx.seed, i))
    g = G.Gen(r)
    for _ in range(20):
        st = r.getstate()
        try:
            x = one(ctx, r, g)
            if x is None:
                continue
            o, m, how = x
            content(ctx, r, o, m, how)
        except Violation:
            raise
        except Exception as ex:
            raise Violation('construction or access raised %s' % type(ex).__name__, {'exception': short_tb(ex)})
        ctx.judged((how, m), m[0] in 'AC' or bool(m[1]), lambda: '%s -> %s' % (how, mm.show(m)[:200]))
