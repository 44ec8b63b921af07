"""Laws of the structure calculus and agreement of inclusion, equality, hash, union and level with the model; soundness on real objects."""
import random
from mon import lib as L
from mon import model as mm
from mon import gen as G
from mon import structs as T
from mon.engine import Violation, short_tb

NEED = ['inclusions True', 'inclusions False', 'equal pairs', 'unions with members', 'wide unions', 'objects of many kinds of members', 'reprs', 'levels above 0', 'antisymmetric pairs', 'transitive triples', 'object ground sets']
RULE = ('Random structures and near variants of them, each built in several equivalent ways. Inclusion, equality, hash, union members and power set levels of '
        'all pairs are compared with the model and the laws are checked on pairs and triples. Non-trivial: not both structures atomic; distinct by ordered pair.')

NAMES = {n: getattr(L.structure, n) for n in dir(L.structure) if n[0] != '_'}


def history(ctx, i):
    r = random.Random('%s/%s/%s' % (ctx.prop, ctx.seed, i))
    ms = []
    if r.random() < .35:
        g = G.Gen(r)
        for _ in range(4):
            m = g.of(r.choice(['mo', 'set', 'clan', 'mset', 'mclan', 'sos', 'rel']))
            if r.random() < .1:
                m = diverse(r)
                ctx.count('objects of many kinds of members')
            o = L.build(m, r)
            t = T.ground(m)
            s = o.get_ground_set()
            if T.of_lib(s) != t:
                raise Violation('ground set of an object', {'object': mm.show(m), 'got': str(s), 'expected': T.show(t)})
            ms.append((t, s))
            ctx.count('object ground sets')
    n = r.randint(1, 3)
    for _ in range(n):
        t = T.gen(r, r.randint(1, 4))
        if r.random() < .06:
            t = T.wide(r)
            ctx.count('wide unions')
            if t[0] == 'U':
                for v in r.sample(sorted(t[1], key=T.show), min(2, len(t[1]))):
                    ms.append((v, T.build(v, r)))
        ms.append((t, T.build(t, r)))
        for _ in range(r.randint(1, 2)):
            ms.append((t, T.build(t, r)))
        for _ in range(r.randint(0, 2)):
            v = T.vary(r, t)
            ms.append((v, T.build(v, r)))
    r.shuffle(ms)
    ms = ms[:9]
    le = {}
    detail = {}
    try:
        for x, (t, s) in enumerate(ms):
            if T.of_lib(s) != t:
                raise Violation('construction changes a structure', {'expected': T.show(t), 'got': repr(s)})
            if r.random() < .3:
                back = eval(repr(s), NAMES)
                if not (back == s and s == back and hash(back) == hash(s)):
                    raise Violation('the repr of a structure describes another structure', {'structure': T.show(t), 'repr': repr(s), 'str': str(s)})
                ctx.count('reprs')
            for u in unions_in(s):
                mem = list(u.data)
                if len(mem) > 1:
                    ctx.count('unions with members')
                for a in mem:
                    if isinstance(a, L.structure.Union):
                        raise Violation('union member is a union', {'union': repr(u)})
                    for b in mem:
                        if a is not b and a.is_subset(b):
                            raise Violation('union member included in another member', {'union': repr(u), 'member': repr(a), 'in': repr(b)})
            if r.random() < .5 and len(ms) > 1:
                ps = [q for q in r.sample(ms, min(len(ms), r.randint(1, 4))) if q[0] != T.N] or [(T.A, T.st.GenesisSetA())]
                ref = T.union([p for p, _ in ps])
                us = []
                for _ in range(2):
                    r.shuffle(ps)
                    us.append(L.structure.Union([q for _, q in ps]))
                if T.of_lib(us[0]) != ref or not us[0] == us[1] or hash(us[0]) != hash(us[1]) or str(us[0]) != str(us[1]):
                    raise Violation('union depends on the order or is wrong', {'parts': [repr(q) for _, q in ps], 'got': [repr(u) for u in us], 'expected': T.show(ref)})
            for y, (v, w) in enumerate(ms):
                detail = {'left': repr(s), 'right': repr(w)}
                a = s.is_subset(w)
                le[x, y] = a
                if type(a) is not bool:
                    raise Violation('is_subset does not return a truth value', dict(detail, got=repr(a)))
                if (s <= w) is not a:
                    raise Violation('<= differs from is_subset', detail)
                if a is not T.sub(t, v):
                    raise Violation('is_subset is wrong', dict(detail, got=a))
                ctx.count('inclusions %s' % a)
                e = s == w
                if e is not (t == v) or (s != w) is e or s.is_same(w) is not e:
                    raise Violation('equality is wrong', dict(detail, got=e, expected=t == v))
                if e:
                    ctx.count('equal pairs')
                    if hash(s) != hash(w):
                        raise Violation('equal structures hash differently', detail)
                lv = s.get_powerset_level(w)
                if isinstance(s, L.structure.Union):
                    ok = type(lv) is int and lv >= 0
                else:
                    ok = lv == T.level(t, v)
                if not ok:
                    raise Violation('get_powerset_level is wrong', dict(detail, got=lv, expected=T.level(t, v)))
                if lv:
                    ctx.count('levels above 0')
                ctx.judged((t, v), len(t) > 1 or len(v) > 1, lambda: '%s <= %s: %s' % (s, w, a))
        detail = {}
        k = len(ms)
        for x in range(k):
            if not le[x, x]:
                raise Violation('inclusion not reflexive', {'structure': repr(ms[x][1])})
            for y in range(k):
                if le[x, y] and le[y, x]:
                    ctx.count('antisymmetric pairs')
                    if not ms[x][1] == ms[y][1]:
                        raise Violation('inclusion not antisymmetric', {'a': repr(ms[x][1]), 'b': repr(ms[y][1])})
                for z in range(k):
                    if le[x, y] and le[y, z]:
                        ctx.count('transitive triples')
                        if not le[x, z]:
                            raise Violation('inclusion not transitive', {'a': repr(ms[x][1]), 'b': repr(ms[y][1]), 'c': repr(ms[z][1])})
    except Violation:
        raise
    except Exception as ex:
        raise Violation('raised %s' % type(ex).__name__, dict(detail, exception=short_tb(ex), structures=[T.show(t) for t, _ in ms]))


def diverse(r):
    """A set or multiset whose members have many different ground sets."""
    pool = [mm.A(0), mm.A('a')]
    for k in range(r.choice([6, 15, 30])):
        x, y = r.choice(pool), r.choice(pool)
        pool.append(r.choice([mm.C(x, y), mm.C(mm.A(k), x), mm.S([x]), mm.S([x, mm.A(k)]), mm.M({x: k + 1})]))
    pool = sorted({m for m in pool if len(mm.show(m)) < 120}, key=mm.show)
    r.shuffle(pool)
    return mm.S(pool) if r.random() < .5 else mm.M({m: r.randint(1, 3) for m in pool})


def unions_in(s):
    if isinstance(s, L.structure.Union):
        yield s
        for e in s.data:
            yield from unions_in(e)
    elif isinstance(s, L.structure.PowerSet):
        yield from unions_in(s.base_set)
    elif isinstance(s, L.structure.CartesianProduct):
        yield from unions_in(s.left)
        yield from unions_in(s.right)
