"""Equality, hash, order, repr, str and deepcopy of equal and nearly equal objects built and aged in different ways."""
import copy
import json
import os
import random
import subprocess
import sys
from mon import lib as L
from mon import model as mm
from mon import gen as G
from mon import ops as O
from mon.engine import History, Violation, short_tb
from mon.model import A, C, S, M

NEED = ['equal pairs', 'unequal pairs', 'ordered triples', 'repr round trips', 'canonical texts', 'texts of large collections', 'foreign comparisons', 'deep copies', 'copies', 'mixed kinds', 'aged copies', 'texts of another process']
RULE = ('Random values and near variants of them, each built several times in different element orders and aged differently; all pairs are compared with all operators and '
        'with the model, triples for transitivity. Non-trivial: pair of unequal values or of differently built equal values; distinct by ordered pair of values.')
POOLS = [
    ['a', 'b', 'c', ''], [1, 1.0, True, 'a', 'True', '1'], [0, False, '', 0.0, None], [9, 10, 2.0, 100, -1, 1e300], [2 ** 61 - 1, 0, -1, -2, 2 ** 61], ["it's", '"', 'a\n', '\\', 'ü'],
    [b'x', 'x', b'', "b'x'"], [1j, 1, 1.0, 'j', 2j], [(1, 2), (1, 10), (2,), (), 'x'], [range(3), range(1, 3), 3, None], [1.5, 1, 2, 10, 2.5, 10.25], ['Atom(1)', 1, '1']]


def near(r, g, m):
    """A value that differs a little from m (or not at all)."""
    k = r.random()
    if m[0] == 'A':
        v = m[2]
        try:
            if isinstance(v, bool) or (isinstance(v, (int, float)) and r.random() < .6):
                return A(r.choice([int, float, bool, str])(v))
        except Exception:
            pass
        return r.choice([A(str(v)), g.atom(), S([m]), C(m, m), M({m: 1})])
    if m[0] == 'C':
        if k < .35:
            return C(near(r, g, m[1]), m[2])
        if k < .7:
            return C(m[1], near(r, g, m[2]))
        return r.choice([C(m[2], m[1]), S([m]), M({m: 1})])
    if m[0] == 'S':
        es = sorted(m[1], key=mm.show)
        if es and k < .4:
            x = r.choice(es)
            return S([e for e in es if e != x] + [near(r, g, x)])
        if es and k < .55:
            return S(r.sample(es, len(es) - 1))
        if k < .7:
            return S(es + [g.any(1)])
        if k < .85:
            return M({e: 1 for e in es})
        return S([m])
    es = sorted(m[1], key=lambda t: mm.show(t[0]))
    d = dict(es)
    if es and k < .5:
        x = r.choice(es)[0]
        d[x] += r.choice([1, 1, -1, 5])
        return M(d)
    if es and k < .7:
        x = r.choice(es)
        del d[x[0]]
        d[near(r, g, x[0])] = x[1]
        return M(d)
    if len(es) > 1 and k < .8:
        (a, n), (b, k2) = r.sample(es, 2)
        d[a], d[b] = k2, n
        return M(d)
    return S(e for e, _ in es)


NS = {'Atom': L.mo.Atom, 'Couplet': L.mo.Couplet, 'Set': L.mo.Set, 'Multiset': L.mo.Multiset}


def age(r, o):
    for _ in range(r.randint(0, 3)):
        f = r.choice([hash, repr, str, lambda x: L.properties.is_functional(x), lambda x: L.sets.is_absolute_member(x), lambda x: x.get_ground_set(),
                      lambda x: x['a'], lambda x: L.clans.is_regular(x), lambda x: x('a')])
        try:
            f(o)
        except Exception:
            pass
    return o


def texts(r, ctx, a, b, m):
    if hash(a) != hash(b):
        raise Violation('equal objects hash differently', {'object': mm.show(m)})
    for f in (repr, str):
        if f(a) != f(b):
            raise Violation('equal objects have different %s' % f.__name__, {'object': mm.show(m), 'one': f(a), 'other': f(b)})
    ctx.count('canonical texts')
    if len(mm.elems(m)) > 15 if m[0] in 'SM' else False:
        ctx.count('texts of large collections')


def history(ctx, i):
    if i == 0:
        other_process(ctx)
    r = random.Random('%s/%s/%s' % (ctx.prop, ctx.seed, i))
    g = G.Gen(r, pools=POOLS)
    ms = [g.of(r.choice(['mo', 'mo', 'set', 'rel', 'clan', 'mset', 'mclan', 'cpl', 'atom', 'sos', 'som'])) for _ in range(r.randint(1, 3))]
    for _ in range(r.randint(1, 4)):
        ms.append(near(r, g, r.choice(ms)))
    if r.random() < .25:
        ms += [A(v) for v in r.sample(sum(POOLS, []), 4)]
    if r.random() < .15:
        # large collections
        n = r.choice([20, 40, 120])
        big = [A(x) for x in r.sample(range(-500, 500), n)]
        ms.append(S(big) if r.random() < .5 else M({x: r.randint(1, 4) for x in big}))
        if r.random() < .5:
            ms.append(S(C(A('k%d' % x), A(x)) for x in range(n)))
    objs = []
    for m in ms:
        if mm.size(m) > 260:
            continue
        n = r.choice([1, 2, 2, 3])
        for _ in range(n):
            objs.append((m, age(r, L.build(m, r))))
            ctx.count('aged copies')
    r.shuffle(objs)
    objs = objs[:10]
    lt = {}
    detail = {}
    try:
        for x, (m, a) in enumerate(objs):
            detail = {'object': mm.show(m)}
            c = copy.deepcopy(a)
            if not (c == a) or c != a or hash(c) != hash(a) or L.to_model(c) != m:
                raise Violation('deep copy differs', detail)
            ctx.count('deep copies')
            c = copy.copy(a)
            if not (c == a) or c != a or hash(c) != hash(a) or L.to_model(c) != m or repr(c) != repr(a):
                raise Violation('copy differs', detail)
            ctx.count('copies')
            b = eval(repr(a), dict(NS))
            if not (b == a) or L.to_model(b) != m:
                raise Violation('evaluating the repr gives another object', dict(detail, repr=repr(a), got=mm.show(L.to_model(b))))
            ctx.count('repr round trips')
            texts(r, ctx, a, b, m)
            for other in (None, 5, 'a', object(), m[2] if m[0] == 'A' else 0):
                if a == other or not (a != other):
                    raise Violation('equal to something that is no math object', dict(detail, other=repr(other)))
                ctx.count('foreign comparisons')
            try:
                a < r.choice([5, 'a', None])
                raise Violation('ordered against something that is no math object', detail)
            except TypeError:
                pass
            for y, (n, b) in enumerate(objs):
                detail = {'left': mm.show(m), 'right': mm.show(n)}
                eq = m == n
                got = {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}
                if any(type(v) is not bool for v in got.values()):
                    raise Violation('comparison without truth value', dict(detail, got=str(got)))
                if got['=='] is not eq or got['!='] is eq:
                    raise Violation('equality is wrong', dict(detail, got=str(got), expected=eq))
                if eq:
                    ctx.count('equal pairs')
                    if got['<'] or got['>'] or not got['<='] or not got['>=']:
                        raise Violation('equal objects ordered', dict(detail, got=str(got)))
                    texts(r, ctx, a, b, m)
                else:
                    ctx.count('unequal pairs')
                    if got['<'] is got['>'] or got['<='] is not got['<'] or got['>='] is not got['>']:
                        raise Violation('order inconsistent', dict(detail, got=str(got)))
                    if m[0] != n[0]:
                        ctx.count('mixed kinds')
                    elif m[0] == 'A' and m[1] is n[1] and m[1] in (int, float, str, bytes, bool) and got['<'] is not (m[2] < n[2]):
                        raise Violation('atoms of one type are not ordered by value', dict(detail, got=str(got)))
                lt[x, y] = got['<']
                if hash(a) != hash(a):
                    raise Violation('hash not stable', detail)
                ctx.judged((m, n), a is not b, lambda: '%s vs %s: %s' % (mm.show(m)[:120], mm.show(n)[:120], got))
        for x in range(len(objs)):
            for y in range(len(objs)):
                for z in range(len(objs)):
                    if lt[x, y] and lt[y, z]:
                        ctx.count('ordered triples')
                        if not lt[x, z]:
                            raise Violation('order not transitive', {'a': mm.show(objs[x][0]), 'b': mm.show(objs[y][0]), 'c': mm.show(objs[z][0])})
        srt = [m for m, _ in sorted([(m, o) for m, o in objs], key=lambda t: t[1])]
        objs2 = list(objs)
        r.shuffle(objs2)
        if srt != [m for m, _ in sorted(objs2, key=lambda t: t[1])]:
            raise Violation('sorting depends on the initial order', {'objects': [mm.show(m) for m in srt]})
    except Violation:
        raise
    except Exception as ex:
        raise Violation('raised %s' % type(ex).__name__, dict(detail, exception=short_tb(ex)))


def texts_of(seed, n):
    """Texts of n random objects and sorted groups of them, in a process-independent sequence."""
    r = random.Random('texts/%s' % seed)
    out = []
    for _ in range(n):
        g = G.Gen(r, pools=POOLS)
        ms = [m for m in (g.of(r.choice(['mo', 'set', 'rel', 'clan', 'mset', 'mclan', 'sos', 'som'])) for _ in range(4)) if mm.size(m) < 200]
        objs = [L.build(m, r) for m in ms]
        out.append([[mm.show(m) for m in ms], [repr(o) for o in objs] + [str(o) for o in objs], [repr(o) for o in sorted(objs)]])
    return out


def other_process(ctx):
    """repr, str and order are the same in a process with other hashes."""
    n = 120
    p = subprocess.run([sys.executable, '-m', 'mon.checks.C02', str(ctx.seed), str(n)], env=dict(os.environ, PYTHONHASHSEED=str(1000 + ctx.seed)), stdout=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError('the other process failed')
    theirs, mine = json.loads(p.stdout.decode('ascii')), json.loads(json.dumps(texts_of(ctx.seed, n)))
    for (ma, ta, sa), (mb, tb, sb) in zip(mine, theirs):
        if ma != mb:
            continue        # our own generator depends on hashes
        if sa != sb:
            raise Violation('sorting depends on the process', {'objects': ma, 'here': sa, 'there': sb})
        for a, b in zip(ta, tb):
            if a != b:
                raise Violation('the text depends on the process', {'objects': ma, 'here': a, 'there': b})
            ctx.count('texts of another process')
            ctx.judged(('process', a), True)


if __name__ == '__main__':
    print(json.dumps(texts_of(int(sys.argv[1]), int(sys.argv[2]))))
