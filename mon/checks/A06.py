"""Slices: every window has exactly the requested rows of the ordered multiclan, and consecutive windows tile it."""
from collections import Counter
from mon import lib as L
from mon import model as mm
from mon.engine import History, Violation, short_tb
from mon.model import U

NEED = ['windows', 'windows inside one multiplicity', 'tilings', 'infinite limits', 'empty windows', 'orders with ties']
RULE = ('Random multiclans (incl. high multiplicities), strict weak orders with and without ties, windows and tilings; rows are compared with the '
        'sorted row list of the model. Non-trivial: multiclan not empty; distinct by multiclan, function, order and window.')
INF = float('inf')


def keyed(h, m):
    """A random strict weak order as a key function on relation models."""
    r = h.rng
    lefts = sorted({c[1] for e, _ in m[1] for c in e[1]}, key=mm.show)
    l = r.choice(lefts) if lefts else mm.A('a')
    k = r.randint(1, 3)
    name, f = r.choice([
        ('text', mm.show), ('size', lambda x: len(x[1])), ('constant', lambda x: 0),
        ('right of %s' % mm.show(l), lambda x: sorted(mm.show(c[2]) for c in x[1] if c[1] == l)),
        ('mod', lambda x: sum(map(ord, mm.show(x))) % k), ('reverse text', lambda x: [-ord(ch) for ch in mm.show(x)] + [1])])
    return name, f


def rows_of(h, what, res, m, detail):
    """Multiplicities (Counter) of a slice result given as Multiset or list of pairs."""
    out = Counter()
    if isinstance(res, L.mo.Multiset):
        mres = L.to_model(res)
        if not mm.is_mclan(mres):
            raise Violation(what + ': result is not a multiclan', dict(detail, got=mm.show(mres)))
        items = mres[1]
        order = None
    else:
        items = []
        for pair in res:
            rel, n = pair
            items.append((L.to_model(rel), n))
        order = [e for e, _ in items]
        if len(set(order)) != len(order):
            raise Violation(what + ': relation listed twice', dict(detail, got=[(mm.show(e), n) for e, n in items]))
    src = mm.d(m)
    for e, n in items:
        if type(n) is not int or n <= 0 or n > src.get(e, 0):
            raise Violation(what + ': multiplicity out of range', dict(detail, row=mm.show(e), n=repr(n), available=src.get(e, 0)))
        out[e] += n
    return out, order


def expect(m, key, lo, hi):
    """(rows certainly in the window, per tie group number of rows in the window)."""
    groups = {}
    for e, n in m[1]:
        groups.setdefault(repr(key(e)) if False else _k(key(e)), []).append((e, n))
    pos, need = 0, []
    for k in sorted(groups):
        n = sum(x for _, x in groups[k])
        a, b = max(lo, pos), min(hi, pos + n)
        need.append((groups[k], max(0, b - a)))
        pos += n
    return need


def _k(x):
    return tuple(x) if isinstance(x, list) else x


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    mc = L.multiclans
    for _ in range(12):
        if r.random() < .3:
            h.age()
        o, m = h.pick('mclan', fresh=.6)
        if mm.bulk(m) > 5000:
            continue
        name, key = keyed(h, m)
        kind = r.random()
        total = sum(n for _, n in m[1])
        cum, p = [0], 0
        for _, n in sorted(m[1], key=lambda t: _k(key(t[0]))):
            p += n
            cum.append(p)

        def point():
            return max(0, r.choice([0, total, r.choice(cum), r.choice(cum) + r.choice([-1, 1]), r.randint(0, total + 2), r.randint(0, total + 2)]))

        def lt(a, b, atoms=r.random() < .6):
            res = _k(key(L.to_model(a))) < _k(key(L.to_model(b)))
            return L.mo.Atom(res) if atoms else res

        def num(x):
            return L.mo.Atom(x) if r.random() < .5 else x

        def call(fname, lo, lim):
            lim_ = num(lim)
            off_ = num(lo)
            detail = {'multiclan': mm.show(m), 'order': name, 'offset': repr(off_), 'limit': repr(lim_), 'function': fname, 'trace': h.trace[-20:]}
            kw = {}
            if isinstance(off_, L.mo.Atom) and isinstance(lim_, L.mo.Atom) and r.random() < .4:
                kw = {'_checked': False}
            try:
                if fname == 'multiclan_to_listgen':
                    res = mc.multiclan_to_listgen(o, off_, lim_, **kw)
                else:
                    res = getattr(mc, fname)(o, lt, off_, lim_, **kw)
                if res is L.UNDEF:
                    raise Violation(fname + ': undefined', detail)
                if fname != 'order_slice':
                    res = list(res)
            except Violation:
                raise
            except Exception as ex:
                raise Violation('%s raised %s' % (fname, type(ex).__name__), dict(detail, exception=short_tb(ex)))
            got, order = rows_of(h, fname, res, m, detail)
            if L.to_model(o) != m:
                raise Violation(fname + ': the multiclan was changed', dict(detail, now=mm.show(L.to_model(o))))
            want = max(0, min(total, lo + lim) - min(lo, total))
            if sum(got.values()) != want:
                raise Violation(fname + ': wrong number of rows', dict(detail, got=sum(got.values()), expected=want))
            if fname != 'multiclan_to_listgen':
                for group, n in expect(m, key, lo, lo + lim):
                    g = sum(got[e] for e, _ in group)
                    if g != n:
                        raise Violation(fname + ': wrong rows', dict(detail, group=[mm.show(e) for e, _ in group], got=g, expected=n,
                                                                     result={mm.show(e): n for e, n in got.items()}))
                    # rows of a tie group that lie completely in the window keep their multiplicity
                if order is not None:
                    ks = [_k(key(e)) for e in order]
                    if any(ks[j + 1] < ks[j] for j in range(len(ks) - 1)):
                        raise Violation(fname + ': rows out of order', dict(detail, got=[mm.show(e) for e in order]))
            ctx.count('windows')
            if lim == INF:
                ctx.count('infinite limits')
            if want == 0:
                ctx.count('empty windows')
            elif len([e for e in got if got[e]]) == 1 and got[next(iter(got))] < mm.d(m)[next(iter(got))]:
                ctx.count('windows inside one multiplicity')
            if len({_k(key(e)) for e, _ in m[1]}) < len(m[1]):
                ctx.count('orders with ties')
            ctx.judged((fname, m, name, lo, lim), bool(m[1]), lambda: '%s of %s by %s [%s,+%s] = %d rows' % (fname, mm.show(m)[:200], name, lo, lim, want))
            return got

        fname = r.choice(['order_slice', 'order_slice_to_listgen', 'multiclan_to_listgen'])
        if kind < .6:
            a = point()
            lim = r.choice([INF, point(), point(), abs(point() - a)])
            got = call(fname, a, lim)
        else:
            cuts = sorted({0, total} | {min(total, point()) for _ in range(r.randint(0, 4))})
            acc = Counter()
            for a, b in zip(cuts, cuts[1:]):
                acc += call(fname, a, b - a)
            if r.random() < .5:
                acc += call(fname, total, r.choice([1, INF]))
            if acc != Counter(mm.d(m)):
                raise Violation(fname + ': consecutive slices do not tile the multiclan',
                                {'multiclan': mm.show(m), 'order': name, 'cuts': cuts, 'sum': {mm.show(e): n for e, n in acc.items()}})
            ctx.count('tilings')
