"""Random hostile model values over small universes."""
from . import model as mm
from .model import A, C, S, M, E, EM

ATOM_POOLS = [
    ['a', 'b', 'c'],
    ['a', 'b', 1, 2],
    [1, 1.0, True, 'a'],
    [0, False, '', 0.0],
    [-1, -2, 'x', 'y'],
    ['name', 'id', "it's", 'a b', 'ü', '"'],
    [1, 2, 3, 4, 5],
    [2 ** 70, -2 ** 70, 10 ** 20, 7],
    ['a', ('t', 1), frozenset([1, 2]), None],
    [1j, b'x', 1.5, 'a'],
]


TINY_POOLS = [[1, 2], [1, 2, 3], [1, 2, 3], ['a', 'b'], ['a', 'b', 'c'], ['a', 1], [1, 1.0], [-1, -2], [0, 0.0, False], ['a', 'b', 'c', 'd']]


HUGE_CELLS = 500


class Gen:
    """One universe: a few atoms for lefts and rights; sizes kept small so that values meet each other."""

    def __init__(self, rng, nest=None, pools=None, tiny=False, huge=False):
        self.rng = rng
        self.tiny = tiny
        self.huge = huge
        self.left = 0
        if huge:
            # collections of dozens to hundreds of elements
            k = rng.choice([20, 40, 80, 150, 300])
            self.pool = [A(v) for v in rng.choice([range(k), ['n%d' % i for i in range(k)], [i if i % 3 else 'n%d' % i for i in range(k)]])]
            self.rpool = self.pool if rng.random() < .5 else [A(v) for v in rng.choice([range(5), range(1000), range(1000, 1000 + k), ['x', 'y', 1]])]
            self.nest = 0
            self.big = False
            return
        if tiny:
            # so few values that special cases (symmetric, transitive, regular ...) and meetings of operands are common
            self.pool = [A(v) for v in rng.choice(TINY_POOLS)]
            self.rpool = self.pool if rng.random() < .8 else [A(v) for v in rng.choice(TINY_POOLS)]
            self.nest = 0
            self.big = False
            return
        pools = pools or ATOM_POOLS
        self.pool = [A(v) for v in rng.choice(pools)]
        self.rpool = self.pool if rng.random() < .6 else [A(v) for v in rng.choice(pools)]
        # probability that a component is not an atom
        self.nest = nest if nest is not None else rng.choice([0, 0, .1, .3])
        self.big = rng.random() < .12

    def n(self, hi=4):
        r = self.rng
        if self.huge:
            v = r.choice([1, 2, r.randint(3, 12), r.randint(10, 40), r.randint(30, 150), r.randint(100, 300)])
            v = min(v, max(2, self.left))
            self.left -= v
            return v
        if self.big and r.random() < .25:
            return r.randint(0, 10)
        return r.choice([0, 1, 1, 2, 2, 3, hi])

    def mult(self):
        r = self.rng
        if self.huge:
            return r.choice([1, 1, 2, r.randint(1, 20)])
        return r.choice([1, 1, 1, 2, 3, r.randint(1, 9), r.choice([17, 100, 1000])if r.random() < .2 else 2])

    def atom(self):
        return self.rng.choice(self.pool)

    def comp(self, left=True):
        r = self.rng
        if r.random() < self.nest:
            return self.any(2)
        return r.choice(self.pool if left else self.rpool)

    def couplet(self):
        l = self.comp()
        return C(l, l) if self.rng.random() < .2 else C(l, self.comp(False))

    def dense(self):
        """Any subset of all couplets of the universe."""
        p = self.rng.random()
        return S(C(a, b) for a in self.pool for b in self.rpool if self.rng.random() < p)

    def closed(self):
        """A relation with a random combination of the properties reflexive (on its field), symmetric, transitive."""
        r = self.rng
        rel = self.dense() if r.random() < .5 else S(C(self.atom(), self.atom()) for _ in range(r.randint(1, 3)))
        cs = set(rel[1])
        sym, tr, refl = r.random() < .6, r.random() < .7, r.random() < .4
        if refl:
            cs |= {C(x, x) for c in rel[1] for x in c[1:]}
        while True:
            n = len(cs)
            if sym:
                cs |= {C(c[2], c[1]) for c in cs}
            if tr:
                cs |= {C(a[1], b[2]) for a in cs for b in cs if a[2] == b[1]}
            if len(cs) == n:
                return S(cs)

    def blocks(self):
        """A larger transitive relation: complete, strictly or weakly ordered blocks."""
        r = self.rng
        ls = list(self.pool)
        r.shuffle(ls)
        out, kind, left = [], r.randint(0, 2), self.left
        self.left -= max(2, left // 2)
        while ls and left > 3:
            b, ls = ls[:r.randint(1, 9)], ls[9:]
            left -= len(b) ** 2
            if left < 0:
                break
            out += [C(x, y) for i, x in enumerate(b) for j, y in enumerate(b) if kind == 0 or i < j or (kind == 1 and i == j)]
        return S(out)

    def near_miss(self, rel):
        """The relation with one couplet more, less or different, so that a property of it just fails."""
        r = self.rng
        cs = sorted(rel[1], key=mm.show)
        if not cs:
            return rel
        k = r.randrange(len(cs))
        c = cs[k]
        q = r.random()
        if q < .4:
            del cs[k]
        elif q < .6:
            cs[k] = C(c[1], self.comp(False))
        elif q < .7:
            cs[k] = C(self.comp(), c[2])
        elif q < .85:
            cs.append(C(c[1], self.comp(False)))
        else:
            cs.append(C(self.comp(), c[2]))
        return S(cs)

    def one_flaw(self, members=False):
        """A larger object of which exactly one element spoils a property (or none does)."""
        r = self.rng
        n, ok = r.choice([4, 12, 40, 90, 90]), r.random() < .2
        at = lambda j: A(j) if j % 3 else A('v%d' % j)
        kind = r.choice(['functional', 'functional', 'right functional', 'symmetric', 'reflexive', 'transitive', 'member', 'member', 'absolute'] if not members else ['member', 'absolute'])

        def spoil(good, bad):
            return list(good) + ([] if ok else [bad])

        def relation(kind, ok, n, b):
            if kind in ('functional', 'right functional'):
                cs = [C(at(j), at(b + j % 7)) for j in range(n)] + ([] if ok else [C(at(r.randrange(n)), at(999))])
                return S(cs if kind == 'functional' else [C(c[2], c[1]) for c in cs])
            if kind == 'symmetric':
                cs = [x for j in range(n // 2) for x in (C(at(j), at(j + b)), C(at(j + b), at(j)))]
                return S(cs + ([] if ok else [C(at(r.randrange(n)), at(199))]))
            if kind == 'reflexive':
                return S([C(at(j), at(j)) for j in range(n)] + ([] if ok else [C(at(r.randrange(n)), at(n + 5))]))
            if kind == 'transitive':
                k = 3
                while k * k < n and k < 10:
                    k += 1
                cs = [C(at(i), at(j)) for i in range(k) for j in range(k) if i < j or (b == 1 and i == j)]
                if not ok:
                    cs.remove(C(at(0), at(r.randrange(2, k))))
                return S(cs)
            return S(C(at(j), at(b)) for j in range(3))
        level = r.choice(['rel', 'rel', 'clan', 'clan', 'mclan', 'clans'])
        if kind in ('member', 'absolute'):
            x = r.choice([at(1), S([at(1)]), M({at(1): 1}), M({C(at(1), at(2)): 1}), C(C(at(1), at(2)), at(1)), S([C(at(1), S([at(2)]))]), M({S([C(at(1), at(2))]): 2})])
            cs = [C(at(j), at((j * 5) % 11)) for j in range(n)]
            if level == 'rel':
                return S(spoil(cs, x))
            if level == 'clan':
                return S(spoil([S([c]) for c in cs], r.choice([x, S(cs[:3] + [x])])))
            if level == 'clans' and r.random() < .4:
                return S(spoil([M({at(j): 1 + j % 3, at(j // 2): 2}) for j in range(n)], x))
            if level == 'mclan':
                return M({e: r.choice([1, 1, 3]) for e in spoil([S([c]) for c in cs], r.choice([x, S(cs[:3] + [x])]))})
            return S(spoil([at(j) for j in range(n)] if r.random() < .5 else [S([at(j)]) for j in range(n)], x))
        if level == 'rel':
            return relation(kind, ok, n, r.choice([1, 3]))
        m = r.choice([3, 9, 20])
        bs = r.sample(range(1, 200), n)
        if kind == 'transitive':
            rels = [S([C(at(500), at(b))]) for b in bs]
        else:
            rels = [relation(kind, True, m, b) for b in bs] if kind not in ('reflexive',) else [S(C(at(b + j), at(b + j)) for j in range(m)) for b in bs]
        if not ok:
            rels.append(relation(kind, False, m, 1))
        if kind in ('functional', 'right functional') and r.random() < .5:  # regular but for one
            cs = sorted(rels[0][1], key=mm.show)
            c = cs.pop()
            x = r.choice([None, A('other'), A(1.5)])
            q = S(cs + ([] if x is None else [C(x, c[2]) if kind == 'functional' else C(c[1], x)]))
            rels = [y for y in rels if y[0] == 'S' and mm.prop(S([y]), 'functional' if kind == 'functional' else 'right_functional')] + [q]
        if level == 'mclan':
            return M({x: r.choice([1, 1, 2, 5]) for x in rels})
        if level == 'clan':
            return S(rels)
        q = r.randint(1, 6)
        return S(S(rels[j::q]) for j in range(q))

    def rel(self):
        x = self.rel_()
        return self.near_miss(x) if self.rng.random() < .1 else x

    def rel_(self):
        r = self.rng
        k = r.random()
        if self.huge and r.random() < .2:
            return self.blocks()
        if self.tiny and k < .6:
            return self.dense() if k < .25 else self.closed()
        n = self.n()
        if k < .3:
            return S(self.couplet() for _ in range(n))
        if k < .6:      # functional
            return S(C(l, self.comp(False)) for l in {self.comp() for _ in range(n)})
        if k < .7:      # right functional
            return S(C(self.comp(), x) for x in {self.comp(False) for _ in range(n)})
        if k < .75:
            return S(C(l, l) for l in [self.comp() for _ in range(n)])
        if k < .83:     # symmetric
            base = [self.couplet() for _ in range(n)]
            return S(base + [C(c[2], c[1]) for c in base])
        if k < .92:     # transitive
            rel = S(C(self.comp(), self.comp()) for _ in range(min(n, 3)))
            while not mm.rel_transitive(rel):
                rel = S(rel[1] | mm.r_compose(rel, rel)[1])
            return rel
        # bijection
        ls = list({self.comp() for _ in range(n)})
        rs = list({self.comp(False) for _ in range(n)})
        ls.sort(key=mm.show)
        rs.sort(key=mm.show)
        r.shuffle(rs)
        return S(C(a, b) for a, b in zip(ls, rs))

    def func(self):
        return S(C(l, self.comp(False)) for l in {self.comp() for _ in range(self.n())})

    def rels(self, n):
        out = self.rels_(n)
        if out and self.rng.random() < .08:
            k = self.rng.randrange(len(out))
            out[k] = self.near_miss(out[k])
        return out

    def rels_(self, n):
        r = self.rng
        k = r.random()
        if self.tiny and k < .15:
            return [self.closed() for _ in range(n)]
        if self.huge:
            self.left = HUGE_CELLS // max(1, n)
            if k < .35:
                out = []
                for _ in range(n):
                    self.left = HUGE_CELLS // max(1, n)
                    out.append(self.rel())
                return out
        if k < .35:
            return [self.rel() for _ in range(n)]
        if k < .75:     # regular
            ls = sorted({self.comp() for _ in range(self.n(3))}, key=mm.show)
            return [S(C(l, self.comp(False)) for l in ls) for _ in range(n)]
        if k < .85:     # functional, nearly regular
            ls = sorted({self.comp() for _ in range(3)}, key=mm.show)
            return [S(C(l, self.comp(False)) for l in ls if r.random() < .85) for _ in range(n)]
        if k < .93:     # right regular
            rs = sorted({self.comp(False) for _ in range(self.n(3))}, key=mm.show)
            return [S(C(self.comp(), x) for x in rs) for _ in range(n)]
        return [mm.r_diag(*[self.comp() for _ in range(self.n())]) for _ in range(n)]

    def rows(self):
        n = self.n()
        return min(n, 100) if self.huge else n

    def clan(self):
        if self.rng.random() < .04:
            return S([E])
        return S(self.rels(self.rows()))

    def mclan(self):
        if self.rng.random() < .04:
            return M({E: self.mult()})
        return M({x: self.mult() for x in self.rels(self.rows())})

    def set(self):
        r = self.rng
        k = r.random()
        if k < .3:
            return S(self.atom() for _ in range(self.n()))
        if k < .45:
            return self.rel()
        if k < .6:
            return self.clan()
        if k < .75:
            return self.setofsets()
        return S(self.any(2) for _ in range(self.n()))

    def hollow(self):
        """Nested sets of relations, with an empty set (that no ground set shows) somewhere."""
        r = self.rng
        at = lambda: A(r.choice([1, 2, 'a']))

        def level(k):
            if not k:
                n = r.choice([at, at, lambda: S([]), lambda: M({}), lambda: S([at()])])
                xs = [C(n(), at()) for _ in range(r.randint(0, 2))]
            else:
                xs = [level(k - 1) for _ in range(r.randint(1, 3))]
            return S(xs + ([S([])] if r.random() < .25 else []))
        return level(r.choice([1, 2, 2, 3]))

    def setofsets(self):
        r = self.rng
        if r.random() < .08:
            return self.hollow()
        k = r.random()
        if k < .4:
            return S(S(self.atom() for _ in range(self.n())) for _ in range(self.n()))
        if k < .7:
            return S(self.clan() for _ in range(self.n(3)))
        if k < .85:
            return self.clan()
        return S(r.choice([self.rel, self.clan, lambda: S([self.atom()])])() for _ in range(self.n()))

    def setofmsets(self):
        return S(self.mset() for _ in range(self.n(3)))

    def mset(self):
        r = self.rng
        k = r.random()
        if k < .4:
            return M({self.atom(): self.mult() for _ in range(self.n())})
        if k < .6:
            return self.mclan()
        if k < .75:
            return M({self.couplet(): self.mult() for _ in range(self.n())})
        return M({self.any(2): self.mult() for _ in range(self.n())})

    def any(self, depth=3):
        r = self.rng
        k = r.random()
        if depth <= 0 or k < .35:
            return self.atom()
        if k < .5:
            return C(self.any(depth - 1), self.any(depth - 1))
        if k < .56:
            return E
        if k < .60:
            return EM
        if k < .72:
            return S(self.any(depth - 1) for _ in range(r.randint(0, 3)))
        if k < .80:
            return M({self.any(depth - 1): r.randint(1, 3) for _ in range(r.randint(0, 3))})
        sv, self.nest = self.nest, (self.nest if depth > 2 else 0)
        try:
            return r.choice([self.rel, self.clan, self.mclan, self.func])()
        finally:
            self.nest = sv

    def of(self, kind):
        self.left = HUGE_CELLS
        return {'mo': self.any, 'set': self.set, 'rel': self.rel, 'clan': self.clan, 'mset': self.mset, 'mclan': self.mclan,
                'cpl': self.couplet, 'sos': self.setofsets, 'som': self.setofmsets, 'func': self.func,
                'left': self.comp, 'atom': self.atom, 'som_or_mset': lambda: self.rng.choice([self.set, self.mset])()}[kind]()


def kind_ok(kind, m):
    """Whether a model value may be used where kind is asked for."""
    if kind in ('mo', 'left'):
        return True
    return {'set': mm.is_s, 'rel': mm.is_rel, 'clan': mm.is_clan, 'mset': mm.is_m, 'mclan': mm.is_mclan, 'cpl': mm.is_c, 'atom': mm.is_a,
            'sos': lambda x: mm.is_s(x) and all(mm.is_s(e) for e in x[1]),
            'som': lambda x: mm.is_s(x) and all(mm.is_m(e) for e in x[1]),
            'func': lambda x: mm.is_rel(x) and mm.rel_functional(x),
            'som_or_mset': lambda x: x[0] in 'SM'}[kind](m)
