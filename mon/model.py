"""Reference model: math objects as Python tuples, operations as plain set theory. Shares no code with algebraixlib.

('A', type, value) atom          ('C', left, right) couplet
('S', frozenset) set             ('M', frozenset of (elem, n)) multiset
U is the undefined result.
"""


class _Undef:
    def __repr__(self):
        return 'U'

    def __bool__(self):
        raise TypeError('U used as truth value')


U = _Undef()


def A(v):
    return ('A', type(v), v)


def C(l, r):
    return ('C', l, r)


def S(it=()):
    return ('S', frozenset(it))


def M(counts):
    """From dict elem -> n (n > 0)."""
    return ('M', frozenset((k, n) for k, n in counts.items() if n > 0))


E = S()
EM = M({})


def is_a(m):
    return m[0] == 'A'


def is_c(m):
    return m[0] == 'C'


def is_s(m):
    return m[0] == 'S'


def is_m(m):
    return m[0] == 'M'


def d(m):
    """Multiset model -> dict."""
    return dict(m[1])


def is_rel(m):
    return m[0] == 'S' and all(e[0] == 'C' for e in m[1])


def is_clan(m):
    return m[0] == 'S' and all(is_rel(e) for e in m[1])


def is_mclan(m):
    return m[0] == 'M' and all(is_rel(e) for e, _ in m[1])


def is_abs(m):
    """Whether the object is absolute in its own algebra."""
    k = m[0]
    if k == 'A':
        return True
    if k == 'C':
        return m[1][0] == 'A' and m[2][0] == 'A'
    if k == 'S':
        if is_rel(m) or is_clan(m):
            return all(is_abs(e) for e in m[1])
        return all(e[0] == 'A' for e in m[1])
    if is_mclan(m):
        return all(is_abs(e) for e, _ in m[1])
    return all(e[0] == 'A' for e, _ in m[1])


# --- properties -----------------------------------------------------------------------------------
def lefts(rel):
    return frozenset(c[1] for c in rel[1])


def rights(rel):
    return frozenset(c[2] for c in rel[1])


def rel_functional(r):
    return len(lefts(r)) == len(r[1])


def rel_right_functional(r):
    return len(rights(r)) == len(r[1])


def rel_reflexive(r):
    return all(c[1] == c[2] for c in r[1])


def rel_symmetric(r):
    return all(('C', c[2], c[1]) in r[1] for c in r[1])


def rel_transitive(r):
    by_left = {}
    for c in r[1]:
        by_left.setdefault(c[1], []).append(c[2])
    return all(('C', c[1], z) in r[1] for c in r[1] for z in by_left.get(c[2], ()))


REL_PROPS = {'functional': rel_functional, 'right_functional': rel_right_functional, 'reflexive': rel_reflexive,
             'symmetric': rel_symmetric, 'transitive': rel_transitive}
PROPS = ['functional', 'right_functional', 'reflexive', 'symmetric', 'transitive', 'regular', 'right_regular']


def elems(m):
    return m[1] if m[0] == 'S' else [e for e, _ in m[1]]


def clans_regular(rels):
    rels = list(rels)
    return all(rel_functional(r) for r in rels) and len({lefts(r) for r in rels}) <= 1


def clans_right_regular(rels):
    rels = list(rels)
    return all(rel_right_functional(r) for r in rels) and len({rights(r) for r in rels}) <= 1


def pure(m):
    """A set built from empty sets only (incl. the empty set)."""
    return m[0] == 'S' and all(pure(e) for e in m[1])


def ambiguous(m):
    """Whether m (or something inside) is a set that mixes non-empty nests of empty sets with other elements or holds an empty multiset: the
    documentation does not say at which power set level these stand, so no property of a higher-level set is judged there."""
    k = m[0]
    if k == 'A':
        return False
    if k == 'C':
        return ambiguous(m[1]) or ambiguous(m[2])
    es = list(elems(m))
    if any(pure(e) and e[1] for e in es) and not is_clan(m):
        return True
    if k == 'S' and EM in m[1]:
        return True
    return any(ambiguous(e) for e in es)


def level(m):
    """n such that m is in P^n(M x M), as set of relation levels: 1 = relation, 2 = clan, ...; None if there is none; 0 for 'any' (empty)."""
    if m[0] == 'C':
        return 0
    if m[0] != 'S':
        return None
    if not m[1]:
        return 'any'
    ls = {level(e) for e in m[1]}
    if None in ls or ('any' in ls and 0 in ls):
        return None
    ls.discard('any')
    if not ls:
        return 2
    if len(ls) > 1:
        return None
    return ls.pop() + 1


def left_set(m):
    """get_left_set()."""
    if m[0] == 'S':
        if is_rel(m):
            return S(lefts(m))
        lv = level(m)
        if lv is None:
            return U
        out = set()
        for e in m[1]:
            x = left_set(e)
            if x is U:
                return U
            out |= x[1]
        return S(out)
    if is_mclan(m):
        return S(x for r, _ in m[1] for x in lefts(r))
    return U


def right_set(m):
    if m[0] == 'S':
        if is_rel(m):
            return S(rights(m))
        lv = level(m)
        if lv is None:
            return U
        out = set()
        for e in m[1]:
            x = right_set(e)
            if x is U:
                return U
            out |= x[1]
        return S(out)
    if is_mclan(m):
        return S(x for r, _ in m[1] for x in rights(r))
    return U


def prop(m, name):
    """True, False or U (property does not apply)."""
    if m[0] == 'A':
        return U
    if m[0] == 'C':
        return m[1] == m[2] if name == 'reflexive' else U
    reg = name in ('regular', 'right_regular')
    if m[0] == 'M':
        if not is_mclan(m):
            return U
        if reg:
            return (clans_regular if name == 'regular' else clans_right_regular)(elems(m))
        return all(REL_PROPS[name](r) for r in elems(m))
    if not m[1]:
        return True
    if is_rel(m):
        return U if reg else REL_PROPS[name](m)
    if is_clan(m):
        if reg:
            return (clans_regular if name == 'regular' else clans_right_regular)(m[1])
        return all(REL_PROPS[name](r) for r in m[1])
    if level(m) is None:
        return U
    vals = [prop(e, name) for e in m[1]]
    if any(v is U for v in vals):
        return U
    if not all(vals):
        return False
    if reg:
        f = left_set if name == 'regular' else right_set
        return len({f(e) for e in m[1]}) <= 1
    return True


# --- couplets / relations -------------------------------------------------------------------------
def c_transpose(c):
    return C(c[2], c[1])


def c_compose(c1, c2):
    return C(c2[1], c1[2]) if c1[1] == c2[2] else U


def r_transpose(r):
    return S(C(c[2], c[1]) for c in r[1])


def r_compose(r1, r2):
    by_right = {}
    for c in r2[1]:
        by_right.setdefault(c[2], []).append(c[1])
    return S(C(l, c[2]) for c in r1[1] for l in by_right.get(c[1], ()))


def r_functional_union(r1, r2):
    u = S(r1[1] | r2[1])
    return u if rel_functional(u) else U


def r_right_functional_union(r1, r2):
    u = S(r1[1] | r2[1])
    return u if rel_right_functional(u) else U


def r_diag(*ls):
    return S(C(x, x) for x in ls)


def r_rights_for_left(r, l):
    return S(c[2] for c in r[1] if c[1] == l)


def r_right(r, l):
    x = [c[2] for c in r[1] if c[1] == l]
    return x[0] if len(x) == 1 else U


def r_left(r, rt):
    x = [c[1] for c in r[1] if c[2] == rt]
    return x[0] if len(x) == 1 else U


def r_fill_lefts(r, ren):
    return S(ren[1] | {C(x, x) for x in lefts(r) - rights(ren)})


def r_rename(r, ren):
    return r_compose(r, r_fill_lefts(r, ren))


def r_swap(r, sw):
    return r_rename(r, S(sw[1] | r_transpose(sw)[1]))


def r_functional_add(r, c):
    if not rel_functional(r) or c[1] in lefts(r):
        return U
    return S(r[1] | {c})


def r_defined_at(r, l):
    return r if l in lefts(r) else U


# --- sets -----------------------------------------------------------------------------------------
def s_union(a, b):
    return S(a[1] | b[1])


def s_intersect(a, b):
    return S(a[1] & b[1])


def s_minus(a, b):
    return S(a[1] - b[1])


def s_substrict(a, b):
    return a if a[1] <= b[1] else U


def s_superstrict(a, b):
    return a if a[1] >= b[1] else U


def s_power_set(a):
    out = [frozenset()]
    for e in a[1]:
        out += [x | {e} for x in out]
    return S(('S', x) for x in out)


def s_power_up(a):
    return S(S([e]) for e in a[1])


def s_big_union(a):
    out = frozenset()
    for e in a[1]:
        out |= e[1]
    return S(out)


def s_big_intersect(a):
    if not a[1]:
        return E
    it = iter(a[1])
    out = next(it)[1]
    for e in it:
        out = out & e[1]
    return S(out)


def s_single(a):
    return next(iter(a[1])) if len(a[1]) == 1 else U


def s_multify(a):
    return M({e: 1 for e in a[1]})


# --- multisets ------------------------------------------------------------------------------------
def m_union(a, b):
    x, y = d(a), d(b)
    return M({k: max(x.get(k, 0), y.get(k, 0)) for k in set(x) | set(y)})


def m_intersect(a, b):
    x, y = d(a), d(b)
    return M({k: min(x[k], y[k]) for k in x if k in y})


def m_minus(a, b):
    x, y = d(a), d(b)
    return M({k: n - y.get(k, 0) for k, n in x.items()})


def m_add(a, b):
    x, y = d(a), d(b)
    return M({k: x.get(k, 0) + y.get(k, 0) for k in set(x) | set(y)})


def m_subset(a, b):
    y = d(b)
    return all(n <= y.get(k, 0) for k, n in a[1])


def m_superset(a, b):
    return m_subset(b, a)


def m_substrict(a, b):
    return a if m_subset(a, b) else U


def m_superstrict(a, b):
    return a if m_superset(a, b) else U


def m_demultify(a):
    return S(e for e, _ in a[1])


def m_big(op):
    def f(s):
        out = None
        for e in s[1]:
            out = e if out is None else op(out, e)
        return out
    return f


def m_single(a):
    return next(iter(a[1]))[0] if len(a[1]) == 1 and next(iter(a[1]))[1] == 1 else U


# --- extension ------------------------------------------------------------------------------------
def ext1(f):
    def g(a, *args):
        return S(x for x in (f(e, *args) for e in a[1]) if x is not U)
    return g


def ext2(f):
    def g(a, b):
        return S(x for x in (f(p, q) for p in a[1] for q in b[1]) if x is not U)
    return g


def mext1(f):
    def g(a, *args):
        out = {}
        for e, n in (a[1] if a[0] == 'M' else [(e, 1) for e in a[1]]):
            x = f(e, *args)
            if x is not U:
                out[x] = out.get(x, 0) + n
        return M(out)
    return g


def mext2(f):
    def g(a, b):
        out = {}
        for p, n in a[1]:
            for q, k in b[1]:
                x = f(p, q)
                if x is not U:
                    out[x] = out.get(x, 0) + n * k
        return M(out)
    return g


# --- clans ----------------------------------------------------------------------------------------
def cl_lhs_cfu(l, r):
    cfu = ext2(r_functional_union)
    return S(cfu(l, r)[1] | {x for x in l[1] if not cfu(S([x]), r)[1]})


def cl_project(c, *ls):
    return ext1(lambda r: r_compose(r, r_diag(*ls)))(c)


def cl_from_set(l, *vs):
    return S(S([C(l, v)]) for v in vs)


def cl_defined_at(c, l):
    out = S(r for r in c[1] if l in lefts(r))
    return out if out[1] else U


# --- multiclans -----------------------------------------------------------------------------------
def mc_strict(f):
    def g(a, b):
        return M({r: n for r, n in a[1] if any(f(r, q) for q, _ in b[1])})
    return g


def mc_project(c, *ls):
    return mext1(lambda r: r_compose(r, r_diag(*ls)))(c)


def mc_defined_at(c, l):
    out = M({r: n for r, n in c[1] if l in lefts(r)})
    return out if out[1] else U


def mc_rights_for_left(c, l):
    out = {}
    for r, n in c[1]:
        for k in r[1]:
            if k[1] == l:
                out[k[2]] = out.get(k[2], 0) + n
    return M(out)


# --- calling / indexing ---------------------------------------------------------------------------
def call(m, l):
    if m[0] == 'S' and is_rel(m) and rel_functional(m):
        return r_right(m, l)
    return U


def getitem(m, l):
    if m[0] == 'S':
        if is_rel(m):
            return r_rights_for_left(m, l)
        if is_clan(m):
            return S(c[2] for r in m[1] for c in r[1] if c[1] == l)
        return U
    if m[0] == 'M':
        if all(e[0] == 'C' for e, _ in m[1]):
            return M({e[2]: n for e, n in m[1] if e[1] == l})
        if is_mclan(m):
            return mc_rights_for_left(m, l)
    return U


def show(m, depth=0):
    """Short text of a model value."""
    if m is U:
        return 'undef'
    if not isinstance(m, tuple) or not m or m[0] not in ('A', 'C', 'S', 'M'):
        return repr(m)
    if m[0] == 'A':
        return repr(m[2])
    if m[0] == 'C':
        return '(%s->%s)' % (show(m[1]), show(m[2]))
    if m[0] == 'S':
        return '{%s}' % ', '.join(sorted(show(e) for e in m[1]))
    return '[%s]' % ', '.join(sorted('%s:%d' % (show(e), n) for e, n in m[1]))


def bulk(m):
    """Upper bound for the work of iterating m with multiplicities."""
    if m[0] == 'A':
        return 1
    if m[0] == 'C':
        return bulk(m[1]) + bulk(m[2])
    if m[0] == 'S':
        return 1 + sum(bulk(e) for e in m[1])
    return 1 + sum(n * bulk(e) for e, n in m[1])


def size(m):
    if m[0] == 'A':
        return 1
    if m[0] == 'C':
        return size(m[1]) + size(m[2])
    return 1 + sum(size(e) for e in elems(m))
