"""Reference model of the structure calculus: ('0',) ('A',) ('M',) ('N',) ('x', l, r) ('P', s) ('U', frozenset of canonical non-unions)."""
from . import lib as L

ZERO, A, M, N = ('0',), ('A',), ('M',), ('N',)
st = L.structure


def sub(a, b):
    """Inclusion of canonical structures."""
    if a == ZERO or a == b:
        return True
    if a[0] == 'U':
        return all(sub(e, b) for e in a[1])
    if b[0] == 'U':
        return any(sub(a, e) for e in b[1])
    if b == M:
        return a != N
    if a[0] != b[0]:
        return False
    if a[0] == 'x':
        return sub(a[1], b[1]) and sub(a[2], b[2])
    if a[0] == 'P':
        return sub(a[1], b[1])
    return False


def union(parts):
    """Canonical union of canonical structures."""
    flat = set()
    for p in parts:
        flat |= p[1] if p[0] == 'U' else {p}
    top = {p for p in flat if not any(q != p and sub(p, q) for q in flat)}
    return next(iter(top)) if len(top) == 1 else ('U', frozenset(top))


def ground(m):
    """Ground set of a model value."""
    if m[0] == 'A':
        return A
    if m[0] == 'C':
        return ('x', ground(m[1]), ground(m[2]))
    if not m[1]:
        return ZERO
    if m[0] == 'S':
        return ('P', union([ground(e) for e in m[1]]))
    return ('P', ('x', union([ground(e) for e, _ in m[1]]), N))


def of_lib(s):
    """Canonical model of a library structure (the members of a Union are taken as they are)."""
    if isinstance(s, st.Union):
        return union([of_lib(e) for e in s.data])
    if isinstance(s, st.PowerSet):
        return ('P', of_lib(s.base_set))
    if isinstance(s, st.CartesianProduct):
        return ('x', of_lib(s.left), of_lib(s.right))
    for t, v in ((st.GenesisSetA, A), (st.GenesisSetM, M), (st.GenesisSetN, N), (st.Structure, ZERO)):
        if type(s) is t:
            return v
    raise TypeError('not a structure: %r' % (s,))


def build(s, rng):
    """Library structure in a random equivalent form."""
    k = s[0]
    if s != N and rng.random() < .06:
        return st.Union([build(s, rng)])
    if k == 'P':
        return st.PowerSet(build(s[1], rng))
    if k == 'x':
        return st.CartesianProduct(build(s[1], rng), build(s[2], rng))
    if k == 'U':
        parts = [build(e, rng) for e in sorted(s[1], key=show)]
        parts += [build(e, rng) for e in s[1] if rng.random() < .2]
        if rng.random() < .2:
            parts.append(st.Structure())
        rng.shuffle(parts)
        if len(parts) > 2 and rng.random() < .3:
            n = rng.randint(1, len(parts) - 1)
            parts = [st.Union(parts[:n])] + parts[n:]
            rng.shuffle(parts)
        return st.Union(parts if rng.random() < .6 else (p for p in parts))
    return {'0': st.Structure, 'A': st.GenesisSetA, 'M': st.GenesisSetM, 'N': st.GenesisSetN}[k]()


def show(s):
    k = s[0]
    if k == 'P':
        return 'P(%s)' % show(s[1])
    if k == 'x':
        return '(%s x %s)' % (show(s[1]), show(s[2]))
    if k == 'U':
        return '(%s)' % ' U '.join(sorted(map(show, s[1])))
    return '{}' if s == ZERO else k


def level(a, b):
    """Number of power sets stripped from a until it is included in b (0: none works or not a power set)."""
    n = 0
    while True:
        if a[0] == 'U' and n:
            ls = {level_in(e, b, n) for e in a[1]}
            return ls.pop() if len(ls) == 1 else 0
        if a[0] != 'P':
            return 0
        n += 1
        a = a[1]
        if sub(a, b):
            return n


def level_in(e, b, n):
    x = level(e, b)
    return x + n if x else 0


def plain(parts):
    """Union for generated structures. N is no union member: whether it is included in M is left open by the documentation."""
    return union([p for p in parts if p != N] or [A])


def gen(rng, depth):
    k = rng.random()
    if depth <= 0 or k < .25:
        return rng.choice([A, A, M, N, ZERO] if rng.random() < .5 else [A])
    if k < .45:
        return ('P', gen(rng, depth - 1))
    if k < .65:
        return ('x', gen(rng, depth - 1), gen(rng, depth - 1))
    return plain([gen(rng, depth - 1) for _ in range(rng.randint(1, 4))])


def wide(rng):
    """A union of many members, only some of which include others."""
    base = [A]
    for _ in range(rng.choice([6, 12, 25])):
        x, y = rng.choice(base), rng.choice(base)
        base.append(rng.choice([('P', x), ('x', x, y), ('x', y, A), ('P', ('x', x, A))]))
    return plain([b for b in base if size(b) < 12])


def size(s):
    return 1 + sum(size(x) for x in (s[1] if s[0] == 'U' else s[1:]) if isinstance(x, tuple))


def vary(rng, s):
    """A structure near s: enlarge, shrink or replace some part."""
    k = rng.random()
    if k < .12:
        return rng.choice([M, ZERO, A, ('P', s), ('x', s, s), plain([s, gen(rng, 2)])])
    if s[0] == 'P':
        return ('P', vary(rng, s[1]))
    if s[0] == 'x':
        return ('x', vary(rng, s[1]) if rng.random() < .6 else s[1], vary(rng, s[2]) if rng.random() < .6 else s[2])
    if s[0] == 'U':
        return plain([vary(rng, e) if rng.random() < .4 else e for e in s[1] if rng.random() < .9])
    return s
