"""Registry of the library's operations with their model counterparts."""
from . import lib as L
from . import model as mm
from .limits import LIMITS
from .model import A, C, S, M, E, EM, U


class Op:
    def __init__(self, name, fn, kinds, model, fam, checked=True, accept=None, args=None, limit=None, out=True, weight=1, kinds_min=None):
        self.name, self.fn, self.kinds, self.model, self.fam = name, fn, kinds, model, fam
        self.checked = checked          # has a _checked switch
        self.accept = accept            # accept(margs, got_model) -> bool for extra acceptable results
        self.args = args                # args(ctx) -> [(lib value, model value)]
        self.limit = limit              # limit(margs) -> bool: small enough
        self.out = out                  # result goes into the pool
        self.weight = weight


def prod(*margs):
    n = 1
    for m in margs:
        if L.is_val(m) and m[0] in 'SM':
            n *= max(1, len(m[1]))
    return n <= LIMITS['prod'] and sum(mm.size(m) for m in margs if L.is_val(m)) <= LIMITS['prodsize'] and sum(mm.bulk(m) for m in margs if L.is_val(m)) <= 20000


def small(*margs):
    return sum(mm.size(m) for m in margs if L.is_val(m)) <= 1.25 * LIMITS['size']


def _either_empty(margs, got):
    return got in (E, EM)


def as_lib(f, rng=None):
    """A library-level callable computing the model function f."""
    def g(*os):
        x = f(*[L.to_model(o) for o in os])
        if x is U:
            return L.UNDEF
        return L.build(x, rng) if L.is_val(x) else x
    return g


# --- callables used as parameters -----------------------------------------------------------------
def _h(m):
    return sum(map(ord, mm.show(m)))


def selectors(ctx):
    r = ctx.rng
    k = r.randint(0, 9)
    x = ctx.pick('left')[1]
    f = r.choice([lambda m: True, lambda m: False, lambda m: _h(m) % 3 != k % 3, lambda m: m[0] == 'C', lambda m: m == x,
                  lambda m: m[0] == 'S' and len(m[1]) > 1, lambda m: m[0] == 'C' and m[1] == x, lambda m: m != x])
    return f


def unops(ctx):
    """Partial, colliding and constant unary operations."""
    r = ctx.rng
    k = r.randint(2, 4)
    x = ctx.pick('left')[1]
    return r.choice([
        lambda m: m, lambda m: x, lambda m: U, lambda m: C(m, x), lambda m: S([m]), lambda m: A(_h(m) % k),
        lambda m: U if _h(m) % 2 else m, lambda m: m[2] if m[0] == 'C' else U, lambda m: S(m[1]) if m[0] == 'S' else E,
        lambda m: mm.r_transpose(m) if mm.is_rel(m) else U, lambda m: U if m == x else x])


def binops(ctx):
    r = ctx.rng
    k = r.randint(2, 4)
    x = ctx.pick('left')[1]
    return r.choice([
        lambda a, b: C(a, b), lambda a, b: a, lambda a, b: b, lambda a, b: x, lambda a, b: U, lambda a, b: a if a == b else U,
        lambda a, b: A((_h(a) + 2 * _h(b)) % k), lambda a, b: S([a, b]), lambda a, b: U if (_h(a) + _h(b)) % 2 else C(b, a),
        lambda a, b: mm.s_union(a, b) if a[0] == 'S' and b[0] == 'S' else U])


def classfs(ctx):
    r = ctx.rng
    k = r.randint(2, 4)
    x = ctx.pick('left')[1]
    return r.choice([
        lambda m: A('c'), lambda m: m, lambda m: A(_h(m) % k), lambda m: A(m[0]), lambda m: A(_h(m) % 2 == 0),
        lambda m: S([A(_h(m) % k)]), lambda m: A(m == x), lambda m: C(A(_h(m) % 2), A(1)), lambda m: m[1] if m[0] == 'C' else E,
        lambda m: (A(1) if _h(m) % 2 else A(True)) if _h(m) % 3 else A(1.0)])


def raw_or_lib(f, ctx):
    """Class function returning sometimes the raw value, sometimes a math object (equal values always count as equal)."""
    def g(o):
        x = f(L.to_model(o))
        if x[0] == 'A' and ctx.rng.random() < .5:
            return x[2]
        return L.build(x, ctx.rng)
    return g


# --- argument builders for irregular signatures ---------------------------------------------------
def a_leftstar(kind, lo=0, hi=4):
    def f(ctx):
        o, m = ctx.pick(kind)
        out = [(o, m)]
        for _ in range(ctx.rng.randint(lo, hi)):
            lo_, lm = ctx.pick_left(m)
            out.append((ctx.maybe_raw(lo_, lm), lm))
        return out
    return f


def a_left(kind, what='left'):
    def f(ctx):
        o, m = ctx.pick(kind)
        lo, lm = ctx.pick_left(m) if what == 'left' else ctx.pick_right(m)
        return [(o, m), (lo, lm)]
    return f


def a_diag(ctx):
    return [ctx.pick('left') for _ in range(ctx.rng.randint(0, 4))]


def a_from_set(ctx):
    out = [ctx.pick('left')]
    out += [ctx.pick('mo') for _ in range(ctx.rng.randint(0, 4))]
    return [(ctx.maybe_raw(o, m), m) for o, m in out]


def a_dict(ctx):
    ms = {}
    for _ in range(ctx.rng.randint(0, 4)):
        l, r = ctx.gen.comp(), ctx.gen.comp(False)
        if l[0] == 'A' and (l[2] is None or any(k[0] == 'A' and k[2] == l[2] for k in ms)):
            continue
        if r == A(None):
            continue
        ms[l] = r
    raw = {}
    for l, r in ms.items():
        raw[ctx.maybe_raw(L.build(l, ctx.rng), l, .5)] = ctx.maybe_raw(L.build(r, ctx.rng), r, .5)
    return [(raw, tuple(ms.items()))]


def a_restrict(ctx):
    f = selectors(ctx)
    return [ctx.pick('set'), (as_lib(f), f)]


def a_ext1(kind):
    def g(ctx):
        f = unops(ctx)
        return [ctx.pick(kind), (as_lib(f, ctx.rng), f)]
    return g


def a_ext2(kind):
    def g(ctx):
        f = binops(ctx)
        return [ctx.pick(kind), ctx.pick(kind), (as_lib(f, ctx.rng), f)]
    return g


def a_part(ctx):
    f = classfs(ctx)
    return [ctx.pick('som_or_mset'), (raw_or_lib(f, ctx), f)]


def m_partition(m, f):
    parts = {}
    if m[0] == 'S':
        for e in m[1]:
            parts.setdefault(f(e), set()).add(e)
        return S(S(p) for p in parts.values())
    for e, n in m[1]:
        parts.setdefault(f(e), {})[e] = n
    return S(M(p) for p in parts.values())


def m_labeled(m, f):
    parts = {}
    if m[0] == 'S':
        for e in m[1]:
            parts.setdefault(f(e), set()).add(e)
        return S(C(k, S(p)) for k, p in parts.items())
    for e, n in m[1]:
        parts.setdefault(f(e), {})[e] = n
    return S(C(k, M(p)) for k, p in parts.items())


def a_chain(ctx):
    kind = ctx.rng.choice(['sos', 'som'])
    o, m = ctx.pick(kind)
    if kind == 'sos':
        lf, mf = ctx.rng.choice([(L.sets.union, mm.s_union), (L.sets.intersect, mm.s_intersect)])
        mem = L.sets.is_member
    else:
        lf, mf = ctx.rng.choice([(L.multisets.union, mm.m_union), (L.multisets.add, mm.m_add), (L.multisets.intersect, mm.m_intersect)])
        mem = L.multisets.is_member
    return [(o, m), (lf, mf), (mem, None)]


def m_chain(m, f, _):
    out = None
    for e in m[1]:
        out = e if out is None else f(out, e)
    return E if out is None else out


def _dict_rel(items):
    return S(C(l, r) for l, r in items)


OPS = []


def add(*a, **k):
    OPS.append(Op(*a, **k))


def _mk():
    s, c, r, cl, ms, mc = L.sets, L.couplets, L.relations, L.clans, L.multisets, L.multiclans
    # A01
    for n in ('union', 'intersect', 'minus', 'substrict', 'superstrict'):
        add('sets.' + n, getattr(s, n), ['set', 'set'], getattr(mm, 's_' + n), 'A01', weight=3)
    add('sets.is_subset_of', s.is_subset_of, ['set', 'set'], lambda a, b: a[1] <= b[1], 'A01')
    add('sets.is_superset_of', s.is_superset_of, ['set', 'set'], lambda a, b: a[1] >= b[1], 'A01')
    add('sets.big_union', s.big_union, ['sos'], mm.s_big_union, 'A01', weight=2)
    add('sets.big_intersect', s.big_intersect, ['sos'], mm.s_big_intersect, 'A01', weight=2)
    add('sets.power_set', s.power_set, ['set'], mm.s_power_set, 'A01', checked=False, limit=lambda a: len(a[1]) <= (5 if LIMITS['prod'] < 1000 else 9) and mm.size(a) < 120)
    add('sets.power_up', s.power_up, ['set'], mm.s_power_up, 'A01', checked=False)
    add('sets.restrict', s.restrict, None, lambda a, f: S(e for e in a[1] if f(e)), 'A01', checked=False, args=a_restrict, weight=2)
    add('sets.single', s.single, ['set'], mm.s_single, 'A01', checked=False)
    add('sets.some', s.some, ['set'], lambda a: U if not a[1] else None, 'A01', checked=False, accept=lambda ma, g: g is not U and g in ma[0][1])
    add('sets.multify', s.multify, ['set'], mm.s_multify, 'A01', weight=2)
    add('sets.chain_binary_operation', s.chain_binary_operation, None, m_chain, 'A01', checked=False, args=a_chain)
    # A02
    add('couplets.transpose', c.transpose, ['cpl'], mm.c_transpose, 'A02')
    add('couplets.compose', c.compose, ['cpl', 'cpl'], mm.c_compose, 'A02', weight=2)
    add('relations.transpose', r.transpose, ['rel'], mm.r_transpose, 'A02', weight=2)
    for n in ('compose', 'functional_union', 'right_functional_union', 'fill_lefts', 'rename', 'swap'):
        add('relations.' + n, getattr(r, n), ['rel', 'rel'], getattr(mm, 'r_' + n), 'A02', limit=prod, weight=2)
    add('relations.get_lefts', r.get_lefts, ['rel'], lambda a: S(mm.lefts(a)), 'A02')
    add('relations.get_rights', r.get_rights, ['rel'], lambda a: S(mm.rights(a)), 'A02')
    add('relations.get_rights_for_left', r.get_rights_for_left, None, mm.r_rights_for_left, 'A02', args=a_left('rel'))
    add('relations.get_right', r.get_right, None, mm.r_right, 'A02', args=a_left('rel'))
    add('relations.get_left', r.get_left, None, mm.r_left, 'A02', args=a_left('rel', 'right'))
    add('relations.functional_add', r.functional_add, ['rel', 'cpl'], mm.r_functional_add, 'A02', checked=False)
    add('relations.diag', r.diag, None, mm.r_diag, 'A02', args=a_diag)
    add('relations.from_dict', r.from_dict, None, _dict_rel, 'A02', args=a_dict, checked=False)
    add('relations.defined_at', r.defined_at, None, mm.r_defined_at, 'A02', args=a_left('rel'))
    # A03
    add('clans.transpose', cl.transpose, ['clan'], mm.ext1(mm.r_transpose), 'A03', weight=2)
    for n, f in (('compose', mm.ext2(mm.r_compose)), ('cross_union', mm.ext2(mm.s_union)),
                 ('cross_functional_union', mm.ext2(mm.r_functional_union)),
                 ('cross_right_functional_union', mm.ext2(mm.r_right_functional_union)),
                 ('lhs_cross_functional_union', mm.cl_lhs_cfu), ('cross_intersect', mm.ext2(mm.s_intersect)),
                 ('substrict', mm.ext2(mm.s_substrict)), ('superstrict', mm.ext2(mm.s_superstrict))):
        add('clans.' + n, getattr(cl, n), ['clan', 'clan'], f, 'A03', limit=prod, weight=3)
    add('clans.get_lefts', cl.get_lefts, ['clan'], mm.left_set, 'A03')
    add('clans.get_rights', cl.get_rights, ['clan'], mm.right_set, 'A03')
    add('clans.project', cl.project, None, mm.cl_project, 'A03', checked=False, args=a_leftstar('clan'), weight=2)
    add('clans.from_set', cl.from_set, None, mm.cl_from_set, 'A03', checked=False, args=a_from_set, weight=2)
    add('clans.from_dict', cl.from_dict, None, lambda x: S([_dict_rel(x)]), 'A03', checked=False, args=a_dict)
    add('clans.diag', cl.diag, None, lambda *x: S([mm.r_diag(*x)]), 'A03', args=a_diag)
    add('clans.defined_at', cl.defined_at, None, mm.cl_defined_at, 'A03', args=a_left('clan'), weight=2)
    # A04
    for n in ('union', 'intersect', 'minus', 'add', 'substrict', 'superstrict'):
        add('multisets.' + n, getattr(ms, n), ['mset', 'mset'], getattr(mm, 'm_' + n), 'A04', weight=3)
    add('multisets.is_subset_of', ms.is_subset_of, ['mset', 'mset'], mm.m_subset, 'A04', weight=2)
    add('multisets.is_superset_of', ms.is_superset_of, ['mset', 'mset'], mm.m_superset, 'A04', weight=2)
    bu, bi = mm.m_big(mm.m_union), mm.m_big(mm.m_intersect)
    add('multisets.big_union', ms.big_union, ['som'], lambda a: bu(a) if a[1] else EM, 'A04', accept=lambda ma, g: not ma[0][1] and g in (E, EM), weight=2)
    add('multisets.big_intersect', ms.big_intersect, ['som'], lambda a: bi(a) if a[1] else EM, 'A04',
        accept=lambda ma, g: not ma[0][1] and g in (E, EM), weight=2)
    add('multisets.demultify', ms.demultify, ['mset'], mm.m_demultify, 'A04', weight=2)
    add('multisets.single', ms.single, ['mset'], mm.m_single, 'A04', checked=False)
    add('multisets.some', ms.some, ['mset'], lambda a: U if not a[1] else None, 'A04', checked=False,
        accept=lambda ma, g: g is not U and g in mm.d(ma[0]))
    # A05
    add('multiclans.transpose', mc.transpose, ['mclan'], mm.mext1(mm.r_transpose), 'A05', weight=2)
    for n, f in (('compose', mm.mext2(mm.r_compose)), ('cross_union', mm.mext2(mm.s_union)),
                 ('cross_functional_union', mm.mext2(mm.r_functional_union)),
                 ('cross_right_functional_union', mm.mext2(mm.r_right_functional_union)),
                 ('cross_intersect', mm.mext2(mm.s_intersect)),
                 ('substrict', mm.mc_strict(lambda a, b: a[1] <= b[1])), ('superstrict', mm.mc_strict(lambda a, b: a[1] >= b[1]))):
        add('multiclans.' + n, getattr(mc, n), ['mclan', 'mclan'], f, 'A05', limit=prod, weight=3)
    add('multiclans.get_lefts', mc.get_lefts, ['mclan'], mm.left_set, 'A05', accept=lambda ma, g: not ma[0][1] and g in (E, EM))
    add('multiclans.get_rights', mc.get_rights, ['mclan'], mm.right_set, 'A05', accept=lambda ma, g: not ma[0][1] and g in (E, EM))
    add('multiclans.get_rights_for_left', mc.get_rights_for_left, None, mm.mc_rights_for_left, 'A05', args=a_left('mclan'), weight=2)
    add('multiclans.project', mc.project, None, mm.mc_project, 'A05', checked=False, args=a_leftstar('mclan'), weight=2)
    add('multiclans.from_dict', mc.from_dict, None, lambda x: M({_dict_rel(x): 1}), 'A05', checked=False, args=a_dict)
    add('multiclans.diag', mc.diag, None, lambda *x: M({mm.r_diag(*x): 1}), 'A05', args=a_diag)
    add('multiclans.defined_at', mc.defined_at, None, mm.mc_defined_at, 'A05', args=a_left('mclan'), weight=2)
    # A07
    e = L.extension
    add('extension.unary_extend', e.unary_extend, None, lambda a, f: mm.ext1(f)(a), 'A07', args=a_ext1('set'), limit=lambda a, f: small(a))
    add('extension.binary_extend', e.binary_extend, None, lambda a, b, f: mm.ext2(f)(a, b), 'A07', args=a_ext2('set'), limit=lambda a, b, f: prod(a, b))
    add('extension.unary_multi_extend', e.unary_multi_extend, None, lambda a, f: mm.mext1(f)(a), 'A07', args=a_ext1('som_or_mset'))
    add('extension.binary_multi_extend', e.binary_multi_extend, None, lambda a, b, f: mm.mext2(f)(a, b), 'A07', args=a_ext2('mset'),
        limit=lambda a, b, f: prod(a, b))
    # A08
    p = L.partition
    add('partition.partition', p.partition, None, m_partition, 'A08', checked=False, args=a_part)
    add('partition.make_labeled_partition', p.make_labeled_partition, None, m_labeled, 'A08', checked=False, args=a_part)


_mk()
BY_FAM = {}
for _o in OPS:
    BY_FAM.setdefault(_o.fam, []).append(_o)
