"""Algebraic laws: both sides are computed by the library from shared, aged operands and must be the same object."""
from mon import lib as L
from mon import model as mm
from mon.engine import History, Violation, short_tb
from mon.limits import LIMITS
from mon.model import U

s, c, r, cl, ms, mc, ex = L.sets, L.couplets, L.relations, L.clans, L.multisets, L.multiclans, L.extension
p = L.properties
UND = L.UNDEF
LAWS = []
RULE = ('Laws of the algebras (lattice laws, transposition and composition laws, duality, distributivity, homomorphisms between set and multiset algebras) with operands from a pool of shared, aged objects; '
        'both sides are computed by the library alone, in random order, and compared by ==, hash and public content. Distinct by law and operand values; non-trivial: some operand non-empty.')


def law(name, kinds, limit=None):
    def deco(f):
        LAWS.append((name, kinds, f, limit))
        return f
    return deco


def eq(name, kinds, lhs, rhs, limit=None):
    LAWS.append((name, kinds, lambda *a: (lambda: lhs(*a), lambda: rhs(*a)), limit))


def opt(f, *a):
    """f with Undef operands giving Undef (what every operation promises)."""
    return f(*a)


E1 = lambda: L.mo.Set(L.mo.Set())
SETS2 = ['set', 'set']
SETS3 = ['set', 'set', 'set']
M3 = ['mset', 'mset', 'mset']
R2 = ['rel', 'rel']
R3 = ['rel', 'rel', 'rel']
C2 = ['clan', 'clan']
C3 = ['clan', 'clan', 'clan']
K2 = ['mclan', 'mclan']
K3 = ['mclan', 'mclan', 'mclan']

# --- lattice laws of sets and multisets
for alg, K3_, K2_, nm in ((s, SETS3, SETS2, 'set'), (ms, M3, ['mset', 'mset'], 'multiset')):
    def _mk(a_, k3, k2, nm):
        for op in ('union', 'intersect'):
            f = getattr(a_, op)
            o = getattr(a_, 'intersect' if op == 'union' else 'union')
            eq('%s %s commutes' % (nm, op), k2, f, lambda a, b, f=f: f(b, a))
            eq('%s %s associates' % (nm, op), k3, lambda a, b, c, f=f: f(f(a, b), c), lambda a, b, c, f=f: f(a, f(b, c)))
            eq('%s %s idempotent' % (nm, op), k2[:1], lambda a, f=f: f(a, a), lambda a: a)
            eq('%s %s absorbs' % (nm, op), k2, lambda a, b, f=f, o=o: f(a, o(a, b)), lambda a, b: a)
            eq('%s %s distributes' % (nm, op), k3, lambda a, b, c, f=f, o=o: f(a, o(b, c)), lambda a, b, c, f=f, o=o: o(f(a, b), f(a, c)))
        eq(nm + ' minus of union', k3, lambda a, b, c: a_.minus(a, a_.union(b, c)), lambda a, b, c: a_.intersect(a_.minus(a, b), a_.minus(a, c)))
        eq(nm + ' minus of intersection', k3, lambda a, b, c: a_.minus(a, a_.intersect(b, c)), lambda a, b, c: a_.union(a_.minus(a, b), a_.minus(a, c)))
        eq(nm + ' union minus', k3, lambda a, b, c: a_.minus(a_.union(a, b), c), lambda a, b, c: a_.union(a_.minus(a, c), a_.minus(b, c)))
        eq(nm + ' minus itself', k2[:1], lambda a: a_.minus(a, a), lambda a: type(a)())
        eq(nm + ' inclusion by union', k2, lambda a, b: a_.is_subset_of(a, b), lambda a, b: a_.union(a, b) == b)
        eq(nm + ' inclusion by intersection', k2, lambda a, b: a_.is_subset_of(a, b), lambda a, b: a_.intersect(a, b) == a)
        eq(nm + ' inclusion by difference', k2, lambda a, b: a_.is_subset_of(a, b), lambda a, b: a_.minus(a, b).is_empty)
        eq(nm + ' superset is converse', k2, lambda a, b: a_.is_superset_of(a, b), lambda a, b: a_.is_subset_of(b, a))
        eq(nm + ' substrict', k2, lambda a, b: a_.substrict(a, b), lambda a, b: a if a_.is_subset_of(a, b) else UND)
        eq(nm + ' superstrict', k2, lambda a, b: a_.superstrict(a, b), lambda a, b: a if a_.is_subset_of(b, a) else UND)
        eq(nm + ' antisymmetry', k2, lambda a, b: a_.is_subset_of(a, b) and a_.is_subset_of(b, a), lambda a, b: a == b)
        eq(nm + ' big union', k3, lambda a, b, c: a_.big_union(L.mo.Set([a, b, c], direct_load=True)), lambda a, b, c: a_.union(a, a_.union(b, c)))
        eq(nm + ' big intersection', k3, lambda a, b, c: a_.big_intersect(L.mo.Set([a, b, c], direct_load=True)), lambda a, b, c: a_.intersect(a, a_.intersect(b, c)))
        eq(nm + ' partition reassembles', ['set_' if a_ is s else 'mset'], lambda a: L.partition.partition(a, lambda e: hash(e) % 3) if a.is_empty else
           a_.big_union(L.partition.partition(a, lambda e: hash(e) % 3)), lambda a: L.mo.Set() if a.is_empty else a)
    _mk(alg, K3_, K2_, nm)

eq('set minus twice', SETS2, lambda a, b: s.minus(a, s.minus(a, b)), s.intersect)
eq('set parts', SETS2, lambda a, b: s.union(s.minus(a, b), s.intersect(a, b)), lambda a, b: a)
eq('restriction splits', ['set'], lambda a: s.union(s.restrict(a, lambda e: hash(e) % 2), s.restrict(a, lambda e: not hash(e) % 2)), lambda a: a)
few = lambda *a: all(len(m[1]) <= 5 for m in a)
eq('power set covers', ['set'], lambda a: s.big_union(s.power_set(a)), lambda a: a, few)
eq('power set of intersection', SETS2, lambda a, b: s.power_set(s.intersect(a, b)), lambda a, b: s.intersect(s.power_set(a), s.power_set(b)), few)
eq('power set size', ['set'], lambda a: len(s.power_set(a)), lambda a: 2 ** len(a), few)
eq('power up covers', ['set'], lambda a: s.big_union(s.power_up(a)), lambda a: a)
eq('demultify after multify', ['set'], lambda a: ms.demultify(s.multify(a)), lambda a: a)
eq('add commutes', M3[:2], ms.add, lambda a, b: ms.add(b, a))
eq('add associates', M3, lambda a, b, c: ms.add(ms.add(a, b), c), lambda a, b, c: ms.add(a, ms.add(b, c)))
eq('add then minus', M3[:2], lambda a, b: ms.minus(ms.add(a, b), b), lambda a, b: a)
eq('add is union and intersection', M3[:2], lambda a, b: ms.add(ms.union(a, b), ms.intersect(a, b)), ms.add)
eq('multiset union by minus', M3[:2], lambda a, b: ms.add(a, ms.minus(b, a)), ms.union)
eq('multiset intersection by minus', M3[:2], lambda a, b: ms.minus(a, ms.minus(a, b)), ms.intersect)
eq('add distributes over union', M3, lambda a, b, c: ms.add(a, ms.union(b, c)), lambda a, b, c: ms.union(ms.add(a, b), ms.add(a, c)))
eq('cardinality of add', M3[:2], lambda a, b: ms.add(a, b).cardinality, lambda a, b: a.cardinality + b.cardinality)
for op in ('union', 'intersect'):
    eq('demultify maps ' + op, M3[:2], lambda a, b, op=op: ms.demultify(getattr(ms, op)(a, b)), lambda a, b, op=op: getattr(s, op)(ms.demultify(a), ms.demultify(b)))
    eq('multify maps ' + op, SETS2, lambda a, b, op=op: s.multify(getattr(s, op)(a, b)), lambda a, b, op=op: getattr(ms, op)(s.multify(a), s.multify(b)))
eq('demultify maps add', M3[:2], lambda a, b: ms.demultify(ms.add(a, b)), lambda a, b: s.union(ms.demultify(a), ms.demultify(b)))
eq('multify maps minus', SETS2, lambda a, b: s.multify(s.minus(a, b)), lambda a, b: ms.minus(s.multify(a), s.multify(b)))

# --- couplets, relations
eq('couplet transposed twice', ['cpl'], lambda a: c.transpose(c.transpose(a)), lambda a: a)
eq('couplet composition transposed', ['cpl', 'cpl'], lambda a, b: (lambda x: x if x is UND else c.transpose(x))(c.compose(a, b)), lambda a, b: c.compose(c.transpose(b), c.transpose(a)))
eq('relation transposed twice', ['rel'], lambda a: r.transpose(r.transpose(a)), lambda a: a)
eq('relation composition transposed', R2, lambda a, b: r.transpose(r.compose(a, b)), lambda a, b: r.compose(r.transpose(b), r.transpose(a)))
eq('relation composition associates', R3, lambda a, b, c: r.compose(r.compose(a, b), c), lambda a, b, c: r.compose(a, r.compose(b, c)))
eq('relation composition with identity right', ['rel'], lambda a: r.compose(a, r.diag(*r.get_lefts(a))), lambda a: a)
eq('relation composition with identity left', ['rel'], lambda a: r.compose(r.diag(*r.get_rights(a)), a), lambda a: a)
for op in ('union', 'intersect', 'minus'):
    eq('transpose maps ' + op, R2, lambda a, b, op=op: r.transpose(getattr(s, op)(a, b)), lambda a, b, op=op: getattr(s, op)(r.transpose(a), r.transpose(b)))
eq('composition distributes over union', R3, lambda a, b, c: r.compose(a, s.union(b, c)), lambda a, b, c: s.union(r.compose(a, b), r.compose(a, c)))
eq('union of composition', R3, lambda a, b, c: r.compose(s.union(a, b), c), lambda a, b, c: s.union(r.compose(a, c), r.compose(b, c)))
eq('functional union is a union', R2, r.functional_union, lambda a, b: s.union(a, b) if p.is_functional(s.union(a, b)) else UND)
eq('functional union commutes', R2, r.functional_union, lambda a, b: r.functional_union(b, a))
eq('right-functional union dual', R2, r.right_functional_union, lambda a, b: (lambda x: x if x is UND else r.transpose(x))(r.functional_union(r.transpose(a), r.transpose(b))))
eq('functional dual', ['rel'], p.is_functional, lambda a: p.is_right_functional(r.transpose(a)))
eq('symmetric is own transpose', ['rel'], p.is_symmetric, lambda a: r.transpose(a) == a)
eq('transitive by composition', ['rel'], p.is_transitive, lambda a: s.is_subset_of(r.compose(a, a), a))
eq('reflexive dual', ['rel'], p.is_reflexive, lambda a: p.is_reflexive(r.transpose(a)))
eq('lefts are rights of transpose', ['rel'], r.get_lefts, lambda a: r.get_rights(r.transpose(a)))
eq('lefts of union', R2, lambda a, b: r.get_lefts(s.union(a, b)), lambda a, b: s.union(r.get_lefts(a), r.get_lefts(b)))
eq('rights by left', ['rel'], lambda a: r.get_rights(a), lambda a: s.big_union(L.mo.Set([r.get_rights_for_left(a, x) for x in r.get_lefts(a)], direct_load=True)))
eq('fill lefts', R2, lambda a, b: r.get_rights(r.fill_lefts(a, b)), lambda a, b: s.union(r.get_lefts(a), r.get_rights(b)))
eq('fill lefts contains', R2, lambda a, b: s.is_subset_of(b, r.fill_lefts(a, b)), lambda a, b: True)
eq('fill lefts again', R2, lambda a, b: r.fill_lefts(a, r.fill_lefts(a, b)), r.fill_lefts)
eq('rename by nothing', ['rel'], lambda a: r.rename(a, L.mo.Set()), lambda a: a)
eq('rename keeps rights', R2, lambda a, b: r.get_rights(r.rename(a, b)), lambda a, b: r.get_rights(a))
eq('rename of union', R3, lambda a, b, c: s.is_subset_of(s.union(r.rename(a, c), r.rename(b, c)), r.rename(s.union(a, b), c)), lambda a, b, c: True)
eq('swap twice', ['func', 'func'], lambda a, b: r.swap(r.swap(a, one_way(b)), one_way(b)), lambda a, b: a)

# --- clans
for a_, k2, k3, nm, st, join in ((cl, C2, C3, 'clan', s, s.union), (mc, K2, K3, 'multiclan', ms, ms.add)):
    def _mk2(a_, k2, k3, nm, st, join):
        for op in ('cross_union', 'cross_functional_union', 'cross_right_functional_union', 'cross_intersect'):
            f = getattr(a_, op)
            eq('%s %s commutes' % (nm, op), k2, f, lambda a, b, f=f: f(b, a))
            eq('%s %s associates' % (nm, op), k3, lambda a, b, c, f=f: f(f(a, b), c), lambda a, b, c, f=f: f(a, f(b, c)))
            eq('%s %s distributes' % (nm, op), k3, lambda a, b, c, f=f: f(a, join(b, c)), lambda a, b, c, f=f: join(f(a, b), f(a, c)))
            eq('%s %s with empty' % (nm, op), k2[:1], lambda a, f=f: f(a, type(a)()), lambda a: type(a)())
        one = (lambda: L.mo.Set([L.mo.Set()])) if a_ is cl else (lambda: L.mo.Multiset({L.mo.Set(): 1}))
        eq(nm + ' cross union identity', k2[:1], lambda a: a_.cross_union(a, one()), lambda a: a)
        eq(nm + ' transposed twice', k2[:1], lambda a: a_.transpose(a_.transpose(a)), lambda a: a)
        eq(nm + ' composition associates', k3, lambda a, b, c: a_.compose(a_.compose(a, b), c), lambda a, b, c: a_.compose(a, a_.compose(b, c)))
        eq(nm + ' composition transposed', k2, lambda a, b: a_.transpose(a_.compose(a, b)), lambda a, b: a_.compose(a_.transpose(b), a_.transpose(a)))
        eq(nm + ' composition distributes', k3, lambda a, b, c: a_.compose(join(a, b), c), lambda a, b, c: join(a_.compose(a, c), a_.compose(b, c)))
        for op in ('cross_union', 'cross_intersect'):
            eq('%s transpose maps %s' % (nm, op), k2, lambda a, b, op=op: a_.transpose(getattr(a_, op)(a, b)), lambda a, b, op=op: getattr(a_, op)(a_.transpose(a), a_.transpose(b)))
        eq(nm + ' right-functional dual', k2, a_.cross_right_functional_union, lambda a, b: a_.transpose(a_.cross_functional_union(a_.transpose(a), a_.transpose(b))))
        keep = (lambda x, f: s.restrict(x, f)) if a_ is cl else (lambda x, f: L.mo.Multiset({e: n for e, n in x.data.items() if f(e)}))
        eq(nm + ' functional unions are unions', k2, a_.cross_functional_union, lambda a, b: keep(a_.cross_union(a, b), p.is_functional))
        eq(nm + ' right-functional unions are unions', k2, a_.cross_right_functional_union, lambda a, b: keep(a_.cross_union(a, b), p.is_right_functional))
        eq(nm + ' lefts dual', k2[:1], lambda a: a_.get_lefts(a) if not a.is_empty else 0, lambda a: a_.get_rights(a_.transpose(a)) if not a.is_empty else 0)
        for op in ('substrict', 'superstrict'):
            f = getattr(a_, op)
            eq('%s %s is a part' % (nm, op), k2, lambda a, b, f=f: st.is_subset_of(f(a, b), a), lambda a, b: True)
            eq('%s %s with itself' % (nm, op), k2[:1], lambda a, f=f: f(a, a), lambda a: a)
            eq('%s %s again' % (nm, op), k2, lambda a, b, f=f: f(f(a, b), b), f)
        eq(nm + ' strictions commute', k3, lambda a, b, c: a_.superstrict(a_.substrict(a, b), c), lambda a, b, c: a_.substrict(a_.superstrict(a, c), b))
        eq(nm + ' regular dual', k2[:1], lambda a: a_.is_right_functional(a), lambda a: a_.is_functional(a_.transpose(a)))
    _mk2(a_, k2, k3, nm, st, join)

eq('cross union of clan sizes', K2, lambda a, b: mc.cross_union(a, b).cardinality, lambda a, b: a.cardinality * b.cardinality)
eq('left outer join parts', C2, cl.lhs_cross_functional_union, lambda a, b: s.union(cl.cross_functional_union(a, b), s.restrict(
    a, lambda x: cl.cross_functional_union(L.mo.Set([x]), b).is_empty)))
eq('projection of everything', ['clan'], lambda a: cl.project(a, *cl.get_lefts(a)), lambda a: a)
eq('projections combine', ['clan'], lambda a: _proj(cl, _proj(cl, a, 2), 3), lambda a: _proj(cl, a, 6))
eq('multi projections combine', ['mclan'], lambda a: _proj(mc, _proj(mc, a, 2), 3), lambda a: _proj(mc, a, 6))
for op in ('transpose',):
    eq('multiclan maps to clan: ' + op, ['mclan'], lambda a, op=op: ms.demultify(getattr(mc, op)(a)), lambda a, op=op: getattr(cl, op)(ms.demultify(a)))
for op in ('compose', 'cross_union', 'cross_functional_union', 'cross_right_functional_union', 'cross_intersect', 'substrict', 'superstrict'):
    eq('multiclan maps to clan: ' + op, K2, lambda a, b, op=op: ms.demultify(getattr(mc, op)(a, b)), lambda a, b, op=op: getattr(cl, op)(ms.demultify(a), ms.demultify(b)))
    eq('clan maps to multiclan: ' + op, C2, lambda a, b, op=op: getattr(cl, op)(a, b), lambda a, b, op=op: ms.demultify(getattr(mc, op)(s.multify(a), s.multify(b))))
eq('relations are clans of one: compose', R2, lambda a, b: L.mo.Set([r.compose(a, b)], direct_load=True), lambda a, b: cl.compose(L.mo.Set([a], direct_load=True), L.mo.Set([b], direct_load=True)))
eq('extension composes', ['set'], lambda a: ex.unary_extend(ex.unary_extend(a, lambda x: L.mo.Set(x)), lambda y: L.mo.Couplet(y, 1)), lambda a: ex.unary_extend(a, lambda x: L.mo.Couplet(L.mo.Set(x), 1)))
eq('extension swaps', SETS2, lambda a, b: ex.binary_extend(a, b, lambda x, y: L.mo.Couplet(x, y)), lambda a, b: ex.unary_extend(ex.binary_extend(b, a, lambda x, y: L.mo.Couplet(x, y)), c.transpose))
eq('multi extension swaps', M3[:2], lambda a, b: ex.binary_multi_extend(a, b, lambda x, y: L.mo.Couplet(x, y)), lambda a, b: ex.unary_multi_extend(ex.binary_multi_extend(b, a, lambda x, y: L.mo.Couplet(x, y)), c.transpose))


def one_way(b):
    """A part of b that pairs disjoint values one to one."""
    out, seen = [], []
    for x in b.data:
        if x.left != x.right and x.left not in seen and x.right not in seen:
            out.append(x)
            seen += [x.left, x.right]
    return L.mo.Set(out, direct_load=True)


NEED = ['law %s' % l[0] for l in LAWS]


def _proj(alg, a, k):
    """Projection to the lefts whose text hash is not a multiple of a prime factor of k; ragged rows lose nothing else."""
    ls = alg.get_lefts(a)
    ls = [x for x in ls if all(sum(map(ord, str(x))) % q for q in (2, 3) if k % q == 0)]
    return alg.project(a, *ls)


def pick(h, kinds):
    args = []
    for k in kinds:
        if args and h.rng.random() < .35 and k == kinds[0] and k in ('set', 'mset', 'rel', 'clan', 'mclan'):
            args.append(h.related(k, [args[-1], args[0]]))
        else:
            args.append(h.pick('set' if k == 'set_' else k))
    return args


def ok_size(args):
    n, t = 1, 0
    for _, m in args:
        if m[0] in 'SM':
            n *= max(1, len(m[1]))
        t += mm.size(m)
    return n <= (60 if LIMITS['prod'] < 1000 else 2000) and t <= LIMITS['size'] and sum(mm.bulk(m) for _, m in args) <= 20000


def describe(x):
    m = L.to_model(x)
    return mm.show(m) if L.is_val(m) else repr(m)


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    rnd = h.rng
    for _ in range(h.steps(40)):
        if rnd.random() < .35:
            h.age()
            continue
        name, kinds, f, limit = rnd.choice(LAWS)
        for _ in range(5):
            args = pick(h, kinds)
            if ok_size(args) and (limit is None or limit(*[m for _, m in args])):
                break
        else:
            continue
        detail = {'law': name, 'operands': [mm.show(m) for _, m in args], 'trace': h.trace[-30:]}
        for o, m in args:
            if rnd.random() < h.ask:
                h.ask_all(o, m)
        lhs, rhs = f(*[o for o, _ in args])
        try:
            if rnd.random() < .5:
                x = lhs()
                y = rhs()
            else:
                y = rhs()
                x = lhs()
        except Exception as e:
            raise Violation('%s: raised %s' % (name, type(e).__name__), dict(detail, exception=short_tb(e)))
        a, b = L.to_model(x), L.to_model(y)
        good = a is b if (a is U or b is U) else a == b and type(a) is type(b)
        if good and L.is_val(a):
            good = x == y and y == x and not x != y and hash(x) == hash(y)
        if not good:
            raise Violation('law broken: ' + name, dict(detail, left=describe(x), right=describe(y)))
        h.log('law %s: %s' % (name, ', '.join(mm.show(m) for _, m in args)))
        ctx.count('law ' + name)
        ctx.judged((name,) + tuple(m for _, m in args), any(m[0] in 'AC' or m[1] for _, m in args), lambda: '%s: %s' % (name, [mm.show(m) for _, m in args])[:400])
        if L.is_val(a):
            h.add(x, a, name)
        if L.is_val(b) and rnd.random() < .3:
            h.add(y, b, name)
