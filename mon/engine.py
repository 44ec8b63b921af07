"""Histories of operations over a pool of aged, shared objects, with monitors on every step."""
import os
import random
import traceback
from . import lib as L
from . import model as mm
from . import gen as G
from .limits import LIMITS, SMALL_LIMITS, BIG_LIMITS
from .model import U

PREDS = [(n, getattr(mod, n)) for mod in (L.properties,) for n in
         ('is_functional', 'is_right_functional', 'is_bijective', 'is_reflexive', 'is_symmetric', 'is_transitive',
          'is_equivalence_relation', 'is_regular', 'is_right_regular')]
MEMBERS = [(mod.__name__.rsplit('.', 1)[1] + '.' + n, getattr(mod, n)) for mod in
           (L.sets, L.couplets, L.relations, L.clans, L.multisets, L.multiclans) for n in ('is_member', 'is_absolute_member')]
ALG_PREDS = [(mod.__name__.rsplit('.', 1)[1] + '.' + n, getattr(mod, n)) for mod in (L.relations, L.clans, L.multiclans) for n in
             ('is_functional', 'is_right_functional', 'is_reflexive', 'is_symmetric', 'is_transitive') + (
                 () if mod is L.relations else ('is_regular', 'is_right_regular'))]
MODELS = {'sets': mm.is_s, 'couplets': mm.is_c, 'relations': mm.is_rel, 'clans': mm.is_clan, 'multisets': mm.is_m, 'multiclans': mm.is_mclan}


def member_truth(name, m):
    alg, what = name.split('.')
    if not MODELS[alg](m):
        return False
    if what == 'is_member':
        return True
    if alg == 'sets':
        return not mm.is_rel(m) and not mm.is_clan(m) and mm.is_abs(m)
    if alg == 'multisets':
        return not mm.is_mclan(m) and mm.is_abs(m)
    return mm.is_abs(m)


def pred_truth(name, m):
    """Truth of properties.<name> (True/False/U)."""
    if name == 'is_bijective':
        return _and(m, 'functional', 'right_functional')
    if name == 'is_equivalence_relation':
        return _and(m, 'symmetric', 'transitive', 'reflexive')
    return mm.prop(m, name[3:])


def _and(m, *names):
    for n in names:
        v = mm.prop(m, n)
        if v is U or not v:
            return v
    return True


DEBUG = os.environ.get('VERIF_DEBUG')


HUGE_SHARE = float(os.environ.get('VERIF_HUGE', .06))


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class Entry:
    __slots__ = ('obj', 'model', 'hash', 'repr', 'born')

    def __init__(self, obj, model, born):
        self.obj, self.model, self.born = obj, model, born
        self.hash = None
        self.repr = None


class History:
    def __init__(self, prop, seed, index, counters, prebuilt=6, tiny=None, huge=None):
        self.rng = random.Random('%s/%s/%s' % (prop, seed, index))
        x = self.rng.random()
        self.tiny = x < .4 if tiny is None else tiny
        self.huge = bool(x > 1 - HUGE_SHARE and not self.tiny if huge is None else huge)
        self.gen = G.Gen(self.rng, tiny=self.tiny, huge=self.huge)
        LIMITS.update(BIG_LIMITS if self.huge else SMALL_LIMITS)
        self.new = self.rng.choice([.35, .6, .85]) if self.tiny else .35      # probability of a fresh operand
        self.ask = self.rng.choice([0, .3, .7, 1]) if self.tiny else self.rng.choice([0, 0, .3])    # and of asking it everything first
        self.pool = []
        self.trace = []
        self.cnt = counters
        self.prebuilt = prebuilt
        if self.huge:
            self.count('histories with huge collections')

    def steps(self, n):
        return max(4, n // 4) if self.huge else n

    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def log(self, s):
        self.trace.append(s)
        if len(self.trace) > 400:
            del self.trace[:100]

    def add(self, obj, model, born):
        if mm.size(model) > LIMITS['pool'] or mm.bulk(model) > LIMITS['poolbulk']:
            return
        if len(self.pool) >= 40:
            self.pool[self.rng.randrange(len(self.pool))] = Entry(obj, model, born)
        else:
            self.pool.append(Entry(obj, model, born))

    def fresh(self, m, kind='?'):
        o = L.build(m, self.rng)
        self.log('new %s' % mm.show(m))
        self.add(o, m, 'new')
        return o, m

    def pick(self, kind, fresh=None):
        r = self.rng
        fresh = self.new if fresh is None else fresh
        if r.random() > fresh and self.pool:
            for _ in range(6):
                e = r.choice(self.pool)
                if G.kind_ok(kind, e.model):
                    return e.obj, e.model
            c = [e for e in self.pool if G.kind_ok(kind, e.model)]
            if c:
                e = r.choice(c)
                return e.obj, e.model
        if r.random() < .12 and self.pool:
            # embed existing objects as elements of a new one
            x = self.embed(kind)
            if x is not None:
                return x
        return self.fresh(self.gen.of(kind), kind)

    def embed(self, kind):
        r = self.rng
        es = [r.choice(self.pool) for _ in range(r.randint(1, 3))]
        if kind in ('clan', 'mclan'):
            es = [e for e in self.pool if mm.is_rel(e.model)]
            es = r.sample(es, min(len(es), r.randint(1, 3)))
        elif kind == 'sos':
            es = [e for e in es if mm.is_s(e.model)]
        elif kind == 'som':
            es = [e for e in es if mm.is_m(e.model)]
        elif kind in ('rel', 'func'):
            es = [e for e in es if mm.is_c(e.model)]
        elif kind not in ('set', 'mset', 'cpl'):
            return None
        if not es or sum(mm.size(e.model) for e in es) > LIMITS['embed']:
            return None
        if kind == 'cpl':
            a, b = es[0], es[-1]
            o, m = L.mo.Couplet(a.obj, b.obj), mm.C(a.model, b.model)
        elif kind in ('mset', 'mclan'):
            cnt = {}
            mcnt = {}
            for e in es:
                n = self.gen.mult()
                if e.model in mcnt:
                    continue
                cnt[e.obj] = n
                mcnt[e.model] = n
            o, m = L.mo.Multiset(cnt), mm.M(mcnt)
        else:
            o, m = L.mo.Set([e.obj for e in es], direct_load=True), mm.S(e.model for e in es)
        if not G.kind_ok(kind, m):
            return None
        self.log('embed %s' % mm.show(m))
        self.add(o, m, 'embed')
        return o, m

    def pick_left(self, m):
        """A left occurring in m, mostly."""
        return self._pick_side(m, mm.left_set)

    def pick_right(self, m):
        return self._pick_side(m, mm.right_set)

    def _pick_side(self, m, f):
        ls = f(m) if m[0] in 'SM' else U
        if self.rng.random() < .75 and ls is not U and ls[0] == 'S' and ls[1]:
            x = self.rng.choice(sorted(ls[1], key=mm.show))
            return L.build(x, self.rng), x
        if self.rng.random() < .2:
            return self.pick('left')
        x = self.gen.comp(f is mm.left_set)
        return L.build(x, self.rng), x

    def maybe_raw(self, o, m, p=.3):
        if m[0] == 'A' and m[2] is not None and self.rng.random() < p:
            return m[2]
        return o

    def age(self):
        """Ask an object something, so that it remembers facts (answers are judged by B02/B03/C04, not here)."""
        if not self.pool:
            return
        r = self.rng
        e = r.choice(self.pool)
        k = r.random()
        try:
            if k < .3:
                n, f = r.choice(MEMBERS)
                f(e.obj)
            elif k < .65:
                n, f = r.choice(PREDS)
                f(e.obj)
            elif k < .8:
                n, f = r.choice(ALG_PREDS)
                f(e.obj)
            elif k < .85:
                n = 'get_left_set'
                e.obj.get_left_set()
            elif k < .9:
                n = 'getitem'
                e.obj[self.pick_left(e.model)[0]]
            elif k < .93:
                n = 'call'
                e.obj(self.pick_left(e.model)[0])
            elif k < .97:
                n = 'hash'
                hash(e.obj)
            else:
                n = 'ground set'
                e.obj.get_ground_set()
        except Exception as ex:     # judged elsewhere
            n += ' -> %s' % type(ex).__name__
            self.count('aging exceptions')
            if DEBUG:
                print(n, mm.show(e.model), short_tb(ex), flush=True)
        self.log('ask %s of %s' % (n, mm.show(e.model)))

    def ask_all(self, o, m):
        """Ask (almost) everything that can be asked, of the object and sometimes of its elements."""
        r = self.rng
        qs = PREDS + MEMBERS if r.random() < .5 else PREDS
        qs = r.sample(qs, r.choice([len(qs), len(qs), len(qs) // 2]))
        for n, f in qs:
            try:
                f(o)
            except Exception as ex:
                self.count('aging exceptions')
                if DEBUG:
                    print(n, mm.show(m), short_tb(ex), flush=True)
        self.log('ask %s of %s' % (', '.join(n for n, _ in qs), mm.show(m)))
        if m[0] in 'SM' and len(m[1]) < 12 and r.random() < .2:
            for e in o.data:
                for n, f in r.sample(PREDS, 3):
                    try:
                        f(e)
                    except Exception:
                        self.count('aging exceptions')
        self.count('operands asked everything')

    def draw_args(self, op):
        args = self._draw_args(op)
        if args is not None:
            for o, m in args:
                if isinstance(o, L.mo.MathObject) and L.is_val(m) and m[0] in 'SMC' and self.rng.random() < self.ask:
                    self.ask_all(o, m)
        return args

    def _draw_args(self, op):
        """[(lib, model)] for op or None if too large."""
        if not op.args and tuple(op.kinds) in BULK and self.rng.random() < .02:
            self.count('bulk operands')
            return [self.fresh(m) for m in self.bulk_pair(op.kinds[0])][:len(op.kinds)]
        for _ in range(5):
            if op.args:
                args = op.args(self)
            else:
                args = [self.pick(k) for k in op.kinds]
                if len(args) == 2 and op.kinds[0] == op.kinds[1] and self.rng.random() < .35:
                    args[1] = self.related(op.kinds[1], args)
            ms = [m for _, m in args]
            if (op.limit or small_default)(*ms):
                return args
        return None

    def bulk_pair(self, kind):
        """Two larger objects that have something to do with each other."""
        r = self.rng
        n = r.choice([13, 25, 50, 100])
        at = lambda j: mm.A(j) if j % 2 else mm.A('v%d' % j)
        if kind in ('set', 'mset', 'rel'):
            z = r.choice([n, 7, 3])
            es = [mm.C(at(j), at(100 + j % z)) for j in range(n)]
            if kind == 'rel' and r.random() < .3:
                es += [mm.C(at(r.randrange(n)), at(200)) for _ in range(2)]
            elif kind != 'rel' and r.random() < .7:
                es = [at(j) for j in range(n)] if r.random() < .5 else [mm.S([at(j), at(j + 1)]) for j in range(n)]
            k = r.random()
            other = list(es)
            if k < .5:
                other = other[r.choice([0, 1, 1, n // 2]):]
            if k > .3:
                other += [mm.C(at(300 + j), at(j)) for j in range(r.choice([1, 1, n // 2]))]
            if kind == 'rel':
                q = r.random()
                if q < .3:
                    other = [mm.C(c[2], c[1]) for c in other]
                elif q < .6:
                    other = list(mm.r_compose(mm.S(mm.C(c[2], at(j)) for j, c in enumerate(es)), mm.S(es))[1]) if n <= 25 and r.random() < .3 else [mm.C(c[2], at(400 + i)) for i, c in enumerate(other)]
                elif q < .8:
                    other = [mm.C(mm.A('new%d' % j), c[1]) for j, c in enumerate(other)]
            if kind == 'mset':
                mult = lambda: r.choice([1, 1, 2, 3, 11])
                a = {e: mult() for e in es}
                return mm.M(a), mm.M({e: r.choice([a.get(e, 1), mult()]) for e in other})
            return mm.S(es), mm.S(other)
        n = min(n, 50)
        cols = [mm.A(c) for c in ('a', 'b', 3)]
        rels = [mm.S([mm.C(cols[0], at(j))] + [mm.C(c, at(j * 7 % (k + 2))) for k, c in enumerate(cols[1:])]) for j in range(n)]
        k = r.random()
        pick = r.sample(rels, min(r.choice([1, 2, 4]), n))
        if k < .25:
            other = [mm.S(c for c in x[1] if c[1] in r.sample(cols, 2)) for x in pick]
        elif k < .5:
            other = [mm.S([mm.C(cols[1], at(j)), mm.C(mm.A('d'), at(j + 9))]) for j in range(2)]
        elif k < .6:
            other = rels[r.choice([0, 1, 3]):][:60]
            rels = pick
        elif k < .75:
            other = [mm.S([mm.C(mm.A('x%d' % j), c) for j, c in enumerate(r.sample(cols, 2))])] + pick[:1]
        elif k < .9:
            other = [mm.S([mm.C(cols[1], at(j))]) for j in range(3)]
        else:
            other = [mm.S(pick[0][1] | {mm.C(mm.A('more'), at(j))}) for j in range(3)]
        if r.random() < .3:
            rels, other = other, rels
        if kind == 'mclan':
            mult = lambda: r.choice([1, 1, 2, 3, 11])
            return mm.M({e: mult() for e in rels}), mm.M({e: mult() for e in other})
        return mm.S(rels), mm.S(other)

    def related(self, kind, args):
        """A second operand close to the first one: subset, superset, overlapping, or the same object."""
        r = self.rng
        o, m = args[0]
        k = r.random()
        if kind in ('clan', 'mclan', 'set', 'sos', 'mset') and r.random() < .3:
            x = self.near_elements(m)
            if x is not None and G.kind_ok(kind, x):
                return self.fresh(x)
        if m[0] == 'S' and k < .8:
            es = sorted(m[1], key=mm.show)
            keep = [e for e in es if r.random() < .6]
            if k < .35:
                x = mm.S(keep)
            elif k < .6:
                x = mm.S(es + [e for e in args[1][1][1]][:2])
            else:
                x = mm.S(keep + [e for e in args[1][1][1]][:2])
        elif m[0] == 'M' and k < .8:
            x = {}
            for e, n in sorted(m[1], key=lambda t: mm.show(t[0])):
                q = r.random()
                if q < .4:
                    x[e] = n
                elif q < .6:
                    x[e] = r.randint(1, n)
                elif q < .8:
                    x[e] = n + r.randint(0, 3)
            if k < .3 and args[1][1][0] == 'M':
                x.update(dict(args[1][1][1]))
            x = mm.M(x)
        elif k < .9:
            return args[0]
        else:
            return args[1]
        if not G.kind_ok(kind, x):
            return args[1]
        return self.fresh(x)

    def near_elements(self, m):
        """A collection whose member sets are subsets or supersets of those of m."""
        r = self.rng
        es = [e for e in sorted(mm.elems(m), key=mm.show)][:8]
        if not any(e[0] == 'S' for e in es):
            return None
        out = []
        for e in es:
            if e[0] != 'S' or r.random() < .3:
                out.append(e)
                continue
            sub = sorted(e[1], key=mm.show)
            if r.random() < .6:
                sub = [x for x in sub if r.random() < .6]
            if r.random() < .5:
                sub.append(self.gen.couplet() if all(x[0] == 'C' for x in e[1]) else self.gen.atom())
            out.append(mm.S(sub))
        return mm.S(out) if m[0] == 'S' else mm.M({e: self.gen.mult() for e in out})

    def call(self, op, args, **kw):
        try:
            return op.fn(*[a for a, _ in args], **kw)
        except Exception as ex:
            self.log('%s(%s) raised %r' % (op.name, ', '.join(mm.show(m) for _, m in args), ex))
            raise

    def text(self, op, args):
        return '%s(%s)' % (op.name, ', '.join(mm.show(m) for _, m in args))


BULK = {(k, k) for k in ('rel', 'clan', 'mset', 'mclan')} | {(k,) for k in ('rel', 'clan', 'mset', 'mclan')} | {('set', 'set')}


def small_default(*ms):
    return sum(mm.size(m) for m in ms if L.is_val(m)) <= LIMITS['size'] and sum(mm.bulk(m) for m in ms if L.is_val(m)) <= 20000


def short_tb(ex):
    return ''.join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-4:])
