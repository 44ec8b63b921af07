"""Whole queries: data is imported, queried in several steps and exported; every step is compared with plain rows."""
import collections
import csv
import io
import json
from mon import lib as L
from mon import model as mm
from mon.engine import Violation, short_tb
from mon.limits import LIMITS

import random

import algebraixlib.import_export.csv as ecsv
import algebraixlib.import_export.json as ejson
import algebraixlib.import_export.mojson as mojson
import algebraixlib.import_export.xml as exml

s, r_, cl, ms, mc, ex = L.sets, L.relations, L.clans, L.multisets, L.multiclans, L.extension
NEED = ['step ' + x for x in ('select', 'filter', 'project', 'rename columns', 'rename rows', 'join', 'left join', 'product', 'union', 'intersect', 'minus', 'add', 'extend', 'aggregate', 'nest', 'demultify', 'multify',
                              'slice', 'restrict to known', 'semi join')] + \
       ['from ' + x for x in ('csv', 'csv with duplicates', 'json', 'xml', 'objects', 'mojson')] + ['export', 'lookups', 'empty results', 'missing cells', 'big tables', 'queries of 4 steps or more', 'facts', 'unknown columns']
RULE = ('Random tables are imported from CSV, JSON, XML and MoJSON or built, and queried by plans of up to 9 steps (selection, projection, renaming, joins, set operations, computed columns, grouping and aggregation, slicing) '
        'for clans and multiclans; after every step the result is compared with the same step over plain Python rows, finally exported and read back. Distinct by plan and data; non-trivial: the result has rows.')
COLS = ['id', 'name', 'key', 'qty', 'city', 'a b', 'ü', '0']


class T:
    """A table: Counter of rows (frozensets of (column, value)); multi says whether duplicates count."""

    def __init__(self, rows, multi):
        c = rows if isinstance(rows, collections.Counter) else collections.Counter(rows)
        self.multi = multi
        self.rows = collections.Counter({k: n if multi else 1 for k, n in c.items() if n > 0})

    def cols(self):
        return sorted({c for x in self.rows for c, _ in x})

    def model(self):
        m = {mm.S(mm.C(mm.A(c), mm.A(v)) for c, v in x): n for x, n in self.rows.items()}
        return mm.M(m) if self.multi else mm.S(m)

    def map(self, f):
        out = collections.Counter()
        for x, n in self.rows.items():
            y = f(dict(x))
            if y is not None:
                out[frozenset(y.items())] += n
        return T(out, self.multi)

    def filter(self, f):
        return T(collections.Counter({x: n for x, n in self.rows.items() if f(dict(x))}), self.multi)


def agree(a, b):
    return all(b.get(k, v) == v for k, v in a.items())


def join(t, u, left=False):
    out = collections.Counter()
    for x, n in t.rows.items():
        dx, hit = dict(x), False
        for y, k in u.rows.items():
            if agree(dx, dict(y)):
                hit = True
                out[x | y] += n * k
        if left and not hit:
            out[x] += n
    return T(out, t.multi)


def new_table(r, ctx, multi=None, cols=None):
    n = r.randint(1, 4)
    cols = cols or r.sample(COLS, n)
    typ = {c: r.choice(['int', 'str', 'str']) if c not in ('id', 'qty') else 'int' for c in cols}
    pool = {c: ([r.randint(-3, 9) for _ in range(r.randint(1, 6))] if typ[c] == 'int' else r.sample(['x', 'y', 'z', 'New York', 'a,b', '"q"', 'ß', '12', 'True'], r.randint(1, 5))) for c in cols}
    hole = r.choice([0, 0, 0, .2])
    big = r.random() < .05
    if big:
        ctx.count('big tables')
    rows = []
    for i in range(r.randint(60, 250) if big else r.choice([0, 1, 2, 3, 5, 8, 12])):
        row = {c: (i if c == 'id' and big else r.choice(pool[c])) for c in cols if r.random() >= hole}
        if len(row) < len(cols):
            ctx.count('missing cells')
        if row:
            rows.append(row)
            if r.random() < .2:
                rows.append(dict(r.choice(rows)))
    return cols, typ, rows


def load(r, ctx, multi, cols=None):
    """(library object, T) for a new table."""
    cols, typ, rows = new_table(r, ctx, cols=cols)
    t = T([frozenset(x.items()) for x in rows], multi)
    ints = {c: int for c in cols if typ[c] == 'int'}
    k = r.random()
    if k < .4:
        b = io.StringIO()
        w = csv.DictWriter(b, cols, lineterminator=r.choice(['\n', '\r\n']))
        w.writeheader()
        w.writerows(rows)
        b.seek(0)
        ctx.count('from csv with duplicates' if multi else 'from csv')
        o = ecsv.import_csv(b, types=ints or None, has_dup_rows=multi)
    elif multi:
        cnt = collections.Counter(frozenset(x.items()) for x in rows)
        o = L.mo.Multiset({r_.from_dict(dict(x)): n for x, n in cnt.items()})
        ctx.count('from objects')
    elif k < .5 and rows:
        ctx.count('from json')
        o = ejson.import_json(io.StringIO(json.dumps(rows)))
    elif k < .6 and rows and all(c.isalpha() for c in cols):
        # columns that are elements, so that values can be any text
        ctx.count('from xml')
        esc = lambda v: str(v).replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
        text = '<t>' + ''.join('<row _="0" %s/>' % ' '.join('%s="%s"' % (c, esc(v)) for c, v in x.items()) for x in rows) + '</t>'
        x = exml.import_xml(io.StringIO(text))('t')
        o = x['row']
        one = L.relations.from_dict({'_': '0'})
        o = ex.unary_extend(o, lambda q: s.minus(q, one))
        if ints:
            conv = lambda q: L.mo.Set(L.mo.Couplet(c.left, int(c.right.value)) if c.left.value in ints else c for c in q)
            o = ex.unary_extend(o, conv)
    elif k < .7:
        ctx.count('from mojson')
        o = json.loads(json.dumps(L.mo.Set([r_.from_dict(x) for x in rows]), cls=mojson.ExportJson), cls=mojson.ImportJson)
    else:
        ctx.count('from objects')
        if r.random() < .5:
            o = L.mo.Set()
            for x in rows:
                o = s.union(o, cl.from_dict(x))
        else:
            o = L.mo.Set([r_.from_dict(x) for x in rows])
    return o, t


def val(q, c):
    """The plain value of relation q at column c or None."""
    x = q(c)
    return None if x is L.UNDEF else x.value


class Query:
    def __init__(self, ctx, r):
        self.ctx, self.r = ctx, r
        self.multi = r.random() < .4
        self.plan = []
        self.o, self.t = self.load('load')

    def load(self, what, cols=None):
        o, t = load(self.r, self.ctx, self.multi, cols)
        self.plan.append('%s %s' % (what, mm.show(t.model())[:400]))
        self.same(o, t, what)
        return o, t

    def fail(self, what, o=None, t=None, ex=None):
        d = {'plan': self.plan}
        if t is not None:
            d.update(expected=mm.show(t.model()) if isinstance(t, T) else repr(t), got=describe(o))
        if ex:
            d['exception'] = short_tb(ex)
        raise Violation('query: ' + what, d)

    def same(self, o, t, what):
        got = L.to_model(o)
        exp = t.model()
        if got != exp or got[0] != exp[0]:
            if not exp[1] and got in (mm.E, mm.EM):
                self.fail('the result of %s is of the wrong kind' % what, o, t)
            self.fail('wrong result of ' + what, o, t)

    def alg(self):
        return mc if self.multi else cl

    def st(self):
        return ms if self.multi else s

    def some(self, cols):
        """Some columns, one of them possibly absent from all rows."""
        r = self.r
        cs = r.sample(cols, r.randint(1, len(cols)))
        if r.random() < .25:
            other = r.choice([k for k in COLS + ['other'] if k not in cols])
            cs[r.randrange(len(cs))] = other
            if r.random() < .3:
                cs.append(r.choice([k for k in cols if k not in cs] or [other]))
            self.ctx.count('unknown columns')
        return cs

    def step(self):
        r, ctx, o, t = self.r, self.ctx, self.o, self.t
        cols = t.cols() or ['id']
        c = r.choice(cols)
        values = sorted({v for x in t.rows for k, v in x if k == c}, key=repr) or [0]
        v = r.choice(values) if r.random() < .85 else 'none'
        if r.random() < .04:
            c = 'other'
        n = len(t.rows)
        opts = ['select', 'select', 'filter', 'project', 'rename columns', 'rename rows', 'join', 'join', 'left join', 'product', 'union', 'intersect', 'minus', 'extend', 'aggregate', 'nest', 'slice',
                'restrict to known', 'semi join']
        opts += ['add', 'demultify', 'add', 'slice'] if self.multi else ['multify']
        what = r.choice(opts)
        A = self.alg()
        if what in ('filter',) and self.multi:
            # filtering rows of a multiclan: extension by a partial operation
            f = lambda q: q if val(q, c) == v else L.UNDEF
            text = '%s %s == %r' % (what, c, v)
            do = lambda: ex.unary_multi_extend(o, f)
            t2 = t.filter(lambda x: x.get(c) == v)
        elif what == 'filter':
            text = '%s %s == %r' % (what, c, v)
            do = lambda: s.restrict(o, lambda q: val(q, c) == v)
            t2 = t.filter(lambda x: x.get(c) == v)
        elif what == 'select':
            vs = [v] + r.sample(values, min(len(values), r.randint(0, 2)))
            text = 'select %s in %r' % (c, vs)
            sel = cl.from_set(c, *vs)
            if self.multi:
                sel = s.multify(sel)
            do = lambda: A.superstrict(o, sel)
            t2 = t.filter(lambda x: c in x and x[c] in vs)
        elif what == 'restrict to known':
            text = 'rows with a value in ' + c
            do = lambda: A.defined_at(o, c)
            t2 = t.filter(lambda x: c in x)
            if not t2.rows:
                return None
        elif what == 'project':
            cs = self.some(cols)
            if r.random() < .1:
                cs.append(r.choice(cs))
            text = 'project %r' % cs
            do = lambda: A.project(o, *cs)
            t2 = t.map(lambda x: {k: w for k, w in x.items() if k in cs})
        elif what == 'rename columns':
            cs = self.some(cols)
            ren = {k: (k + "'" if r.random() < .6 else k) for k in cs}
            if len(set(ren.values())) < len(ren):
                return None
            text = 'project and rename %r' % ren
            by = A.from_dict({b: a for a, b in ren.items()})
            do = lambda: A.compose(o, by)
            t2 = t.map(lambda x: {ren[k]: w for k, w in x.items() if k in ren})
        elif what == 'rename rows':
            cs = self.some(cols)
            ren = {k: k + '_' for k in cs if k + '_' not in cols}
            text = 'rename %r' % ren
            by = r_.from_dict({b: a for a, b in ren.items()})
            E = ex.unary_multi_extend if self.multi else ex.unary_extend
            do = lambda: E(o, lambda q: r_.rename(q, by))
            t2 = t.map(lambda x: {ren.get(k, k): w for k, w in x.items()})
        elif what in ('join', 'left join', 'semi join'):
            if what == 'left join' and self.multi:
                return None
            keep = r.sample(cols, r.randint(0, min(2, len(cols))))
            base = [k for k in keep if k in COLS]
            extra = r.sample(COLS, r.randint(0, 2))
            u, tu = self.load('load for join', sorted(set(base + extra)) or ['id'])
            if base and t.rows and r.random() < .8:
                # rows that meet those of the query
                rows = collections.Counter(tu.rows)
                for x in r.sample(sorted(t.rows, key=lambda x: sorted(map(repr, x))), min(5, n)):
                    y = {k: w for k, w in x if k in base}
                    if extra and r.random() < .7:
                        y.setdefault(extra[0], r.choice(['E', 5]))
                    if y:
                        rows[frozenset(y.items())] += 1
                tu = T(rows, self.multi)
                u = L.build(tu.model(), r)
                self.plan.append('joined with %s' % mm.show(tu.model())[:400])
            if n * len(tu.rows) > 6000:
                return None
            text = what
            if what == 'join':
                flip = r.random() < .3
                do = lambda: A.cross_functional_union(*((u, o) if flip else (o, u)))
                t2 = join(t, tu)
            elif what == 'left join':
                do = lambda: cl.lhs_cross_functional_union(o, u)
                t2 = join(t, tu, left=True)
            else:
                # rows that contain a row of the other table
                do = lambda: A.superstrict(o, u)
                t2 = t.filter(lambda x: any(all(x.get(k, x) == w for k, w in y) for y in tu.rows))
        elif what == 'product':
            u, tu = self.load('load for product', r.sample(['P', 'Q'], r.randint(1, 2)))
            if n * len(tu.rows) > 3000:
                return None
            text = what
            do = lambda: A.cross_union(o, u)
            t2 = join(t, tu)
            if any(k in ('P', 'Q') for k in cols):
                return None
        elif what in ('union', 'intersect', 'minus', 'add'):
            u, tu = self.load('load for ' + what, [k for k in cols if k in COLS] or ['id'])
            if r.random() < .6:
                rows = collections.Counter(tu.rows)
                for x in t.rows:
                    if r.random() < .5:
                        rows[x] += r.randint(1, 3) if self.multi else 1
                tu = T(rows, self.multi)
                u = L.build(tu.model(), r)
                self.plan.append('with %s' % mm.show(tu.model())[:400])
            text = what
            do = lambda: getattr(self.st(), what)(o, u)
            a, b = t.rows, tu.rows
            t2 = T({'union': lambda: a | b, 'intersect': lambda: a & b, 'minus': lambda: a - b, 'add': lambda: a + b}[what](), self.multi)
        elif what == 'extend':
            new = r.choice(['n1', 'n2', 'n3'])
            if new in cols:
                return None
            text = 'computed column %s from %s' % (new, c)
            f = lambda w: w * 2 if isinstance(w, int) else (w + '!' if w is not None else 'nothing')
            if r.random() < .5:
                E = ex.unary_multi_extend if self.multi else ex.unary_extend
                do = lambda: E(o, lambda q: r_.functional_add(q, L.mo.Couplet(new, f(val(q, c)))))
            else:
                E = ex.unary_multi_extend if self.multi else ex.unary_extend
                do = lambda: E(o, lambda q: r_.functional_union(q, r_.from_dict({new: f(val(q, c))})))
            t2 = t.map(lambda x: dict(x, **{new: f(x.get(c))}))
        elif what in ('aggregate', 'nest'):
            c2 = r.choice(cols)
            text = '%s by %s of %s' % (what, c, c2)
            groups = {}
            for x, k in t.rows.items():
                groups.setdefault(dict(x).get(c), []).append((dict(x), k))
            if None in groups and r.random() < .7:
                return None

            def total(rows):
                num = lambda w: w if isinstance(w, int) else 1 if w is not None else 0
                return sum(num(x.get(c2)) * k for x, k in rows), sum(k for _, k in rows)

            def lib_rows(part):
                items = part.data.items() if self.multi else [(q, 1) for q in part]
                return [({c2: val(q, c2)} if val(q, c2) is not None else {}, k) for q, k in items]
            if what == 'aggregate':
                def do():
                    parts = L.partition.partition(o, lambda q: val(q, c) if val(q, c) is not None else '(no value)')
                    out = []
                    for part in parts:
                        q = next(iter(part))
                        tot, cnt = total(lib_rows(part))
                        row = {'sum': tot, 'count': cnt}
                        if val(q, c) is not None:
                            row['by'] = val(q, c)
                        out.append(r_.from_dict(row))
                    return L.mo.Multiset({q: 1 for q in out}) if self.multi else L.mo.Set(out)
            else:
                def do():
                    lab = L.partition.make_labeled_partition(o, lambda q: val(q, c) if val(q, c) is not None else '(no value)')
                    out = []
                    for cp in lab:
                        tot, cnt = total(lib_rows(cp.right))
                        row = {'sum': tot, 'count': cnt}
                        if cp.left.value != '(no value)':
                            row['by'] = cp.left.value
                        out.append(r_.from_dict(row))
                    return L.mo.Multiset({q: 1 for q in out}) if self.multi else L.mo.Set(out)
            rows = collections.Counter()
            for k, g in groups.items():
                tot, cnt = total(g)
                row = {'sum': tot, 'count': cnt}
                if k is not None:
                    row['by'] = k
                rows[frozenset(row.items())] = 1
            t2 = T(rows, self.multi)
        elif what == 'multify':
            text = what
            do = lambda: s.multify(o)
            t2 = T(collections.Counter(t.rows), True)
        elif what == 'demultify':
            text = what
            do = lambda: ms.demultify(o)
            t2 = T(collections.Counter(t.rows), False)
        else:       # slice
            if not self.multi:
                return None
            key = lambda x: sorted(map(repr, x))
            order = sorted(t.rows, key=key)
            tot = sum(t.rows.values())
            off, lim = r.randint(0, tot + 1), r.choice([r.randint(0, tot + 1), tot + 5])
            text = 'rows %d to %d' % (off, off + lim)
            lkey = lambda q: sorted(repr((k.left.value, k.right.value)) for k in q)
            do = lambda: mc.order_slice(o, lambda a, b: L.mo.Atom(lkey(a) < lkey(b)), L.mo.Atom(off), L.mo.Atom(lim))
            flat = [x for x in order for _ in range(t.rows[x])][off:off + lim]
            t2 = T(flat, True)
        if not t2.rows and r.random() < .8:
            return None
        if len(t2.rows) > 1500 or sum(t2.rows.values()) > 10 ** 6:
            return None
        self.plan.append(text)
        try:
            o2 = do()
        except Exception as e:
            self.fail('%s raised %s' % (what, type(e).__name__), ex=e)
        self.multi = t2.multi
        self.same(o2, t2, what)
        ctx.count('step ' + what)
        if not t2.rows:
            ctx.count('empty results')
        self.o, self.t = o2, t2
        return what

    def finish(self):
        r, ctx, o, t = self.r, self.ctx, self.o, self.t
        seen = {}
        for bad in L.check_flags(o, t.model(), seen, atoms=False) if len(t.rows) < 40 else ():
            raise Violation('query: a false fact is remembered about the result', dict(plan=self.plan, object=mm.show(bad[0]), fact=bad[1], remembered=bad[2], truth=str(bad[3])))
        ctx.count('facts', sum(seen.values()))
        cols = t.cols()
        # single values and columns
        for x in list(o)[:5]:
            q = {k.left.value: k.right.value for k in x}
            for c in (cols or ['id'])[:3]:
                if val(x, c) != q.get(c):
                    self.fail('wrong value at %r' % c, x, q)
        if cols and t.rows:
            c = r.choice(cols)
            got = L.to_model(o[c])
            if t.multi:
                cnt = collections.Counter()
                for x, n in t.rows.items():
                    if c in dict(x):
                        cnt[mm.A(dict(x)[c])] += n
                exp = mm.M(cnt)
            else:
                exp = mm.S(mm.A(dict(x)[c]) for x in t.rows if c in dict(x))
            if got != exp:
                self.fail('wrong values of column %r: %s instead of %s' % (c, mm.show(got) if L.is_val(got) else got, mm.show(exp)), o, t)
            ctx.count('lookups')
        # out again
        regular = len({frozenset(c for c, _ in x) for x in t.rows}) == 1 and cols
        b = io.StringIO()
        lefts = cols if r.random() < .5 or not regular else None
        if not cols:
            return
        try:
            ok = ecsv.export_csv(o, b, ordered_lefts=lefts)
        except Exception as e:
            self.fail('export raised %s' % type(e).__name__, ex=e)
        if ok is not True:
            self.fail('the result is not exported', o, t)
        rows = list(csv.reader(io.StringIO(b.getvalue(), newline='')))
        exp = collections.Counter()
        for x, n in t.rows.items():
            d = dict(x)
            exp[tuple(str(d[c]) if c in d else '' for c in cols)] += n
        if rows[0] != cols or collections.Counter(map(tuple, rows[1:])) != exp:
            self.fail('wrong exported table: %r' % b.getvalue()[:600], o, t)
        ctx.count('export')


def describe(o):
    try:
        m = L.to_model(o)
        return mm.show(m) if L.is_val(m) else repr(m)
    except Exception as e:
        return repr(e)


def history(ctx, i):
    r = random.Random('D08/%s/%s' % (ctx.seed, i))
    try:
        q = Query(ctx, r)
    except Violation:
        raise
    except Exception as e:
        raise Violation('a table cannot be loaded: %s' % type(e).__name__, {'exception': short_tb(e)})
    done = 0
    for _ in range(r.choice([2, 4, 7, 12, 16])):
        done += q.step() is not None
    if done >= 4:
        ctx.count('queries of 4 steps or more')
    q.finish()
    ctx.judged(tuple(q.plan), bool(q.t.rows), lambda: ' ; '.join(q.plan)[:600])
