"""RDF graphs import, match and join like a triple store."""
import datetime
import decimal
import io
import os
import tempfile
from mon import lib as L
from mon import model as mm
from mon.engine import History, Violation, short_tb

import rdflib
from algebraixlib.import_export.rdf import import_graph
from algebraixlib.util import rdf

NEED = ['imports from paths', 'make_triple', 'imports from buffers', 'imports from unknown extensions', 'imports without a format', 'blank nodes', 'language tags', 'native literals', 'duplicate triples', 'empty graphs', 'triple_match', 'match_and_project',
        'pattern_match', 'joins of 2', 'joins of 3', 'joins without solutions', 'empty matches', 'no variables', 'matches of the empty string', 'values equal in Python', 'non-absolute graphs', 'triples', 'graphs', 'no triple', 'no graph', 'chained queries',
        'compose with other patterns']
RULE = ('Random triples written in N-Triples and Turtle by our own writer and imported from buffers and paths; random sequences of triple_match, match_and_project, pattern_match and join over imported and '
        'built graphs (aged, shared between queries) compared with a direct evaluation over the triples; is_triple/is_graph over triples, graphs and near misses. Distinct by inputs.')
X = 'http://www.w3.org/2001/XMLSchema#'
IRIS = ['http://e.org/a', 'http://e.org/b', 'http://e.org/b#c', 'urn:x', 'http://e.org/ü', 'a:a', 'a:b', 'http://e.org/1']
STR = ['', 'a', 'b', 'x y', 'say "hi"', 'two\nlines', 'back\\slash', 'tab\t', '?x', '$x', 'ü', '日', '\U0001F600', '1', 'true', "it's", 'http://e.org/a']


def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\r', '\\r').replace('\t', '\\t') + '"'


def iri(s):
    return mm.A(rdflib.URIRef(s))


class Graph:
    """Triples as [(text, model)] * 3; text is N-Triples."""

    def __init__(self, ctx, r, size=None):
        self.ctx, self.r = ctx, r
        self.iris = r.sample(IRIS, r.randint(1, 5))
        self.bn = ['b%d' % j for j in range(r.choice([0, 0, 1, 3]))]
        n = size if size is not None else r.choice([0, 1, 2, 4, 8, 15])
        self.triples = []
        for b in self.bn if n else []:
            # every blank node has a name
            self.triples.append((self.b(b), self.i('urn:id'), (q('name of ' + b), mm.A('name of ' + b))))
            ctx.count('blank nodes')
        for _ in range(n):
            self.triples.append((self.node(), self.i(r.choice(self.iris)), self.obj()))
        for t in [r.choice(self.triples) for _ in range(r.choice([0, 0, 1, 2])) if self.triples]:
            self.triples.insert(r.randint(0, len(self.triples)), t)
            ctx.count('duplicate triples')
        if not self.triples:
            ctx.count('empty graphs')

    def i(self, s):
        return '<%s>' % s, iri(s)

    def b(self, b):
        return '_:' + b, ('B', b)

    def node(self):
        if self.bn and self.r.random() < .3:
            return self.b(self.r.choice(self.bn))
        return self.i(self.r.choice(self.iris))

    def obj(self):
        r = self.r
        k = r.random()
        if k < .35:
            return self.node()
        if k < .6:
            s = r.choice(STR)
            return q(s), mm.A(s)
        if k < .68:
            s = r.choice(STR)
            self.ctx.count('language tags')
            return q(s) + r.choice(['@en', '@de', '@en-US']), mm.A(s)
        self.ctx.count('native literals')
        t, v = r.choice([('integer', 1), ('integer', -7), ('integer', 10 ** 25), ('double', 1.0), ('double', 1.5e20), ('decimal', decimal.Decimal('1.0')), ('decimal', decimal.Decimal('-2.5')),
                         ('boolean', True), ('boolean', False), ('string', 'a'), ('string', ''), ('date', datetime.date(2020, 2, 29)), ('int', 1), ('float', .5)])
        txt = v if type(v) is str else {True: 'true', False: 'false'}[v] if type(v) is bool else '%r' % v if type(v) is float else str(v)
        return '%s^^<%s%s>' % (q(txt), X, t), mm.A(v)

    def nt(self):
        return ''.join('%s %s %s%s.%s' % (s, p, o, self.r.choice([' ', '']) if not o.startswith('_') else ' ', self.r.choice(['\n', '\n\n', ' # c\n'])) for (s, _), (p, _), (o, _) in self.triples)

    def turtle(self):
        r = self.r
        out = ''
        pre = r.random() < .5
        if pre:
            out = '@prefix e: <http://e.org/> .\n@prefix xsd: <%s> .\n' % X
        last = (None, None)
        open_ = False

        def short(t, m):
            if pre and t == '<http://e.org/a>':
                return 'e:a'
            if pre and t == '<http://e.org/b>':
                return 'e:b'
            if m == mm.A(1) and t.endswith('integer>'):
                return '1'
            if m == mm.A(True):
                return 'true'
            if pre and t.endswith('>') and '^^<' + X in t:
                return t.replace('^^<' + X, '^^xsd:')[:-1]
            return t
        for s, p, o in self.triples:
            a, b, c = short(*s), short(*p), short(*o)
            if open_ and s == last[0] and p == last[1]:
                out += ' , ' + c
            elif open_ and s == last[0]:
                out += ' ;\n  ' + b + ' ' + c
            else:
                if open_:
                    out += ' .\n'
                out += a + ' ' + b + ' ' + c
            last = (s, p)
            open_ = True
        return out + (' .\n' if open_ else '')

    def expected(self):
        return {tuple(m for _, m in t) for t in self.triples}


def triple(s, p, o):
    return mm.S([mm.C(mm.A('s'), s), mm.C(mm.A('p'), p), mm.C(mm.A('o'), o)])


def do_import(ctx, r, g, tmp):
    way = r.choice(['buffer', 'buffer', 'bytes', 'path', 'path'])
    fmt = r.choice(['nt', 'turtle', 'turtle', 'n3'])
    text = g.nt() if fmt == 'nt' else g.turtle()
    d = {'text': text, 'format': fmt, 'source': way}
    kw = {'rdf_format': fmt}
    if way == 'path':
        p = os.path.join(tmp, 'g.' + {'nt': 'nt', 'turtle': 'ttl', 'n3': 'n3'}[fmt])
        if fmt == 'turtle' and r.random() < .3:
            # an extension that says nothing
            p = os.path.join(tmp, r.choice(['graph', 'g.dat', 'g.v2', '.g', 'g.']))
            ctx.count('imports from unknown extensions')
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        src = p
        if r.random() < .5:
            kw = {}
        ctx.count('imports from paths')
    else:
        src = io.StringIO(text) if way == 'buffer' else io.BytesIO(text.encode('utf-8'))
        if fmt == 'turtle' and r.random() < .5:
            kw = {}
        ctx.count('imports from buffers')
    if not kw:
        ctx.count('imports without a format')
    try:
        res = import_graph(src, **kw)
    except Exception as ex:
        raise Violation('import_graph raised %s' % type(ex).__name__, dict(d, exception=short_tb(ex)))
    got = L.to_model(res)
    # name the blank nodes
    names = {}
    if got[0] == 'S':
        for rel in got[1]:
            m = dict((c[1], c[2]) for c in rel[1])
            if m.get(mm.A('p')) == iri('urn:id'):
                names[m[mm.A('s')]] = ('B', m[mm.A('o')][2].rsplit(' ', 1)[1])
    for x in names:
        if x[1] is not rdflib.URIRef:
            raise Violation('import_graph: a blank node is no IRI', dict(d, got=repr(x)))
    back = mm.S(mm.S(mm.C(c[1], names.get(c[2], c[2])) for c in rel[1]) for rel in got[1])
    exp = mm.S(triple(*t) for t in g.expected())
    if back != exp or len(set(names.values())) != len(names):
        raise Violation('import_graph: wrong result', dict(d, got=mm.show(got)))
    flags = list(L.check_flags(res, got))
    if flags:
        raise Violation('import_graph: the result remembers something false', dict(d, flag=repr(flags[0][1:])))
    if got[1] and (not rdf.is_absolute_graph(res) or not rdf.is_graph(res)):
        raise Violation('import_graph: the result is not an absolute graph', d)
    ctx.judged(text, bool(got[1]), lambda: 'import_graph(%r) has %d triples' % (text[:200], len(got[1])))
    return res, got


def random_graph(ctx, h):
    """A graph built by hand, its rights any values."""
    r = h.rng
    absolute = r.random() < .6
    vals = [mm.A(v) for v in r.sample([1, 1.0, True, 0, False, '', 'a', 'b', '?x', '$', None, 2.5, (1, 2), rdflib.URIRef('a:a')], r.randint(1, 6))]
    if len({v[2] for v in vals}) < len(vals):
        ctx.count('values equal in Python')
    if not absolute:
        vals += [v for v in (h.gen.of(r.choice(['set', 'cpl', 'mset', 'rel'])) for _ in range(2)) if mm.size(v) < 40]
        ctx.count('non-absolute graphs')
    m = mm.S(triple(*(r.choice(vals) for _ in range(3))) for _ in range(r.choice([1, 2, 4, 10, 25, 25] if not h.huge else [60, 120, 200])))
    return L.build(m, r), m


def value_of(rel, left):
    for c in rel[1]:
        if c[1] == mm.A(left):
            return c[2]


def query(ctx, h, res, m, depth=0):
    """triple_match; returns (solution, model)."""
    r = h.rng
    rels = sorted(m[1], key=mm.show)
    base = r.choice(rels)
    free = ['?x', '?y', '$z', '?', '?a b', '$x']
    r.shuffle(free)
    kw, want, out = {}, {}, {}
    for left, name in (('s', 'subject'), ('p', 'predicate'), ('o', 'object_')):
        k = r.random()
        if k < .4:
            v = free.pop()
            out[left] = v
            kw[name] = v
        elif k < .75:
            v = value_of(base if r.random() < .75 else r.choice(rels), left) if r.random() < .9 else mm.A(r.choice(['zz', 99]))
            want[left] = v
            raw = v[0] == 'A' and v[2] is not None and not (isinstance(v[2], str) and v[2][:1] in ('?', '$')) and r.random() < .6
            kw[name] = v[2] if raw else L.build(v, r)
            if raw and v[2] == '':
                ctx.count('matches of the empty string')
        elif r.random() < .3:
            kw[name] = None
    if not out:
        ctx.count('no variables')
    hits = [t for t in rels if all(value_of(t, k) == v for k, v in want.items())]
    exp = mm.S(mm.S(mm.C(mm.A(v), value_of(t, k)) for k, v in out.items()) for t in hits)
    if not hits:
        ctx.count('empty matches')
    ctx.count('triple_match')
    d = {'graph': mm.show(m)[:3000], 'arguments': repr(kw), 'expected': mm.show(exp)[:2000]}
    try:
        if set(kw) == {'subject', 'predicate', 'object_'} and r.random() < .5:
            sol = rdf.triple_match(res, kw['subject'], kw['predicate'], kw['object_'])
        else:
            sol = rdf.triple_match(res, **kw)
    except Exception as ex:
        raise Violation('triple_match raised %s' % type(ex).__name__, dict(d, exception=short_tb(ex)))
    judge(ctx, 'triple_match', sol, exp, d, (m, repr(kw)))
    return sol, exp


def judge(ctx, what, res, exp, d, key):
    try:
        got = L.to_model(res)
        flags = list(L.check_flags(res, got))
    except Exception as ex:
        raise Violation('%s: using the result raised %s' % (what, type(ex).__name__), dict(d, exception=short_tb(ex)))
    if got != exp:
        raise Violation('%s: wrong result' % what, dict(d, got=mm.show(got)[:2000] if L.is_val(got) else repr(got)))
    if flags:
        raise Violation('%s: the result remembers something false' % what, dict(d, flag=repr(flags[0][1:])))
    ctx.judged((what, key), bool(exp[1]), lambda: '%s -> %s' % (what, mm.show(exp)[:300]))


def join(ctx, h, sols):
    r = h.rng
    k = r.choice([2, 2, 3, 4])
    pick = [r.choice(sols) for _ in range(k)]
    total = 1
    for _, m in pick:
        total *= max(1, len(m[1]))
    if total > 3000:
        pick = pick[:2]
    if len(pick[0][1][1]) * len(pick[1][1][1]) > 6000:
        return None
    acc = {frozenset(x[1]) for x in pick[0][1][1]}
    for _, m in pick[1:]:
        new = set()
        for a in acc:
            da = {c[1]: c[2] for c in a}
            for b in m[1]:
                if all(da.get(c[1], c[2]) == c[2] for c in b[1]):
                    new.add(a | b[1])
        acc = new
    exp = mm.S(mm.S(a) for a in acc)
    ctx.count('joins of %d' % len(pick))
    if not acc:
        ctx.count('joins without solutions')
    d = {'solutions': [mm.show(m)[:1500] for _, m in pick], 'expected': mm.show(exp)[:2000]}
    try:
        res = rdf.join(*[o for o, _ in pick])
    except Exception as ex:
        raise Violation('join raised %s' % type(ex).__name__, dict(d, exception=short_tb(ex)))
    judge(ctx, 'join', res, exp, d, tuple(m for _, m in pick))
    return res, exp


def patterns(ctx, h, res, m):
    """pattern_match and match_and_project over a graph or a table (a clan of relations that need not be triples)."""
    r = h.rng
    if m[0] != 'S':
        return
    rels = sorted(m[1], key=mm.show)
    base = sorted(r.choice(rels)[1], key=mm.show) if rels else []
    take = [c for c in base if r.random() < .4]
    pat = {}
    for c in take:
        if c[1][0] == 'A' and c[1][2] is not None and c[2] != mm.A(None):
            pat[c[1]] = c[2]
    if r.random() < .1:
        pat[mm.A('zz')] = mm.A(1)
    keys = {}
    for k, v in pat.items():
        keys[k[2] if r.random() < .5 and k[2] not in keys else L.build(k, r)] = v[2] if v[0] == 'A' and r.random() < .5 else L.build(v, r)
    if len(keys) < len(pat):
        return
    need = {mm.C(k, v) for k, v in pat.items()}
    hits = [x for x in rels if need <= x[1]]
    exp = mm.S(hits)
    d = {'graph': mm.show(m)[:3000], 'pattern': repr(keys), 'expected': mm.show(exp)[:2000]}
    ctx.count('pattern_match')
    try:
        got = rdf.pattern_match(res, keys)
    except Exception as ex:
        raise Violation('pattern_match raised %s' % type(ex).__name__, dict(d, exception=short_tb(ex)))
    judge(ctx, 'pattern_match', got, exp, d, (m, repr(keys)))
    lefts = sorted({c[1] for x in rels for c in x[1] if c[1][0] == 'A' and c[1][2] is not None and type(c[1][2]) in (str, int)}, key=mm.show)
    names = ['n1', 'n2', 'n3', 's', '?x', 7]
    r.shuffle(names)
    proj = {}
    for left, n in zip(r.sample(lefts, min(len(lefts), r.choice([0, 1, 1, 2, 3]))), names):
        if left[2] in proj:
            return
        proj[left[2]] = n
    if len({type(k) for k in proj}) > 1 and len({hash(k) for k in proj}) < len(proj):
        return
    if hits and any(not mm.prop(x, 'functional') for x in hits):
        ctx.count('compose with other patterns')
    exp2 = mm.S(mm.S(mm.C(mm.A(n), c[2]) for c in x[1] for k, n in proj.items() if c[1] == mm.A(k)) for x in hits)
    d['projection'] = repr(proj)
    d['expected'] = mm.show(exp2)[:2000]
    ctx.count('match_and_project')
    try:
        got2 = rdf.match_and_project(res, keys, proj)
    except Exception as ex:
        raise Violation('match_and_project raised %s' % type(ex).__name__, dict(d, exception=short_tb(ex)))
    judge(ctx, 'match_and_project', got2, exp2, d, (m, repr(keys), repr(proj)))
    if not keys:
        judge(ctx, 'match_and_project without a pattern', rdf.match_and_project(res, projection=proj), exp2, d, (m, repr(proj)))


SPO = frozenset(map(mm.A, 'spo'))


def truth_triple(m):
    return mm.is_rel(m) and m[0] == 'S' and len(m[1]) == 3 and frozenset(c[1] for c in m[1]) == SPO


def truth_graph(m):
    return m[0] == 'S' and bool(m[1]) and all(truth_triple(x) for x in m[1])


def members(ctx, h, pool):
    r = h.rng
    for _ in range(4):
        k = r.random()
        if k < .3:
            m = h.gen.of(r.choice(['rel', 'clan', 'mo', 'mclan', 'set']))
        elif k < .7 and pool:
            m = r.choice(pool)[1]
            if r.random() < .6 and m[1]:
                m = r.choice(sorted(m[1], key=mm.show))
        else:
            m = triple(*(h.gen.of(r.choice(['atom', 'atom', 'set'])) for _ in range(3)))
        if r.random() < .5:
            # a near miss
            def twist(t):
                if t[0] != 'S':
                    return t
                cs = sorted(t[1], key=mm.show)
                q = r.random()
                if q < .25 and cs:
                    cs.pop(r.randrange(len(cs)))
                elif q < .5:
                    cs.append(mm.C(mm.A(r.choice(['s', 'q', 's', 'o'])), mm.A(r.choice([1, 5]))))
                elif q < .8 and cs and all(c[0] == 'C' for c in cs):
                    j = r.randrange(len(cs))
                    cs[j] = mm.C(mm.A(r.choice(['s', 'p', 'o', 'S', b's', 1])), cs[j][2])
                else:
                    cs.append(mm.A(1))
                return mm.S(cs)
            if mm.is_rel(m) and m[0] == 'S':
                m = twist(m)
            elif m[0] == 'S' and m[1]:
                es = sorted(m[1], key=mm.show)
                j = r.randrange(len(es))
                if r.random() < .7:
                    es[j] = twist(es[j])
                else:
                    es.append(r.choice([mm.S([]), mm.A(1), mm.S([mm.C(mm.A('s'), mm.A(1))])]))
                m = mm.S(es)
        o = L.build(m, r)
        if r.random() < .4:
            h.add(o, m, 'new')
            for _ in range(4):
                h.age()
        if r.random() < .2:
            parts = [h.pick('mo' if r.random() < .3 else 'atom') for _ in range(3)]
            m = mm.S(mm.C(mm.A(k), x) for k, (_, x) in zip('spo', parts))
            o = rdf.make_triple(*[x[2] if x[0] == 'A' and x[2] is not None and r.random() < .5 else y for y, x in parts])
            if L.to_model(o) != m:
                raise Violation('make_triple: wrong triple', {'got': mm.show(L.to_model(o)), 'expected': mm.show(m)})
            ctx.count('make_triple')
        t, g = truth_triple(m), truth_graph(m)
        absolute = mm.is_abs(m)
        ctx.count('triples' if t else 'no triple')
        ctx.count('graphs' if g else 'no graph')
        for f, exp in ((rdf.is_triple, t), (rdf.is_graph, g), (rdf.is_absolute_triple, t and absolute is True), (rdf.is_absolute_graph, g and absolute is True)):
            try:
                got = f(o)
            except Exception as ex:
                raise Violation('%s raised %s' % (f.__name__, type(ex).__name__), {'object': mm.show(m), 'exception': short_tb(ex)})
            if bool(got) is not exp or type(got) is not bool:
                raise Violation('%s: wrong answer' % f.__name__, {'object': mm.show(m), 'got': repr(got), 'expected': exp})
            ctx.judged((f.__name__, m), True, lambda: '%s(%s) is %s' % (f.__name__, mm.show(m)[:200], exp))


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    pool = []
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(3):
            g = Graph(ctx, r, r.choice([60, 200]) if r.random() < .03 else None)
            x = do_import(ctx, r, g, tmp)
            if x[1][1]:
                pool.append(x)
    for _ in range(2):
        pool.append(random_graph(ctx, h))
    for _ in range(4):
        sols = []
        src = r.choice(pool)
        h.add(src[0], src[1], 'graph')
        for _ in range(r.randint(1, 5)):
            sols.append(query(ctx, h, *(src if r.random() < .7 else r.choice(pool))))
            h.age()
        for _ in range(r.randint(1, 3)):
            x = join(ctx, h, sols)
            if x and len(x[1][1]) < 200:
                sols.append(x)
        patterns(ctx, h, *r.choice(pool))
        patterns(ctx, h, *r.choice(sols))
        if any(s[1][1] for s in sols):
            ctx.count('chained queries')
        c = h.pick('clan')
        patterns(ctx, h, *c)
    members(ctx, h, pool)
