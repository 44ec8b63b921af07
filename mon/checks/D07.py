"""export_table writes a parseable, complete table."""
import datetime
import decimal
import io
import json
import os
import tempfile
from mon import csvtext as T
from mon import lib as L
from mon import model as mm
from mon.engine import History, Violation, short_tb

import rdflib
from algebraixlib.import_export.rdf import export_table

NEED = ['CSV', 'JSON', 'paths', 'file objects', 'empty tables', 'missing values', 'first value missing', 'rows without values', 'several values', 'unknown lefts', 'some lefts only', 'URIs', 'blank nodes', 'literals',
        'literals with a datatype', 'quotes', 'line breaks', 'non-ASCII text', 'irregular tables', 'big tables', 'aged tables', 'empty strings', 'booleans', 'lefts of different types', 'rejected calls']
RULE = ('Random absolute clans (irregular, non-functional, hostile texts, RDF terms and native values) exported as CSV and JSON with all, some and unknown lefts to buffers, write-only objects and paths; '
        'the text is parsed by our own CSV parser and the json module and compared with the table. Non-trivial: at least one row; distinct by table, lefts and format.')
X = 'http://www.w3.org/2001/XMLSchema#'
NAMES = ['?cnt', '?b', 'a', 'b', 'name', 'x y', 'q"q', 'ü', '_:b0', '$z', 'back\\slash', 'two\nlines', '日', 's', 'p', 'o', '0']


def values(r):
    return [r.choice([rdflib.URIRef('id:james'), rdflib.URIRef('http://e.org/ü#"q'), rdflib.BNode('b1'), rdflib.BNode('b2'), 1, 2, -7, 10 ** 25, 1.5, 1e300, True, False, 'true', '1',
                      decimal.Decimal('2.50'), datetime.date(2020, 2, 29), datetime.datetime(2020, 1, 2, 3, 4, 5), '', '\x01', '\x7f', 'a\\"b'] + T.TEXTS) for _ in range(r.choice([2, 4, 9]))]


def lexical(v):
    """(type, datatype, text) of the SPARQL JSON form."""
    if isinstance(v, rdflib.URIRef):
        return 'uri', None, str(v)
    if isinstance(v, rdflib.BNode):
        return 'bnode', None, str(v)
    if type(v) is bool:
        return 'literal', X + 'boolean', 'true' if v else 'false'
    if type(v) is int:
        return 'literal', X + 'integer', str(v)
    if type(v) is float:
        return 'literal', X + 'double', None
    if type(v) is decimal.Decimal:
        return 'literal', X + 'decimal', None
    if type(v) is datetime.datetime:
        return 'literal', X + 'dateTime', v.isoformat()
    if type(v) is datetime.date:
        return 'literal', X + 'date', v.isoformat()
    return 'literal', None, v


class WriteOnly:
    def __init__(self):
        self.parts = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('str expected')
        self.parts.append(s)


def export(ctx, r, tmp, lefts, table, fmt):
    kw = {} if fmt == 'csv' and r.random() < .5 else {'out_format': fmt}
    k = r.random()
    if k < .5:
        f = io.StringIO(newline='')
        export_table(f, lefts, table, **kw)
        ctx.count('file objects')
        return f.getvalue()
    if k < .65:
        f = WriteOnly()
        export_table(file_or_path=f, lefts=lefts, table=table, **kw)
        return ''.join(f.parts)
    p = os.path.join(tmp, 'o.txt')
    if r.random() < .3:
        with open(p, 'w') as f:
            f.write('old ' * 5000)
    export_table(p, lefts, table, **kw)
    ctx.count('paths')
    with open(p, encoding='utf-8', newline='') as f:
        return f.read()


def parse_csv(text):
    """Rows of (text or None); a space may follow a comma."""
    out = []
    i, n = 0, len(text)
    row = []
    while i < n:
        while text[i:i + 1] == ' ':
            i += 1
        if text[i:i + 1] == '"':
            i += 1
            buf = ''
            while True:
                j = text.index('"', i)
                buf += text[i:j]
                i = j + 1
                if text[i:i + 1] == '"':
                    buf += '"'
                    i += 1
                    continue
                break
            row.append(buf)
        else:
            j = i
            while j < n and text[j] not in ',\r\n':
                j += 1
            if '"' in text[i:j]:
                raise ValueError('quote within an unquoted cell')
            row.append(text[i:j] or None)
            i = j
        if text[i:i + 2] == '\r\n':
            i += 1
        if text[i:i + 1] == '\n':
            i += 1
            out.append(row)
            row = []
        elif text[i:i + 1] == ',':
            i += 1
            if i == n:
                raise ValueError('no line end')
        else:
            raise ValueError('text after a cell at %d: %r' % (i, text[i:i + 20]))
    if row:
        raise ValueError('no line end')
    return out


def bag(rows):
    out = {}
    for x in rows:
        out[x] = out.get(x, 0) + 1
    return out


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(8):
            vals = values(r)
            cols = r.sample(NAMES, r.randint(1, 5))
            if r.random() < .1:
                cols += [r.choice([7, 2.5, True])]
                ctx.count('lefts of different types')
            hole, multi = r.choice([0, 0, .2, .6]), r.choice([0, 0, 0, .15])
            big = r.random() < .02
            rels = set()
            for _ in range(500 if big else r.choice([0, 1, 1, 2, 4, 9])):
                cs = []
                for c in cols:
                    if r.random() >= hole:
                        cs.append(mm.C(mm.A(c), mm.A(r.choice(vals))))
                        if r.random() < multi:
                            cs.append(mm.C(mm.A(c), mm.A(r.choice(vals))))
                rels.add(mm.S(cs))
            if big:
                ctx.count('big tables')
            m = mm.S(rels)
            if m[1] and mm.prop(m, 'regular') is not True:
                ctx.count('irregular tables')
            if not m[1]:
                ctx.count('empty tables')
            table = L.build(m, r)
            if r.random() < .3:
                h.add(table, m, 'new')
                for _ in range(5):
                    h.age()
                ctx.count('aged tables')
            lefts = list(cols)
            if r.random() < .3:
                lefts = r.sample(lefts, r.randint(1, len(lefts)))
                ctx.count('some lefts only')
            if r.random() < .2:
                lefts.append('zz')
                ctx.count('unknown lefts')
            r.shuffle(lefts)
            if r.random() < .04:
                rejected(ctx, r, table, m, lefts)
            for fmt in ('csv', 'json') if r.random() < .5 else (r.choice(['csv', 'json']),):
                d = {'table': mm.show(m)[:3000], 'lefts': repr(lefts), 'format': fmt}
                try:
                    text = export(ctx, r, tmp, L.mo.Set(lefts) if r.random() < .8 or len(lefts) == 1 else L.mo.Set(*lefts), table, fmt)
                except Exception as ex:
                    raise Violation('export_table raised %s' % type(ex).__name__, dict(d, exception=short_tb(ex)))
                d['text'] = text[:3000]
                rows = []
                for rel in m[1]:
                    row = {}
                    for c in lefts:
                        rs = [x[2][2] for x in rel[1] if x[1] == mm.A(c)]
                        if len(rs) == 1:
                            row[c] = rs[0]
                        else:
                            ctx.count('several values' if rs else 'missing values')
                    if not row:
                        ctx.count('rows without values')
                    rows.append(row)
                (csv_judge if fmt == 'csv' else json_judge)(ctx, text, lefts, rows, d)
                ctx.judged((m, tuple(lefts), fmt), bool(m[1]), lambda: 'export_table(%s) = %r' % (fmt, text[:300]))


def order(ctx, header, lefts, d):
    if sorted(header) != sorted(map(str, lefts)):
        raise Violation('export_table: wrong header', dict(d, got=header))
    atoms = {str(x): L.mo.Atom(x) for x in lefts}
    for a, b in zip(header, header[1:]):
        if not atoms[a] < atoms[b]:
            raise Violation('export_table: the lefts are not in ascending order', dict(d, got=header))


def csv_judge(ctx, text, lefts, rows, d):
    ctx.count('CSV')
    try:
        got = parse_csv(text)
    except (ValueError, IndexError) as ex:
        raise Violation('export_table: the CSV text is malformed', dict(d, error=str(ex)))
    if not got:
        raise Violation('export_table: no header', d)
    order(ctx, got[0], lefts, d)
    byname = {str(x): x for x in lefts}
    exp = [tuple(str(row[byname[n]]) if byname[n] in row else None for n in got[0]) for row in rows]
    # an empty line stands for a row of one missing value
    back = [tuple(x) for x in got[1:]]
    if bag(exp) != bag(back):
        raise Violation('export_table: the CSV rows differ from the table', dict(d, expected=repr(exp)[:2000], got=repr(back)[:2000]))
    for row in rows:
        for v in row.values():
            s = str(v)
            if '"' in s:
                ctx.count('quotes')
            if '\n' in s:
                ctx.count('line breaks')
            if s == '':
                ctx.count('empty strings')


def json_judge(ctx, text, lefts, rows, d):
    ctx.count('JSON')

    def pairs(ps):
        if len({k for k, _ in ps}) < len(ps):
            raise ValueError('a name occurs twice in an object')
        return dict(ps)

    def bad(x):
        raise ValueError('constant ' + x)
    try:
        doc = json.loads(text, object_pairs_hook=pairs, parse_constant=bad)
    except ValueError as ex:
        raise Violation('export_table: the text is not valid JSON', dict(d, error=str(ex)))
    try:
        if set(doc) != {'head', 'results'} or set(doc['head']) != {'vars'} or set(doc['results']) != {'bindings'}:
            raise KeyError(list(doc))
        header, got = doc['head']['vars'], doc['results']['bindings']
    except (KeyError, TypeError) as ex:
        raise Violation('export_table: not the layout of SPARQL results', dict(d, error=repr(ex)))
    order(ctx, header, lefts, d)
    if len(got) != len(rows):
        raise Violation('export_table: wrong number of rows', dict(d, expected=len(rows), got=len(got)))
    exp, back = [], []
    first = {str(x): x for x in lefts}[header[0]]
    for row in rows:
        if row and first not in row:
            ctx.count('first value missing')
        out = []
        for k, v in row.items():
            t, dt, s = lexical(v)
            ctx.count({'uri': 'URIs', 'bnode': 'blank nodes', 'literal': 'literals'}[t])
            if dt:
                ctx.count('literals with a datatype')
            if type(v) is bool:
                ctx.count('booleans')
            if s is not None and any(ord(c) > 127 for c in s):
                ctx.count('non-ASCII text')
            if s is None:
                s = type(v)(v)
            out.append((str(k), t, dt, s))
        exp.append(frozenset(out))
    for row in got:
        out = []
        for k, x in row.items():
            if not isinstance(x, dict) or not set(x) <= {'type', 'value', 'datatype'} or not {'type', 'value'} <= set(x) or not all(isinstance(y, str) for y in x.values()):
                raise Violation('export_table: a binding is malformed', dict(d, got=repr(x)))
            s = x['value']
            try:
                if x.get('datatype') == X + 'double':
                    s = float(s)
                elif x.get('datatype') == X + 'decimal':
                    s = decimal.Decimal(s)
            except (ValueError, ArithmeticError):
                pass
            out.append((k, x['type'], x.get('datatype'), s))
        back.append(frozenset(out))
    if bag(exp) != bag(back):
        raise Violation('export_table: the JSON rows differ from the table', dict(d, expected=repr(exp)[:2000], got=repr(back)[:2000]))


def rejected(ctx, r, table, m, lefts):
    """Tables that are not absolute clans and unknown formats raise and write nothing."""
    k = r.choice(['format', 'object'])
    f = io.StringIO()
    kw = {'out_format': 'xml'} if k == 'format' else {'out_format': r.choice(['csv', 'json'])}
    if k == 'object':
        table = r.choice([L.mo.Atom(1), L.mo.Set(1, 2), L.mo.Set(L.mo.Set(L.mo.Couplet('a', L.mo.Set(1)))), L.mo.Multiset({L.mo.Set(L.mo.Couplet('a', 1)): 2}), L.mo.Set(L.mo.Couplet('a', 1))])
    ctx.count('rejected calls')
    try:
        export_table(f, L.mo.Set(lefts), table, **kw)
    except Exception:
        if f.getvalue():
            raise Violation('export_table: a rejected call wrote something', {'text': f.getvalue()[:1000], 'table': repr(table)[:1000], 'options': kw})
        ctx.judged(('rejected', repr(table), repr(kw)), True)
        return
    raise Violation('export_table accepted something that is no absolute clan or an unknown format', {'table': repr(table)[:1000], 'options': kw})
