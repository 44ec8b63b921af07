"""import_xml mirrors elements, attributes and text."""
import io
import os
import tempfile
import threading
from mon import lib as L
from mon import model as mm
from mon.engine import History, Violation
from mon.checks.D03 import judge

from algebraixlib.import_export.xml import import_xml, xml_to_str

NEED = ['string buffers', 'paths', 'file objects', 'text only', 'attributes', 'mixed content', 'empty elements', 'white space only', 'equal siblings', 'siblings of one name', 'one attribute only',
        'integers', 'floats', 'not numbers', 'plain strings', 'declared encodings', 'child and attribute of one name', 'deep documents', 'big documents', 'concurrent imports', 'entities', 'pretty-printed']
RULE = ('Random XML documents of elements, attributes and text, written by our own serialiser (quotes, entities, character references, white space, encodings) and imported with and without number conversion '
        'from buffers, paths and file objects; the result is compared with the document. Non-trivial: any; distinct by text, source and options.')

NAMES = ['a', 'b', 'c', 'A', 'item', 'x-y', 'ns:a', '_u', 'n.1', 'ü', '日', 'left', 'text']
TEXTS = ['a', 'b', 'x y', '<', '&', '"', "'", '>', 'ü', '日本', '\U0001F600', 'two\nlines', '$', 'None', 'True', '1x', '0x10', '1,5', '--', ']]', 'a b', '1.2.3', '+', 'e5', 'tab\tin', 'x' * 200]
INTS = {'0': 0, '1': 1, '01': 1, '-1': -1, '+7': 7, '12345678901234567890123': 12345678901234567890123}
FLOATS = {'1.0': 1.0, '.5': .5, '-2.25': -2.25, '1e5': 1e5, '1E-3': 1e-3, '3.': 3.0}
LATIN = [t for t in TEXTS if all(ord(c) < 256 for c in t)]


class Doc:
    def __init__(self, ctx, r, big=False):
        self.ctx, self.r = ctx, r
        self.convert = r.random() < .5
        self.enc = r.choice(['utf-8', 'utf-8', 'utf-8', 'iso-8859-1', 'utf-16', 'us-ascii'])
        self.names = [n for n in r.sample(NAMES, r.randint(2, 6)) if self.fits(n)] or ['a']
        pool = TEXTS + list(INTS) * 2 + list(FLOATS) * 2
        self.texts = [t for t in (r.choice(pool) for _ in range(r.choice([2, 4, 8])))]
        self.budget = 500 if big else r.choice([1, 3, 8, 25])
        self.pretty = True
        decl = ''
        if self.enc not in ('utf-8',) or r.random() < .3:
            decl = '<?xml version="1.0" encoding="%s"?>%s' % (self.enc, r.choice(['', '\n']))
        if self.enc != 'utf-8':
            ctx.count('declared encodings')
        t, m = self.elem(r.choice([0, 1, 2, 4]))
        if r.random() < .04:
            ctx.count('deep documents')
            for _ in range(r.randint(30, 90)):
                n = r.choice(self.names)
                t, m = '<%s>%s</%s>' % (n, t, n), mm.C(mm.A(n), mm.S([m]))
        if 'ns:' in t:
            # declare the prefix in an outermost element
            t, m = '<r xmlns:ns="u">%s</r>' % t, mm.C(mm.A('r'), mm.S([m, mm.C(mm.A('xmlns:ns'), mm.A('u'))]))
        self.text = decl + t + r.choice(['', '\n'])
        self.expected = mm.S([m])

    def fits(self, s):
        try:
            s.encode(self.enc)
        except UnicodeError:
            return False
        return True

    def value(self, s):
        if self.convert:
            if s in INTS:
                self.ctx.count('integers')
                return mm.A(INTS[s])
            if s in FLOATS:
                self.ctx.count('floats')
                return mm.A(FLOATS[s])
            self.ctx.count('not numbers')
        else:
            self.ctx.count('plain strings')
        return mm.A(s)

    def esc(self, s, quote=None):
        r = self.r
        out = []
        for c in s:
            if c in '&<' or (c == '>' and (quote is None or r.random() < .5)) or c == quote:
                out.append({'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}[c])
                self.ctx.count('entities')
            elif (quote is not None and c in '\n\t') or not self.fits(c) or r.random() < .05:
                out.append(r.choice(['&#%d;', '&#x%x;']) % ord(c))
            else:
                out.append(c)
        return ''.join(out)

    def text_of(self):
        r = self.r
        s = r.choice(self.texts)
        if '\n' in s or '\t' in s:
            self.pretty = False
        return self.esc(s), self.value(s)

    def elem(self, depth):
        """Text and couplet of one element."""
        r = self.r
        n = r.choice(self.names)
        self.budget -= 1
        atts, cs = '', []
        if r.random() < .4:
            for a in r.sample(self.names, r.randint(1, len(self.names))):
                if a.startswith('ns:'):
                    continue
                q = r.choice('"\'')
                s = r.choice(self.texts + ['', ' pad '])
                atts += r.choice([' ', '\n ']) + a + r.choice(['=', ' = ']) + q + self.esc(s, q) + q
                if '\n' in s or '\t' in s:
                    self.pretty = False
                cs.append(mm.C(mm.A(a), self.value(s)))
                self.ctx.count('attributes')
        natt = len(cs)
        body = ''
        texts = kids = 0
        last_text = False
        last = None
        if depth > 0 or r.random() < .6:
            for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
                if r.random() < .4 or depth <= 0 or self.budget < 0:
                    if last_text:
                        continue
                    t, v = self.text_of()
                    body += r.choice(['', ' ', '\n\t']) + t + r.choice(['', ' ', '\r\n'])
                    cs.append(mm.C(mm.A('$'), v))
                    last_text = True
                    texts += 1
                else:
                    if last is not None and r.random() < .2:
                        self.ctx.count('equal siblings')
                        t, m = last
                    else:
                        t, m = last = self.elem(depth - 1)
                    if any(c[1] == m[1] and c != m for c in cs[natt:]):
                        self.ctx.count('siblings of one name')
                    if any(c[1] == m[1] for c in cs[:natt]):
                        self.ctx.count('child and attribute of one name')
                    body += t + r.choice(['', '', '\n  '])
                    cs.append(m)
                    last_text = False
                    kids += 1
        if not body and r.random() < .2:
            body = r.choice([' ', '\n', '\t\r\n'])
            self.ctx.count('white space only')
        m = mm.S(cs)
        if texts and not kids and not natt:
            self.ctx.count('text only')
            val = cs[0][2]
        else:
            val = m
            if texts:
                self.ctx.count('mixed content')
            elif not kids and natt == 1:
                self.ctx.count('one attribute only')
            elif not cs:
                self.ctx.count('empty elements')
        sp = r.choice(['', ' '])
        if not body and r.random() < .6:
            t = '<%s%s%s/>' % (n, atts, sp)
        else:
            t = '<%s%s%s>%s</%s%s>' % (n, atts, sp, body, n, r.choice(['', ' ']))
        return t, mm.C(mm.A(n), val)

    def opts(self):
        return {'convert_numerics': self.convert} if self.convert or self.r.random() < .3 else {}


def load(ctx, doc, way, tmp, kw):
    if way == 'buffer':
        ctx.count('string buffers')
        return import_xml(io.StringIO(doc.text), **kw)
    if way == 'bytes':
        ctx.count('file objects')
        return import_xml(io.BytesIO(doc.text.encode(doc.enc)), **kw)
    p = os.path.join(tmp, 'd.xml')
    with open(p, 'wb') as f:
        f.write(doc.text.encode(doc.enc))
    if way == 'path':
        ctx.count('paths')
        return import_xml(p, **kw)
    ctx.count('file objects')
    if way == 'file':
        with open(p, 'rb') as f:
            return import_xml(f, **kw)
    with open(p, encoding=doc.enc) as f:
        return import_xml(f, **kw)


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(15):
            big = r.random() < .02
            if big:
                ctx.count('big documents')
            doc = Doc(ctx, r, big)
            kw = doc.opts()
            ways = ['path', 'bytes', 'file'] + ['buffer', 'text file'] * (doc.enc == 'utf-8')
            for way in r.sample(ways, r.choice([1, 1, 2])):
                judge(ctx, 'import_xml', doc.text, way + repr(kw), doc.expected, lambda: load(ctx, doc, way, tmp, kw))
            if doc.pretty and doc.enc == 'utf-8' and r.random() < .1:
                ctx.count('pretty-printed')
                judge(ctx, 'import_xml of xml_to_str', doc.text, repr(kw), doc.expected, lambda: import_xml(io.StringIO(xml_to_str(io.StringIO(doc.text), truncate=False)), **kw))
            if r.random() < .05:
                docs = [Doc(ctx, r) for _ in range(3)]
                out = [None] * 3

                def work(j):
                    try:
                        out[j] = import_xml(io.BytesIO(docs[j].text.encode(docs[j].enc)), docs[j].convert)
                    except Exception as ex:
                        out[j] = ex
                ts = [threading.Thread(target=work, args=(j,)) for j in range(3)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                ctx.count('concurrent imports')
                for j in range(3):
                    def get():
                        if isinstance(out[j], Exception):
                            raise out[j]
                        return out[j]
                    judge(ctx, 'import_xml', docs[j].text, 'threads', docs[j].expected, get)
