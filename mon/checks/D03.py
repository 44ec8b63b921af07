"""import_json mirrors the document as nested relations."""
import io
import os
import tempfile
from mon import csvtext as T
from mon import lib as L
from mon import model as mm
from mon.engine import History, Violation, short_tb

from algebraixlib.import_export.json import import_json

NEED = ['string buffers', 'paths', 'file objects', 'objects', 'arrays of objects', 'nested arrays', 'top-level arrays', 'booleans', 'integers', 'floats', 'strings', 'equal array elements',
        'empty objects', 'empty arrays', 'deep documents', 'big documents', 'non-ASCII text', 'values that are equal in Python']
RULE = ('Random JSON documents (objects, arrays of objects, nested arrays, scalars of every supported type) written by our own serialiser with random white space and escapes and imported from buffers, '
        'paths and file objects; the result is compared with the document. Non-trivial: at least one member; distinct by text.')

KEYS = T.NAMES + ['$', 'k', 'left', '0', 'null', 'true', '\\', '\x01', '\U0001F600']


class Doc:
    def __init__(self, ctx, r, big=False):
        self.ctx, self.r = ctx, r
        self.keys = r.sample(KEYS, r.randint(1, 5))
        self.pool = [self.new_scalar() for _ in range(r.choice([1, 2, 4]))]
        self.budget = 600 if big else r.choice([3, 8, 20, 40])
        if r.random() < .04:
            ctx.count('deep documents')
            x = self.obj(1)
            for _ in range(r.randint(30, 90)):
                t, m = x
                k = r.choice(self.keys)
                if r.random() < .5:
                    x = '{%s:%s}' % (self.string(k), t), mm.S([mm.C(mm.A(k), m)])
                else:
                    x = '{%s:[%s]}' % (self.string(k), t), mm.S([mm.C(mm.A(k), m)])
            self.text, self.expected = x
        elif r.random() < .25:
            ctx.count('top-level arrays')
            self.text, ms = self.arr(r.choice([1, 2, 4]), empty=True)
            self.expected = mm.S(ms)
        else:
            self.text, self.expected = self.obj(r.choice([1, 2, 3, 6]))

    def ws(self):
        return self.r.choice(['', '', '', ' ', '\n', '\r\n\t'])

    def string(self, s):
        r = self.r
        out = []
        for c in s:
            if c in '"\\':
                out.append('\\' + c)
            elif ord(c) < 32 or (r.random() < .2 and ord(c) < 0x10000):
                out.append('\\u%04x' % ord(c))
            elif ord(c) > 0xffff and r.random() < .5:
                n = ord(c) - 0x10000
                out.append('\\u%04X\\u%04X' % (0xd800 + (n >> 10), 0xdc00 + (n & 0x3ff)))
            else:
                out.append(c)
        return '"' + ''.join(out) + '"'

    def new_scalar(self):
        r = self.r
        k = r.random()
        if k < .15:
            return r.choice([True, False])
        if k < .4:
            return r.choice([0, 1, -1, 2, 10 ** 30, -7])
        if k < .6:
            return r.choice([0.0, 1.0, -1.5, 1e300, 2.0, .1])
        return r.choice(T.TEXTS + [''])

    def scalar(self):
        r = self.r
        v = r.choice(self.pool) if r.random() < .8 else self.new_scalar()
        if v is True or v is False:
            self.ctx.count('booleans')
            return ('true' if v else 'false'), mm.A(v)
        if isinstance(v, int):
            self.ctx.count('integers')
            return str(v), mm.A(v)
        if isinstance(v, float):
            self.ctx.count('floats')
            return repr(v), mm.A(v)
        self.ctx.count('strings')
        if any(ord(c) > 127 for c in v):
            self.ctx.count('non-ASCII text')
        return self.string(v), mm.A(v)

    def obj(self, depth):
        r = self.r
        self.ctx.count('objects')
        parts, cs = [], set()
        keys = r.sample(self.keys, r.randint(0, len(self.keys)))
        if not keys:
            self.ctx.count('empty objects')
        for k in keys:
            self.budget -= 1
            q = r.random()
            if depth <= 0 or q < .5 or self.budget < 0:
                t, m = self.scalar()
                ms = [m]
            elif q < .7:
                t, m = self.obj(depth - 1)
                ms = [m]
            else:
                self.ctx.count('arrays of objects')
                t, ms = self.arr(depth - 1)
            parts.append(self.ws() + self.string(k) + self.ws() + ':' + self.ws() + t + self.ws())
            cs.update(mm.C(mm.A(k), m) for m in ms)
        return '{' + (','.join(parts) or self.ws()) + '}', mm.S(cs)

    def arr(self, depth, empty=False):
        """Text and the list of the models of the elements."""
        r = self.r
        parts, ms = [], []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            self.budget -= 1
            if depth > 0 and r.random() < .12:
                self.ctx.count('nested arrays')
                t, sub = self.arr(depth - 1)
                m = mm.S(sub)
            elif ms and r.random() < .2:
                self.ctx.count('equal array elements')
                j = r.randrange(len(ms))
                t, m = parts[j], ms[j]
            else:
                t, m = self.obj(depth - 1)
                if ms and r.random() < .2:
                    # the same members with values of other types that are equal in Python
                    for a, b in (('1', '1.0'), ('1.0', 'true'), ('0', 'false'), ('0.0', '0')):
                        k = r.choice(self.keys)
                        t1, t2 = ('{%s:%s}' % (self.string(k), x) for x in (a, b))
                        parts += [t1, t2]
                        ms += [mm.S([mm.C(mm.A(k), mm.A(v))]) for v in ({'1': 1, '1.0': 1.0, 'true': True, '0': 0, '0.0': 0.0, 'false': False}[x] for x in (a, b))]
                        break
                    self.ctx.count('values that are equal in Python')
            parts.append(self.ws() + t + self.ws())
            ms.append(m)
        if not ms:
            self.ctx.count('empty arrays')
        return '[' + (','.join(parts) or self.ws()) + ']', ms


def load(ctx, text, way, tmp):
    if way == 'buffer':
        ctx.count('string buffers')
        return import_json(io.StringIO(text))
    p = os.path.join(tmp, 'd.json')
    with open(p, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    if way == 'path':
        ctx.count('paths')
        return import_json(p)
    ctx.count('file objects')
    with (open(p, encoding='utf-8') if way == 'file' else open(p, 'rb')) as f:
        return import_json(f)


def judge(ctx, what, text, way, expected, f):
    d = {'text': text[:3000], 'source': way, 'expected': mm.show(expected)[:3000]}
    try:
        res = f()
    except Exception as ex:
        raise Violation('%s raised %s' % (what, type(ex).__name__), dict(d, exception=short_tb(ex)))
    try:
        got = L.to_model(res)
        flags = list(L.check_flags(res, got))
    except Exception as ex:
        raise Violation('using the imported object raised %s' % type(ex).__name__, dict(d, exception=short_tb(ex)))
    if got != expected:
        raise Violation('%s: wrong result' % what, dict(d, got=mm.show(got)[:3000]))
    if flags:
        raise Violation('%s: the result remembers something false' % what, dict(d, flag=repr(flags[0][1:])))
    other = L.build(expected)
    if not (res == other and hash(res) == hash(other)):
        raise Violation('%s: the result does not equal the same object built by hand' % what, d)
    ctx.judged((what, text, way), bool(expected[1]), lambda: '%s(%r) = %s' % (what, text[:150], mm.show(got)[:200]))


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(15):
            big = r.random() < .02
            if big:
                ctx.count('big documents')
            doc = Doc(ctx, r, big)
            text = doc.ws() + doc.text + doc.ws()
            for way in r.sample(['buffer', 'path', 'file', 'binary file'], r.choice([1, 1, 2])):
                judge(ctx, 'import_json', text, way, doc.expected, lambda: load(ctx, text, way, tmp))
