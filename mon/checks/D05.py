"""MoJSON round trips."""
import io
import json
import os
import tempfile
from mon import csvtext as T
from mon import lib as L
from mon import model as mm
from mon.engine import History, Violation, short_tb

from algebraixlib.import_export import mojson

NEED = ['None', 'bool', 'int', 'float', 'str', 'bytes', 'complex', 'frozenset', 'tuple', 'range', 'nested values', 'couplets', 'sets', 'multisets', 'in lists', 'in dictionaries', 'files', 'indented',
        'deep objects', 'tuple in tuple', 'frozenset in frozenset', 'tuple in frozenset', 'values that are equal in Python', 'aged objects', 'bare values']
RULE = ('Random math objects of all kinds whose atoms hold every supported Python type (nested in each other), encoded with json.dumps/json.dump and ExportJson in varied formats and decoded with '
        'ImportJson; the result is compared with the original including the exact types of all values, and the text is parsed by the plain json module. Distinct by object and way.')


class Gen:
    def __init__(self, ctx, r):
        self.ctx, self.r = ctx, r

    def value(self, depth=2, inner=False):
        r = self.r
        k = r.choice(['None', 'bool', 'int', 'int', 'float', 'str', 'str', 'bytes', 'complex', 'range', 'frozenset', 'tuple', 'tuple'] if depth > 0 else
                     ['bool', 'int', 'float', 'str', 'bytes', 'complex', 'range', 'None'])
        self.ctx.count(k)
        if inner:
            self.ctx.count('nested values')
        if k == 'None':
            return None
        if k == 'bool':
            return r.random() < .5
        if k == 'int':
            return r.choice([0, 1, -1, 2, 10 ** 40, -2 ** 63, r.randint(-99, 99)])
        if k == 'float':
            return r.choice([0.0, 1.0, -0.0, .1, 1e308, 5e-324, -2.5, r.random(), r.random() * 1e20])
        if k == 'str':
            return r.choice(T.TEXTS + ['', '__cls__', '__val__', 'Set', '\x00', '\ud800', '[1]', '{"a": 1}'])
        if k == 'bytes':
            return r.choice([b'', b'a', b'\x00\xff', bytes(range(256)), b'1'])
        if k == 'complex':
            return complex(r.choice([0.0, 1.0, -1.5, 1e300, .1, r.uniform(-1e6, 1e6)]), r.choice([0.0, 1.0, -2.0, .1, 1e-300, -0.0, r.gauss(0, 1) / 3]))
        if k == 'range':
            return r.choice([range(0), range(3), range(1, 1), range(5, 1, -2), range(10 ** 20, 10 ** 20 + 3), range(0, 9, 3)])
        n = r.choice([0, 1, 2, 3])
        items = [self.value(depth - 1, True) for _ in range(n)]
        for x in items:
            if type(x) in (tuple, frozenset):
                self.ctx.count('%s in %s' % (type(x).__name__, k))
        return frozenset(items) if k == 'frozenset' else tuple(items)

    def atom(self):
        r = self.r
        if r.random() < .2:
            self.ctx.count('values that are equal in Python')
            return mm.A(r.choice([1, 1.0, True, 0, 0.0, False, (1,), (1.0,), (True,), '1', b'1']))
        return mm.A(self.value())

    def obj(self, depth):
        r = self.r
        k = r.choice('ACSM' if depth > 0 else 'A')
        if k == 'A':
            return self.atom()
        if k == 'C':
            self.ctx.count('couplets')
            return mm.C(self.obj(depth - 1), self.obj(depth - 1))
        es = [self.obj(depth - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))]
        if k == 'S':
            self.ctx.count('sets')
            return mm.S(distinct(es))
        self.ctx.count('multisets')
        return mm.M({e: r.choice([1, 1, 2, 3, 10 ** 12]) for e in distinct(es)})


def distinct(es):
    """Without objects that the library may confuse (values that are equal in Python but not of one exact type inside of tuples)."""
    out = {}
    for e in es:
        out.setdefault(loose(e), e)
    return list(out.values())


def canon(x):
    """Hashable description of a plain value with exact types."""
    if type(x) in (tuple, list):
        return (type(x), tuple(canon(e) for e in x))
    if type(x) is frozenset:
        return (frozenset, frozenset(canon(e) for e in x))
    if type(x) is dict:
        return (dict, frozenset((k, canon(v)) for k, v in x.items()))
    if type(x) is range:
        return (range, x.start, x.stop, x.step)
    if isinstance(x, L.mo.MathObject):
        return exact(L.to_model(x))
    return (type(x), repr(x))


def exact(m):
    if m[0] == 'A':
        return ('A', canon(m[2]))
    if m[0] == 'C':
        return ('C', exact(m[1]), exact(m[2]))
    if m[0] == 'S':
        return ('S', frozenset(exact(e) for e in m[1]))
    return ('M', frozenset((exact(e), n) for e, n in m[1]))


def loose(m):
    if m[0] == 'A':
        return ('A', m[1], m[2])
    if m[0] == 'C':
        return ('C', loose(m[1]), loose(m[2]))
    if m[0] == 'S':
        return ('S', frozenset(loose(e) for e in m[1]))
    return ('M', frozenset((loose(e), n) for e, n in m[1]))


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    g = Gen(ctx, r)
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(15):
            m = g.obj(r.choice([0, 1, 2, 3]))
            if r.random() < .03:
                ctx.count('deep objects')
                for _ in range(r.randint(20, 60)):
                    m = r.choice([lambda: mm.C(m, mm.A(1)), lambda: mm.S([m]), lambda: mm.M({m: 2}), lambda: mm.C(mm.A('x'), m)])()
            if r.random() < .2:
                # objects as the rest of the framework makes them
                m = h.gen.of(r.choice(['set', 'mset', 'clan', 'mclan', 'rel', 'mo']))
                if mm.size(m) > 400:
                    continue
            obj = build(m, r)
            if r.random() < .2:
                ctx.count('aged objects')
                h.add(obj, m, 'new')
                for _ in range(5):
                    h.age()
            x = obj
            way = []
            k = r.random()
            if k < .12:
                x = [obj, 1, [obj], {'a': build(m, r)}]
                way.append('list')
                ctx.count('in lists')
            elif k < .24:
                x = {'k': obj, 'l': [build(m, r)], '__cls__': 'Set', 'n': None} if r.random() < .5 else {'': obj}
                way.append('dict')
                ctx.count('in dictionaries')
            elif k < .3:
                v = g.value()
                if type(v) is not tuple:    # JSON itself writes a bare tuple as a list
                    x = v
                    ctx.count('bare values')
            kw = {}
            if r.random() < .2:
                kw['indent'] = r.choice([0, 2, '\t'])
                ctx.count('indented')
            if r.random() < .2:
                kw['ensure_ascii'] = False
            if r.random() < .2:
                kw['sort_keys'] = True
            if r.random() < .2:
                kw['separators'] = (',', ':')
            d = {'object': repr(x)[:2000], 'options': repr(kw), 'embedded': way}
            try:
                if r.random() < .2:
                    p = os.path.join(tmp, 'f.json')
                    kw.pop('ensure_ascii', None)
                    with open(p, 'w', encoding='utf-8') as f:
                        json.dump(x, f, cls=mojson.ExportJson, **kw)
                    with open(p, encoding='utf-8') as f:
                        text = f.read()
                    with open(p, encoding='utf-8') as f:
                        back = json.load(f, cls=mojson.ImportJson)
                    ctx.count('files')
                else:
                    text = json.dumps(x, cls=mojson.ExportJson, **kw)
                    if r.random() < .3:
                        back = json.loads(text, object_hook=mojson.object_hook_f)
                    else:
                        back = json.loads(text, cls=mojson.ImportJson)
            except Exception as ex:
                raise Violation('MoJSON raised %s' % type(ex).__name__, dict(d, exception=short_tb(ex)))
            d['text'] = text[:3000]
            try:
                strict(text)
            except ValueError as ex:
                raise Violation('MoJSON: the text is not valid JSON', dict(d, error=str(ex)))
            try:
                same = canon(back) == canon(x)
                eq = back == x
            except Exception as ex:
                raise Violation('using the decoded object raised %s' % type(ex).__name__, dict(d, exception=short_tb(ex)))
            if not same:
                raise Violation('MoJSON: the round trip changed the object', dict(d, got=repr(back)[:2000]))
            if not eq:
                raise Violation('MoJSON: the decoded object does not equal the original', dict(d, got=repr(back)[:2000]))
            if isinstance(back, L.mo.MathObject):
                flags = list(L.check_flags(back, L.to_model(back)))
                if flags:
                    raise Violation('MoJSON: the decoded object remembers something false', dict(d, flag=repr(flags[0][1:])))
            ctx.judged(text, len(text) > 30, lambda: text[:300])


def strict(text):
    def bad(x):
        raise ValueError(x)
    json.loads(text, parse_constant=bad)


def build(m, r):
    if m[0] == 'A':
        return L.mo.Atom(m[2])
    return L.build(m, r)
