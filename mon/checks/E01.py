"""Text renderings show the whole object."""
import contextlib
import html.parser
import io
import re
from mon import lib as L
from mon import model as mm
from mon.engine import History, Violation, short_tb

from algebraixlib.util import html as uhtml
from algebraixlib.util import latexprinter as latex
from algebraixlib.util.mathobjectprinter import mo_to_str
from algebraixlib.util import miscellaneous as misc

NEED = ['mo_to_str', 'mo_to_str abbreviated', 'mo_to_str limited', 'line lengths', 'elided atoms', 'str', 'LaTeX', 'short LaTeX', 'elided elements', 'elided text', 'uncoloured LaTeX', 'HTML objects', 'HTML containers', 'HTML pages',
        'simple pages', 'escaped text', 'mixed sets', 'nested collections', 'multiplicities', 'empty collections', 'built differently', 'undefined', 'core', 'long atoms', 'large collections']
RULE = ('Random objects of all kinds, aged and built in different ways, rendered with mo_to_str, str, the LaTeX printer and the HTML helpers with all options; the text is parsed back by parsers of our own and the '
        'structure compared with the object; limited forms must be the full form with parts left out. Distinct by object and form.')
ATOMS = ['a', 'b', 'foo', 'a longer text to be cut somewhere', 'x' * 120, '<b>&amp;', 'it is 1', 1, 2, -3, 10 ** 20, 2.5, True, None, 'ü', '']

# Longer than any limit that makes sense inside a renderer, and different only at the far end.
LONG = ['y' * 2000 + 'a', 'y' * 2000 + 'b', 'some words ' * 400, 'n' * 300, 7 ** 400]


class Bad(Exception):
    pass


ATOM_RE = re.compile(r"'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"|-?\d[\d.]*(?:e[-+]?\d+)?|True|False|None")


class Parser:
    """Parser for str(), mo_to_str and LaTeX. Collections come out as ('S'|'M'|'B', bag); B is a collection of either kind."""

    def __init__(self, text, tokens):
        self.toks = []
        i = 0
        rx = re.compile('|'.join('(%s)' % t for _, t in tokens))
        while i < len(text):
            m = rx.match(text, i)
            if not m or m.end() == i:
                raise Bad('cannot read %r' % text[i:i + 30])
            kind = tokens[m.lastindex - 1][0]
            if kind:
                self.toks.append((kind, m.group()))
            i = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def take(self, kind):
        if self.peek() != kind:
            raise Bad('expected %s, found %r' % (kind, self.toks[self.i:self.i + 3]))
        self.i += 1
        return self.toks[self.i - 1][1]

    def all(self):
        x = self.item()
        if self.peek() is not None:
            raise Bad('text after the object: %r' % self.toks[self.i:self.i + 5])
        return x


class Plain(Parser):
    """mo_to_str (both forms); separators are optional."""
    T = [('atom', r'Atom\((?:%s)\)|%s' % (ATOM_RE.pattern, ATOM_RE.pattern)), ('set', r'Set\(\{'), ('mset', r'Multiset\(\{'), ('(', r'Couplet\(left=|\('), ('->', r', right=|->'), ('end', r'\}\)'), ('}', r'\}'), (')', r'\)'),
         ('{', r'\{'), (None, r'[\s]+|,')]

    def __init__(self, text):
        # "right=" comes first: the couplet separator of the long form
        super().__init__(text, sorted(self.T, key=lambda t: t[0] is None))

    def item(self):
        k = self.peek()
        if k == 'atom':
            s = self.take('atom')
            return ('A', s[5:-1] if s.startswith('Atom(') else s)
        if k == '(':
            self.take('(')
            a = self.item()
            self.take('->')
            b = self.item()
            self.take(')')
            return ('C', a, b)
        kinds = {'set': ('S', 'end'), 'mset': ('M', 'end'), '{': ('B', '}')}
        if k not in kinds:
            raise Bad('unexpected %r' % self.toks[self.i:self.i + 3])
        kind, end = kinds[k]
        self.take(k)
        out = []
        while self.peek() != end:
            out.append(self.item())
        self.take(end)
        return (kind, bag(out))


class Str(Parser):
    T = [('atom', ATOM_RE.pattern), ('->', '->'), ('{', r'\{'), ('}', r'\}'), ('[', r'\['), (']', r'\]'), ('(', r'\('), (')', r'\)'), (':', ':'), (',', ', ')]

    def __init__(self, text):
        super().__init__(text, self.T)

    def item(self):
        k = self.peek()
        if k == 'atom':
            return ('A', self.take('atom'))
        if k == '(':
            self.take('(')
            a = self.item()
            self.take('->')
            b = self.item()
            self.take(')')
            return ('C', a, b)
        end = {'{': '}', '[': ']'}.get(k)
        if not end:
            raise Bad('unexpected %r' % self.toks[self.i:self.i + 3])
        self.take(k)
        out = []
        while self.peek() != end:
            if out:
                self.take(',')
            x = self.item()
            n = 1
            if k == '[':
                self.take(':')
                n = int(self.take('atom'))
            out.append((x, n))
        self.take(end)
        return ('M' if k == '[' else 'S', frozenset(out))


class Latex(Parser):
    SHORT = False
    T = [('atom', r'\\mbox\{(?:(?:%s)|(?:[^{}]*)\.\.\.)\}' % ATOM_RE.pattern), ('mapsto', r'\{\\mapsto\}'), ('{', r'\\left\\\{'), ('}', r'\\right\\\}'), ('[', r'\\left\['), (']', r'\\right\]'), ('((', r'\\left\('), ('))', r'\\right\)'),
         (None, r'\\begin\{array\}\{l\}|\\end\{array\}'), ('colour', r'\\color\{(?:red|blue)\}\{'), (',', r',(?:\\ |\\\\\n)'), (':', r':\\ '), ('...', r'\\text\{\.\.\.\}(?:\(\d+\))?'), ('num', r'\d+'), ('b{', r'\{'), ('b}', r'\}'), ('(', r'\('), (')', r'\)')]

    def __init__(self, text):
        super().__init__(text, self.T)

    def all(self):
        x = self.item(True)
        if self.peek() is not None:
            raise Bad('text after the object: %r' % self.toks[self.i:self.i + 5])
        return x

    def comp(self):
        """A component of a couplet: with parentheses unless it is an atom."""
        paren = self.peek() == '(('
        if paren:
            self.take('((')
        colour = self.peek() == 'colour'
        if colour:
            self.take('colour')
        x = self.item(paren)
        if colour:
            self.take('b}')
        if paren:
            self.take('))')
        return x

    def item(self, couplets=True):
        k = self.peek()
        if k == '{':
            x = self.coll('{', '}')
        elif k == '[':
            x = self.coll('[', ']')
        elif k == '(':
            self.take('(')
            x = self.item()
            self.take(')')
            return x
        elif k == 'atom' and not (couplets and self.toks[self.i + 1:self.i + 2] and self.toks[self.i + 1][0] == 'mapsto'):
            return ('A', self.take('atom')[6:-1])
        elif k in ('atom', '((', 'colour') and couplets:
            a = self.comp()
            self.take('mapsto')
            self.take('b{')
            b = self.comp()
            self.take('b}')
            return ('C', a, b)
        else:
            raise Bad('unexpected %r' % self.toks[self.i:self.i + 3])
        return x

    def coll(self, a, end):
        self.take(a)
        out = []
        rest = None
        while self.peek() != end:
            if out:
                self.take(',')
            if self.peek() == '...':
                t = self.take('...')
                rest = int(t[t.index('(') + 1:-1]) if '(' in t else -1
                break
            x = self.item()
            n = 1
            if a == '[':
                self.take(':')
                n = int(self.take('num'))
            out.append((x, n))
        self.take(end)
        if len(set(out)) < len(out) and not self.SHORT:
            raise Bad('an element is shown twice: %r' % (out,))
        if rest is not None:
            return ('M' if a == '[' else 'S', tuple(out), rest)
        return ('M' if a == '[' else 'S', tuple(out) if self.SHORT else frozenset(out))


class ShortLatex(Latex):
    SHORT = True        # different elements may look the same


def bag(items):
    cnt = {}
    for x in items:
        cnt[x] = cnt.get(x, 0) + 1
    return frozenset(cnt.items())


def want(m, kinds=True):
    """The structure of a model with the text of its atoms; kinds False: sets and multisets are not told apart."""
    if m[0] == 'A':
        return ('A', repr(m[2]))
    if m[0] == 'C':
        return ('C', want(m[1], kinds), want(m[2], kinds))
    if m[0] == 'S':
        return ('S' if kinds else 'B', bag(want(e, kinds) for e in m[1]))
    cnt = {}
    for e, n in m[1]:
        w = want(e, kinds)
        cnt[w] = cnt.get(w, 0) + n
    return ('M' if kinds else 'B', frozenset(cnt.items()))


def elided(p, m):
    """Whether the parsed short form p is m with parts left out."""
    if p[0] != m[0]:
        return False
    if p[0] == 'A':
        return p[1] == m[1] or (p[1].endswith('...') and m[1].startswith(p[1][:-3]))
    if p[0] == 'C':
        return elided(p[1], m[1]) and elided(p[2], m[2])
    shown = list(p[1])
    have = list(m[1])
    if len(p) == 3:
        if p[2] >= 0 and len(shown) + p[2] != len(have):
            return False
        if len(shown) >= len(have):
            return False
    elif len(shown) != len(have):
        return False

    def match(k, left):
        if k == len(shown):
            return True
        for j, (e, n) in enumerate(left):
            if n == shown[k][1] and elided(shown[k][0], e) and match(k + 1, left[:j] + left[j + 1:]):
                return True
        return False
    return match(0, have)


def gen_obj(ctx, h, depth, pool):
    r = h.rng
    k = r.random()
    if depth <= 0 or k < .1:
        return mm.A(r.choice(pool))
    if k < .35:
        return mm.C(gen_obj(ctx, h, depth - 1, pool), gen_obj(ctx, h, depth - 1, pool))
    n = r.choice([0, 1, 2, 3, 5, 6, 7, 9])
    if depth == 1 and r.random() < .02:
        n = r.choice([30, 70, 130])
        pool = pool + ['e%d' % j for j in range(2 * n)]
        ctx.count('large collections')
    es = [gen_obj(ctx, h, depth - 1 if r.random() < .8 else 0, pool) for _ in range(n)]
    if not es:
        ctx.count('empty collections')
    if len({e[0] for e in es}) > 1:
        ctx.count('mixed sets')
    if any(e[0] in 'SM' for e in es):
        ctx.count('nested collections')
    if k < .75:
        return mm.S(es)
    out = {}
    for e in es:
        out[e] = r.choice([1, 1, 2, 3, 12])
        if out[e] > 1:
            ctx.count('multiplicities')
    return mm.M(out)


class Text(html.parser.HTMLParser):
    """Collects the tags and the text by the id (or tag) of the innermost element."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.got, self.tags = [], [], []

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        if tag not in ('br', 'script', 'style'):
            self.stack.append(dict(attrs).get('id') or tag)
            self.got.append([self.stack[-1], ''])

    def handle_startendtag(self, tag, attrs):
        self.tags.append(tag)

    def handle_endtag(self, tag):
        if tag not in ('br', 'script', 'style') and self.stack:
            self.stack.pop()

    def handle_data(self, data):
        if self.stack:
            for g in reversed(self.got):
                if g[0] == self.stack[-1]:
                    g[1] += data
                    break

    def of(self, what):
        return [t for k, t in self.got if k == what]


def guarded(what, d, f):
    try:
        return f()
    except Exception as ex:
        raise Violation('%s raised %s' % (what, type(ex).__name__), dict(d, exception=short_tb(ex)))


def parsed(what, cls, text, d):
    try:
        return cls(text).all()
    except (Bad, ValueError) as ex:
        raise Violation('%s: the text is malformed' % what, dict(d, text=text[:3000], error=str(ex)[:500]))


def pieces(limited, full):
    """Whether limited is full with parts replaced by '...'."""
    ps = limited.split('...')
    if len(ps) == 1:
        return limited == full
    if not full.startswith(ps[0]) or not full.endswith(ps[-1]):
        return False
    at = len(ps[0])
    for p in ps[1:-1]:
        j = full.find(p, at)
        if j < 0:
            return False
        at = j + len(p)
    return len(full) - len(ps[-1]) >= at


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    for _ in range(10):
        pool = r.sample(ATOMS, r.randint(2, 8))
        if r.random() < .04:
            pool = pool[:2] + r.sample(LONG, 2)
            ctx.count('long atoms')
        m = gen_obj(ctx, h, r.choice([1, 2, 2, 3]), pool)
        if mm.size(m) > 400:
            continue
        obj = L.build(m, r)
        h.add(obj, m, 'new')
        for _ in range(r.choice([0, 0, 4])):
            h.age()
        d = {'object': mm.show(m)[:3000]}
        for f in r.sample([plain, limited, text, tex, tex_short, web, same], 4):
            f(ctx, r, obj, m, d)
        if L.to_model(obj) != m:
            raise Violation('rendering changed the object', dict(d, got=mm.show(L.to_model(obj))))
    small(ctx, r)


def compare(ctx, what, p, w, d, t):
    if p != w:
        raise Violation('%s: the text does not show the object' % what, dict(d, text=t[:3000], read=repr(p)[:2000]))
    ctx.judged((what, w), len(t) > 3, lambda: '%s %r' % (what, t[:200]))


def plain(ctx, r, obj, m, d):
    ab = r.random() < .5
    what = 'mo_to_str' + ' abbreviated' * ab
    ctx.count(what)
    kw = {}
    if r.random() < .3:
        kw['indent_text'] = r.choice(['', ' ', '\t', '       '])
    if r.random() < .2:
        kw['indent'] = r.choice(['  ', '\t'])
    t = guarded(what, d, lambda: mo_to_str(obj, ab, max_line_len=10 ** 9, **kw))
    compare(ctx, what, parsed(what, Plain, t, d), want(m, not ab), d, t)


def limited(ctx, r, obj, m, d):
    if '...' in mm.show(m):
        return
    ctx.count('mo_to_str limited')
    ab = r.random() < .5
    n = r.choice([None, 10, 20, 40, 60, 95, 200])
    kw = {} if n is None else {'max_line_len': n}
    full = mo_to_str(obj, ab, max_line_len=10 ** 9)
    t = guarded('mo_to_str', d, lambda: mo_to_str(obj, ab, **kw))
    if '...' in t:
        ctx.count('elided atoms')
    if not pieces(t, full):
        raise Violation('mo_to_str: limiting the line length did more than leave out text', dict(d, options=repr(kw), text=t[:3000], full=full[:3000]))
    if m[0] == 'C' and m[1][0] == 'A' == m[2][0]:
        # one line, cut at the end of the right atom
        x, most = mo_to_str(obj.right, ab), (n or 95)
        room = len(full.rstrip()) - len(x)
        line = t.rstrip('\n')
        if '\n' not in line and len(line) > max(most + 1, room + 4):
            raise Violation('mo_to_str: a line is longer than asked', dict(d, options=repr(kw), text=t[:3000], full=full[:3000]))
        ctx.count('line lengths')
    ctx.judged(('limited', m, n), '...' in t, lambda: 'mo_to_str(max_line_len=%s) %r' % (n, t[:200]))


def text(ctx, r, obj, m, d):
    ctx.count('str')
    t = guarded('str', d, lambda: str(obj))
    compare(ctx, 'str', parsed('str', Str, t, d), want(m), d, t)


def latex_of(r, obj, short):
    old = latex.Config.colorize_output
    col = r.random() < .8
    latex.Config.colorize_output = col
    try:
        return latex.math_object_to_latex(obj, short=True) if short else latex.math_object_to_latex(obj), col
    finally:
        latex.Config.colorize_output = old


def tex(ctx, r, obj, m, d):
    ctx.count('LaTeX')
    t, col = guarded('math_object_to_latex', d, lambda: latex_of(r, obj, False))
    if not col:
        ctx.count('uncoloured LaTeX')
        if 'color' in t and 'color' not in mm.show(m):
            raise Violation('math_object_to_latex: coloured although colours are off', dict(d, text=t))
    compare(ctx, 'LaTeX', parsed('LaTeX', Latex, t, d), want(m), d, t)


def tex_short(ctx, r, obj, m, d):
    ctx.count('short LaTeX')
    t, _ = guarded('math_object_to_latex', d, lambda: latex_of(r, obj, True))
    if r'\text{...}' in t:
        ctx.count('elided elements')
    if '...}' in t.replace(r'\text{...}', ''):
        ctx.count('elided text')
    p = parsed('short LaTeX', ShortLatex, t, d)
    if not elided(p, want(m)):
        raise Violation('short LaTeX: the text is not the object with parts left out', dict(d, text=t[:3000], read=repr(p)[:2000]))
    ctx.judged(('short LaTeX', m), True, lambda: 'short LaTeX %r' % t[:200])


def web(ctx, r, obj, m, d):
    k = r.random()
    full = latex.math_object_to_latex(obj)
    if k < .3:
        ctx.count('HTML objects')
        t = guarded('as_html_handle_data_algebra', d, lambda: uhtml.as_html_handle_data_algebra(obj))
        if '<' in t or html.unescape(t).strip('$') != full.strip('$') or not (t.startswith('$$') and t.endswith('$$')):
            raise Violation('as_html_handle_data_algebra: wrong text', dict(d, text=t[:3000]))
        ctx.judged(('html', m), True)
    elif k < .55:
        ctx.count('HTML containers')
        items = [obj, 'a<b', obj, 7]
        r.shuffle(items)
        t = guarded('as_html_handle_data_algebra', d, lambda: uhtml.as_html_handle_data_algebra(tuple(items) if r.random() < .5 else items))
        parts = t.split('<br')
        if len(parts) != 5:
            raise Violation('as_html_handle_data_algebra: not one line per item', dict(d, text=t[:3000]))
        for x, p in zip(items, parts):
            p = html.unescape(p.split('//>', 1)[-1] if '//>' in p else p)
            if (full if x is obj else str(x)) not in p:
                raise Violation('as_html_handle_data_algebra: an item is missing', dict(d, text=t[:3000]))
        ctx.judged(('html list', m), True)
    elif k < .8:
        ctx.count('HTML pages')
        title = r.choice(['t', '<i>x</i> & "y"', '{x}', ''])
        ds = [uhtml.DataAlgebraHtmlDescriptor(r.choice(['in', '<a>', '{}', "q'q"]), obj, r.choice(['brief', 'two\nlines', '<b>']))]
        if r.random() < .5:
            ds += uhtml.build_descriptors_from_math_obj([obj, L.mo.Atom(1)])
        t = guarded('math_object_as_html', d, lambda: uhtml.math_object_as_html(title, ds))
        p = Text()
        p.feed(t)
        if '<' in title:
            ctx.count('escaped text')
        for what, got, exp in (('title', p.of('page_title'), [title]), ('input titles', p.of('input_title'), [x.input_title for x in ds]), ('descriptions', p.of('pre'), [x.description_brief for x in ds]),
                               ('objects', p.of('data_algebra_construct'), ['$$' + latex.math_object_to_latex(x.data_algebra_construct) + '$$' for x in ds])):
            if got != exp:
                raise Violation('math_object_as_html: wrong %s' % what, dict(d, expected=repr(exp)[:2000], got=repr(got)[:2000]))
        c = guarded('math_object_as_html', d, lambda: uhtml.math_object_as_html('a<b', ds, header_template='H{page_title}H', footer_template='F', mathobject_template='[{input_title}]'))
        if c != 'H%sH%sF' % (html.escape('a<b'), ''.join('[%s]' % html.escape(x.input_title) for x in ds)):
            raise Violation('math_object_as_html: templates are not honoured', dict(d, text=c[:1000]))
        ctx.judged(('page', m, title), True)
    else:
        ctx.count('simple pages')
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            t = guarded('create_simple_web_page', d, lambda: uhtml.create_simple_web_page(obj))
        p = Text()
        p.feed(t)
        if p.of('dataAlgebraArea') != [str(obj)] or full not in (p.of('latexArea') or [''])[0]:
            raise Violation('create_simple_web_page: the page does not show the object', dict(d, text=t[-3000:]))
        ctx.judged(('simple page', m), True)


def same(ctx, r, obj, m, d):
    """The same object, and an equal one built otherwise."""
    ctx.count('built differently')
    other = L.build(m, r)
    for what, f in (('LaTeX', latex.math_object_to_latex), ('short LaTeX', lambda o: latex.math_object_to_latex(o, short=True)), ('str', str), ('repr', repr), ('HTML', uhtml.as_html_handle_data_algebra)):
        a, b, c = (guarded(what, d, lambda: f(x)) for x in (obj, other, obj))
        if a != b or a != c:
            raise Violation('%s: equal objects give different texts' % what, dict(d, text=a[:2000], other=(b if a != b else c)[:2000]))
    if mo_to_str(obj) != mo_to_str(obj):
        raise Violation('mo_to_str: the same object gives different texts', d)
    ctx.judged(('same', m), True)


def small(ctx, r):
    ctx.count('undefined')
    if latex.math_object_to_latex(L.UNDEF) != r'\mathit{undef}':
        raise Violation('math_object_to_latex(Undef())', {'text': latex.math_object_to_latex(L.UNDEF)})
    s = ''.join(r.choice('abc \n') for _ in range(r.choice([0, 1, 5, 20, 100])))
    a, b = r.choice([0, 1, 3, 10, 60]), r.choice([0, 1, 3, 10, 60])
    t = misc.core(s, a, b)
    ctx.count('core')
    if a > 0 and b > 0 and a + b < len(s):
        ok = t.startswith(s[:a]) and t.endswith(s[-b:]) and '...' in t and t[a:len(t) - b].strip() == '...'
    else:
        ok = t == s
    if not ok:
        raise Violation('core: wrong text', {'string': s, 'begin_len': a, 'end_len': b, 'got': t})
    ctx.judged(('core', s, a, b), True)
