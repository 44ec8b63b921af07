"""Diagnostic and formatting helpers: print_var, FunctionTimer, xml_to_str, file URLs and class names."""
import contextlib
import io
import os
import random
import re
import tempfile
import time
import urllib.parse
import urllib.request
import xml.dom.minidom as dom
from mon import gen as G
from mon import lib as L
from mon import model as mm
from mon.engine import Violation, short_tb

import algebraixlib.import_export.xml as exml
import algebraixlib.util.miscellaneous as misc
import algebraixlib.util.rdf as urdf

NEED = ['variables printed', 'variables of callers', 'truncated variables', 'indented variables', 'short variables', 'skipped variables', 'timers', 'nested timers', 'failed functions', 'quiet timers', 'timed laps',
        'timers with arguments', 'forgotten ends', 'XML texts', 'XML paths', 'XML encodings', 'XML truncated', 'XML shortened', 'file URLs', 'class names', 'files written', 'stop watches', 'times verified']
RULE = ('Random variables, call trees of timed functions (ended, left by exceptions, quiet, without end), XML documents and paths; the printed or returned text is compared with the text that the documentation prescribes. '
        'Distinct by input and options.')


def bad(what, **d):
    raise Violation(what, {k: (v if isinstance(v, (str, int, type(None))) else repr(v))[:3000] if not isinstance(v, (int, type(None))) else v for k, v in d.items()})


def capture(f):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f()
    return b.getvalue()


def indented(text, prefix):
    return ''.join(prefix + x if x.strip() else x for x in text.splitlines(True))


def a_value(r):
    g = G.Gen(r)
    k = r.random()
    if k < .5:
        return L.build(g.any(2), r)
    return r.choice([1, 0, None, '', 'text', 'two\nlines', 'a {b} c', '{', 'x' * 50, [1, 2], {'a': 1}, (), 2.5, True, L.UNDEF, range(5), 'three\n\nlines\n', {1, 2}])


def var_text(name, v, short, maxlen, append, indent, first):
    try:
        n = '(len %d)' % len(v)
    except Exception:
        n = ''
    if short:
        body = ''
    else:
        t = str(v)
        body = '= ' + (t if maxlen is None else t[:maxlen] + ('...' if len(t) > maxlen else ''))
    text = '%s%s %s%s' % (name, n, body, append)
    indent = indent or ''
    out = indented(text, indent)
    if first is not None and first != indent:
        out = first + out[len(indent):]
    return out + '\n'


def print_var(ctx, r):
    v = a_value(r)
    kw = {}
    up = r.choice([0, 0, 1, 2])
    short = r.random() < .15
    skip = r.random() < .1
    maxlen = r.choice([10000, 10000, None, 0, 1, 5, 20])
    append = r.choice(['', '', ' (end)', '\n'] + (['{}', '{x}', '}'] if r.random() < .5 else []))
    indent = r.choice([None, None, '', '  ', '> '])
    first = r.choice([None, None, '', '* ', '  '])
    if short:
        kw['short'] = True
    if skip:
        kw['skip'] = True
    if maxlen != 10000:
        kw['max_length'] = maxlen
    if append:
        kw['append'] = append
    if indent is not None:
        kw['indent'] = indent
    if first is not None:
        kw['indent_first'] = first
    if up:
        kw['frames_up'] = up

    def level0():
        if up == 0:
            var = v
        misc.print_var('var', **kw)

    def level1():
        if up == 1:
            var = v
        level0()

    def level2():
        if up == 2:
            var = v
        level1()
    detail = {'value': str(v), 'kw': kw}
    try:
        got = capture(level2 if up == 2 else level1 if up == 1 else level0)
    except Exception as e:
        bad('print_var raised %s' % type(e).__name__, exception=short_tb(e), **detail)
    exp = '' if skip else var_text('var', v, short, maxlen, append, indent, first)
    if got != exp:
        bad('print_var: wrong text', got=got, expected=exp, **detail)
    ctx.count('variables printed')
    ctx.count('variables of callers', up > 0)
    ctx.count('short variables', short and not skip)
    ctx.count('skipped variables', skip)
    ctx.count('truncated variables', '...' in exp)
    ctx.count('indented variables', bool(indent or first) and not skip)
    ctx.judged(('print_var', str(v), repr(sorted(kw.items(), key=str))), not skip, lambda: repr(exp)[:300])


class Boom(Exception):
    pass


TIMES = re.compile(r' \((used|elapsed) (\d+\.\d{3}) s\)')


class N(dict):
    def __str__(self):
        return '<n>'


def work(n, x):
    t = misc.FunctionTimer(**n.kw)      # first, so that the arguments are all there is
    ctx, notime = n.ctx, n.kw['notime']
    clock = time.perf_counter if n.kw['walltime'] else time.process_time
    c1 = clock()
    var = n['var']
    last = t.get_elapsed_time()
    ctx.count('timers')
    ctx.count('quiet timers', n['quiet'])
    ctx.count('timers with arguments', n['named'] and not n['quiet'])
    if n['style'] == 'with':
        t.__enter__()
    for s, kid in zip(n['steps'], n['kids']):
        if kid is not None:
            ctx.count('nested timers')
            try:
                work(kid, x + 1)
            except Boom:
                pass
            continue
        if s == 'lap':
            if t.lap() is not t:
                bad('FunctionTimer.lap: does not return the timer')
        elif s == 'lap desc':
            t.lap(desc='some {work}')
        elif s == 'lap var':
            t.lap('var', max_length=30)
        elif s == 'lap short':
            t.lap('var', short=True)
        elif s == 'skip':
            t.lap('var', skip=True)
        elif s == 'print':
            t.print('some text', 1)
        ctx.count('timed laps', not notime)
        now = t.get_elapsed_time()
        if now < last or last < 0:
            bad('FunctionTimer: the elapsed time decreases', before=str(last), after=str(now))
        if now > clock() - n.c0 + 1e-6:
            bad('FunctionTimer: more time than has passed', elapsed=str(now), passed=str(clock() - n.c0))
        last = now
    c2 = clock()
    now = t.get_elapsed_time()
    if not c2 - c1 - 1e-6 <= now <= clock() - n.c0 + 1e-6:
        bad('FunctionTimer: wrong time', elapsed=str(now), least=str(c2 - c1), most=str(clock() - n.c0))
    ctx.count('times verified')
    if n['style'] == 'end':
        t.end(*(('var',) if n['end'] == 'var' else ()), **({'desc': 'done'} if n['end'] == 'desc' else {}))
    elif n['style'] == 'with':
        t.__exit__(None, None, None)
    elif n['style'] == 'fail':
        ctx.count('failed functions')
        t.__exit__(Boom, Boom(), None)
        raise Boom()
    else:
        ctx.count('forgotten ends')
        t.__del__()
    n.live.append(t)


def timers(ctx, r):
    """A random call tree of timed functions; the expected transcript is written at the same time."""
    exp = []
    state = {'depth': len(misc.FunctionTimer.get_indent(1)) // 3 - 1, 'n': 0}
    notime = r.random() < .6
    wall = r.random() < .5
    live = []

    def ind(d):
        return ' ' * (3 * d)

    def node(depth, level):
        state['n'] += 1
        quiet = r.random() < .15
        style = r.choice(['end', 'end', 'end', 'with', 'del', 'fail'])
        named = r.random() < .5
        steps = [r.choice(['lap', 'lap desc', 'lap var', 'print', 'call', 'skip', 'lap short']) for _ in range(r.randint(0, 4))]
        return dict(depth=depth, quiet=quiet, style=style, named=named, steps=steps, kids=[node(depth + 1, level - 1) if s == 'call' and level > 0 else None for s in steps],
                    end=r.choice([None, 'var', 'desc']), args=r.choice([None, None, ['x'], []]), var=a_value(r))

    def stamp():
        return '' if notime else ' (%s TIME s)' % ('elapsed' if wall else 'used')

    def describe(n, d):
        """Expected lines of node n at indent level d."""
        out = []
        f = '(main)' if not n['named'] else 'work'
        v = n['var']
        if not n['quiet']:
            start = ind(d) + '...%s START ' % f
            if n['named']:
                shown = {None: ['n', 'x'], ('x',): ['x'], (): []}[None if n['args'] is None else tuple(n['args'])]
                vals = {'n': '<n>', 'x': str(d)}
                if n['args'] is None or n['args']:
                    start += '(args: %s)' % '; '.join('%s: %s' % (k, vals[k]) for k in shown)
            out.append(start + '\n')
        for s, kid in zip(n['steps'], n['kids']):
            if kid is not None:
                out += describe(kid, d + 1)
                continue
            if n['quiet']:
                continue
            head = ind(d) + '...%s LAP%s' % (f, stamp())
            if s == 'lap':
                out.append(head + '\n')
            elif s == 'lap desc':
                out.append(head + ': some {work}\n')
            elif s == 'lap var':
                out.append(head + ': ' + var_text('var', v, False, 30, '', ind(d + 1), ''))
            elif s == 'lap short':
                out.append(head + ': ' + var_text('var', v, True, 10000, '', ind(d + 1), ''))
            elif s == 'print':
                out.append(indented('some text 1', ind(d + 1)) + '\n')
        if n['style'] == 'end' and not n['quiet']:
            head = ind(d) + '...%s END%s' % (f, stamp())
            if n['end'] is None:
                out.append(head + '\n')
            elif n['end'] == 'desc':
                out.append(head + ': done\n')
            else:
                out.append(head + ': ' + var_text('var', v, False, 10000, '', ind(d + 1), ''))
        return out

    def number(n):
        m = N(n)
        m.ctx, m.live, m.c0 = ctx, live, (time.perf_counter if wall else time.process_time)()
        kw = dict(notime=notime, walltime=wall)
        if n['quiet']:
            kw['quiet'] = True
        if not n['named']:
            kw['is_function'] = False
        elif n['args'] is not None:
            kw['args'] = n['args']
        m.kw = kw
        m['kids'] = [number(k) if k else None for k in n['kids']]
        return m
    root = number(node(0, 2))

    def run():
        try:
            work(root, state['depth'] + 1)
        except Boom:
            pass
    before = len(misc.FunctionTimer.get_indent(1)) // 3 - 1
    c0 = (time.perf_counter if wall else time.process_time)()
    try:
        got = capture(run)
    except Violation:
        raise
    except Exception as e:
        bad('FunctionTimer raised %s' % type(e).__name__, exception=short_tb(e), tree=str(dict(root)))
    exp = ''.join(describe(root, before + 1))
    after = len(misc.FunctionTimer.get_indent(1)) // 3 - 1
    live.clear()
    most = (time.perf_counter if wall else time.process_time)() - c0
    for m in TIMES.finditer(got):
        if float(m.group(2)) > most + .001:
            bad('FunctionTimer: more time printed than has passed', got=got, passed=str(most))
    norm = TIMES.sub(lambda m: ' (%s TIME s)' % m.group(1), got)
    if norm != exp:
        bad('FunctionTimer: wrong transcript', got=got, expected=exp)
    if after != before:
        bad('FunctionTimer: the indent level is %d after and %d before' % (after, before), transcript=got)
    ctx.judged(('timer', exp), bool(exp), lambda: exp[:400])


NAMES = ['a', 'row', 'item', 'ü']
TEXTS = ['x', 'some text', '1 < 2 & 3', 'ü', "it's \"quoted\"", '>', 'a > b < c', 'long ' * 8, 'e' * 100]


def element(r, depth=3):
    attrs = {k: r.choice(TEXTS) for k in r.sample(['id', 'k', 'v'], r.choice([0, 0, 1, 2]))}
    name = r.choice(NAMES)
    if depth == 0 or r.random() < .4:
        return (name, attrs, r.choice([None, r.choice(TEXTS).strip()]), [])
    return (name, attrs, None, [element(r, depth - 1) for _ in range(r.randint(0, 4))])


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def write(e, r):
    name, attrs, text, kids = e
    ws = lambda: r.choice(['', '', '\n', '  ', '\n\t', '\n\n  \n'])
    inner = esc(text) if text else ''.join(ws() + write(k, r) for k in kids) + (ws() if kids else '')
    a = ''.join(' %s="%s"' % (k, esc(v).replace('"', '&quot;')) for k, v in attrs.items())
    if not inner and r.random() < .5:
        return '<%s%s/>' % (name, a)
    return '<%s%s>%s</%s>' % (name, a, inner, name)


def tree(n):
    """(name, attributes, text, kids) of a DOM element, blank texts ignored."""
    text = ''.join(k.data for k in n.childNodes if k.nodeType in (k.TEXT_NODE, k.CDATA_SECTION_NODE)).strip()
    return (n.tagName, dict(n.attributes.items()), text or None, [tree(k) for k in n.childNodes if k.nodeType == k.ELEMENT_NODE])


def strip(e):
    return (e[0], e[1], (e[2] or '').strip() or None, [strip(k) for k in e[3]])


def xml(ctx, r):
    e = element(r)
    enc = None
    text = write(e, r)
    kw = {}
    ind = r.choice(['   ', '  ', '\t', ''])
    if ind != '   ':
        kw['indent_text'] = ind
    tmp = None
    if r.random() < .5:
        enc = r.choice([None, 'utf-8', 'iso-8859-1', 'utf-16', 'us-ascii'])
        doc = ('<?xml version="1.0" encoding="%s"?>' % enc if enc else '') + text
        data = doc.encode(enc or 'utf-8', 'xmlcharrefreplace' if enc == 'us-ascii' and all(ord(c) < 128 for c in re.sub('"[^"]*"|>[^<]*<', '', doc)) else 'strict') if enc != 'us-ascii' or all(
            ord(c) < 128 for c in re.sub('"[^"]*"|>[^<]*<', '', doc)) else None
        if data is None:
            return
        tmp = tempfile.NamedTemporaryFile(suffix='.xml', delete=False)
        tmp.write(data)
        tmp.close()
        src = lambda: tmp.name
        ctx.count('XML paths')
        ctx.count('XML encodings', enc not in (None, 'utf-8'))
    else:
        src = lambda: io.StringIO(text)
    detail = {'document': text, 'encoding': enc, 'kw': kw}

    def call(**more):
        try:
            return exml.xml_to_str(src(), **dict(kw, **more))
        except Exception as ex:
            bad('xml_to_str raised %s' % type(ex).__name__, exception=short_tb(ex), **detail)
    try:
        full = call(truncate=False)
        try:
            back = tree(dom.parseString(full.encode('utf-8')).documentElement)
        except Exception as ex:
            bad('xml_to_str: the text is not XML', got=full, exception=short_tb(ex), **detail)
        if back != strip(e):
            bad('xml_to_str: another document', got=full, **detail)
        if any(not x.strip() for x in full.splitlines()):
            bad('xml_to_str: empty lines', got=full, **detail)
        depth = 0
        for line in full.splitlines()[1:]:
            if line.lstrip().startswith('</'):
                depth -= 1
            if not line.startswith(ind * depth + '<'):
                bad('xml_to_str: wrong indent', line=line, got=full, **detail)
            if re.match(r'\s*<[^/][^<]*[^/<]>$|\s*<[^/<]>$', line) and '</' not in line:
                depth += 1
        ctx.count('XML texts')
        if call(truncate=False) != full:
            bad('xml_to_str: another text for the same document', **detail)
        # truncated lines
        lim = r.choice([95, 95, 20, 40, 8])
        short = call(**({} if lim == 95 else {'max_line_len': lim}))
        exp = []
        for line in full.split('\n'):
            m = re.search('>.*<', line)
            if m and len(m.group()) > lim:
                line = line[:m.start()] + m.group()[:lim - 4] + '...<' + line[m.end():]
                ctx.count('XML truncated')
            exp.append(line)
        exp = '\n'.join(exp)
        if short != exp:
            bad('xml_to_str: wrong truncation', got=short, expected=exp, limit=lim, **detail)
        pre, post = r.choice([(0, 5), (5, 0), (10, 20), (30, 1), (10000, 10000), (40, 40)])
        cut = call(pre_len=pre, post_len=post, max_line_len=10 ** 6)
        if pre and post and len(full) > pre + post:
            exp = full[:pre] + '\n...\n' + full[-post:]
            ctx.count('XML shortened')
        else:
            exp = full
        if cut != exp:
            bad('xml_to_str: wrong beginning and end', got=cut, expected=exp, pre_len=pre, post_len=post, **detail)
    finally:
        if tmp:
            os.unlink(tmp.name)
    ctx.judged(('xml', text, str(kw), enc), True, lambda: full[:300])


def paths(ctx, r):
    parts = [r.choice(['a', 'b c', 'ü', 'x%20y', 'a#b', 'q?r', 'p+q', 'a.b', '~', 'd;e', '100%']) for _ in range(r.randint(1, 4))]
    rel = '/'.join(parts)
    p = rel if r.random() < .4 else '/' + rel
    full = os.path.abspath(p)
    try:
        u = urdf.get_file_url(p)
    except Exception as ex:
        bad('get_file_url raised %s' % type(ex).__name__, path=p, exception=short_tb(ex))
    if not urdf.is_file_url(u):
        bad('get_file_url: no file URL', path=p, url=u)
    x = urllib.parse.urlparse(u)
    if x.scheme != 'file' or x.netloc or x.params or x.query or x.fragment or urllib.request.url2pathname(x.path) != full:
        bad('get_file_url: leads elsewhere', path=p, url=u)
    other = r.choice(['http://a/b', 'file:/a', '/file://', 'FILE', 'file:', '', 'file', ' file://a'])
    if urdf.is_file_url(other):
        bad('is_file_url: wrong answer', url=other)
    ctx.count('file URLs')
    ctx.judged(('url', p), True, lambda: u)


def names(ctx, r):
    m = G.Gen(r).any(2)
    o = L.build(m, r)
    kind = {'A': 'atom.Atom', 'C': 'couplet.Couplet', 'S': 'set.Set', 'M': 'multiset.Multiset'}[m[0]]
    got = misc.get_full_class_name(o)
    if got != 'algebraixlib.mathobjects.' + kind:
        bad('get_full_class_name: wrong name', object=mm.show(m), got=got)
    if misc.get_single_iter_elem([o]) is not o or misc.get_single_iter_elem({o}) is not o:
        bad('get_single_iter_elem: another element', object=mm.show(m))
    ctx.count('class names')
    # writing to paths and files
    text = ''.join(r.choice(['a', 'ü', '\n', '\r\n', '"', '漢']) for _ in range(r.randint(0, 12)))
    b = io.StringIO(newline='')
    misc.write_to_file_or_path(b, lambda f: f.write(text))
    with tempfile.NamedTemporaryFile(delete=False) as t:
        t.write(b'old content that is longer than the new one')
    try:
        misc.write_to_file_or_path(t.name, lambda f: f.write(text))
        with open(t.name, 'rb') as f:
            got = f.read()
    finally:
        os.unlink(t.name)
    if b.getvalue() != text or got != text.encode('utf-8'):
        bad('write_to_file_or_path: other content', text=text, file=repr(got), buffer=b.getvalue())
    ctx.count('files written')
    ctx.judged(('name', m, text), True)


def stopwatch(ctx, r):
    quiet = r.random() < .3
    t0 = time.perf_counter()
    t = misc.PerformanceTimer(quiet=quiet) if r.random() < .7 or quiet else misc.PerformanceTimer()
    t1 = time.perf_counter()
    for _ in range(r.choice([0, 100, 3000])):
        pass
    seen = []
    for _ in range(r.randint(1, 3)):
        msg = r.choice(['', 'x', 'a {b}', '50%', 'ü'])
        t2 = time.perf_counter()
        out = capture((lambda: t.end(msg)) if msg or r.random() < .5 else t.end)
        t3 = time.perf_counter()
        e = t.get_elapsed_time()
        exp = '' if quiet else '%s elapsed time: %.5f seconds\n' % (msg, e)
        if out != exp:
            bad('PerformanceTimer: wrong text', got=out, expected=exp)
        if not seen and not (t2 - t1 <= e <= t3 - t0):
            bad('PerformanceTimer: wrong time', elapsed=repr(e), least=repr(t2 - t1), most=repr(t3 - t0))
        if seen and e != seen[0]:
            bad('PerformanceTimer: the time changes after the end', first=repr(seen[0]), now=repr(e))
        if t.get_end_time - t.get_start_time != e:
            bad('PerformanceTimer: start, end and elapsed time contradict each other', start=repr(t.get_start_time), end=repr(t.get_end_time), elapsed=repr(e))
        seen.append(e)
    ctx.count('stop watches')
    ctx.judged(('stop watch', e), True)


def history(ctx, i):
    r = random.Random('E02/%s/%s' % (ctx.seed, i))
    for f in r.choices([print_var, timers, xml, paths, names, stopwatch], [4, 3, 3, 1, 1, .5], k=6):
        f(ctx, r)
