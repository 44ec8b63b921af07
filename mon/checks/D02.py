"""export_csv writes every row; importing the file again gives the exported object back."""
import io
import os
import tempfile
from mon import csvtext as T
from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon.engine import History, Violation, short_tb

import algebraixlib.import_export.csv as ecsv

NEED = ['clans', 'multiclans', 'regular', 'irregular with lefts', 'refused', 'refused without absolute member', 'given lefts', 'sorted rows', 'empty cells', 'paths', 'round trips', 'empty objects',
        'quoted cells', 'results of operations', 'mixed lefts', 'repeated rows']
RULE = ('Random absolute clans and multiclans (fresh, aged, results of operations) are exported with all combinations of options; the text is parsed by our own parser and compared with the rows, and '
        'imported again. Other objects must be refused without output. Non-trivial: at least one cell; distinct by object and options.')
TYPES = ['str', 'int', 'float', 'bool', 'tuple']
CONV = {'str': str, 'int': int, 'float': float, 'bool': lambda s: {'True': True, 'False': False}[s],
        'tuple': lambda s: __import__('ast').literal_eval(s)}


def value(r, ty):
    if ty == 'str':
        return r.choice(T.TEXTS)
    if ty == 'int':
        return r.choice([0, 1, -1, 2, 7, 10 ** 25, r.randint(-99, 99)])
    if ty == 'float':
        return r.choice([0.5, -1.25, 1e300, 1e-7, 3.0, 0.1, 1 / 3, float('inf')])
    if ty == 'bool':
        return r.random() < .5
    return r.choice([('t', 1), (1, 2), ('a', ('b', None))])


def tab(h):
    """(model, column types or None)."""
    r = h.rng
    n = r.choice([1, 1, 2, 2, 3, 4])
    if r.random() < .75:
        lefts = r.sample([x for x in T.NAMES], n)
    else:
        lefts = r.sample([1, 'a', 2.5, ('t', 1), 'b', 7, -3, b'x', None, frozenset([1]), True] if r.random() < .5 else [3, 1, 10, -2, 0, 25], n)
        if len({x for x in lefts}) < len(lefts):
            lefts = lefts[:1]
        if {type(x) for x in lefts} != {type(lefts[0])}:
            h.count('mixed lefts')
    types = {l: r.choice(TYPES) for l in lefts}
    regular = r.random() < .6
    rels = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 6]) if r.random() < .98 else r.randint(100, 400)):
        cs = []
        for l in lefts:
            if not regular and r.random() < .25:
                continue
            cs.append(mm.C(mm.A(l), mm.A(value(r, types[l]))))
            if not regular and r.random() < .1:
                cs.append(mm.C(mm.A(l), mm.A(value(r, types[l]))))
        rels.append(mm.S(cs))
    if r.random() < .5:
        return mm.S(rels), lefts, types
    return mm.M({x: r.choice([1, 1, 2, 3]) for x in rels}), lefts, types


def rel_right(rel, l):
    """The text that stands for the value of rel at left l."""
    rs = [c[2] for c in rel[1] if c[1] == l]
    if len(rs) != 1:
        return ''
    v = rs[0][2]
    return '' if v is None else str(v)


def order(rel):
    return sorted(mm.show(c) for c in rel[1])


def one(ctx, h, tmp):
    r = h.rng
    k = r.random()
    types = None
    lefts = None
    if k < .7:
        m, lefts, types = tab(h)
        o = L.build(m, r)
        how = 'fresh'
        if r.random() < .4:
            h.add(o, m, 'table')
            for _ in range(3):
                h.age()
            how = 'aged'
    elif k < .85:
        op = r.choice([x for x in O.OPS if x.fam in ('A03', 'A05')])
        args = h.draw_args(op)
        if args is None:
            return
        try:
            o = h.call(op, args)
            m = L.to_model(o)
            exp = op.model(*[a for _, a in args])
        except Exception:
            ctx.count('exceptions in operations')
            return
        if not L.is_val(m) or m != exp:
            return
        how = 'result of ' + h.text(op, args)[:300]
        ctx.count('results of operations')
    else:
        o, m = h.pick(r.choice(['mo', 'set', 'rel', 'mset', 'sos', 'clan', 'mclan']))
        how = 'pooled'
    if L.is_val(m) and m[0] == 'M' and sum(n for _, n in m[1]) > 3000:
        return
    absolute = m != U_ and (mm.is_clan(m) or mm.is_mclan(m)) and mm.is_abs(m)
    rels = list(mm.elems(m)) if absolute else []
    if lefts is None and absolute:
        lefts = sorted((l[2] for l in {c[1] for x in rels for c in x[1]}), key=repr)
    if absolute and len({l for l in lefts}) < len(lefts):
        return      # lefts that are equal as Python values (1 and True): see equal_lefts
    kw = {}
    given = None
    if r.random() < .5 and lefts is not None:
        given = r.sample(lefts, r.randint(0 if not lefts else 1, len(lefts)))
        if r.random() < .15:
            given.append('no such left')
        kw['ordered_lefts'] = tuple(given) if r.random() < .3 else given
    if r.random() < .3:
        kw['sort_key'] = lambda rel: order(L.to_model(rel))
    if absolute and m not in (mm.E, mm.EM):
        regular = (mm.clans_regular(rels))
    else:
        regular = True
    must = absolute and (given is not None or regular)
    if m in (mm.E, mm.EM):
        ctx.count('empty objects')
    detail = {'object': mm.show(m)[:2000], 'how': how, 'options': repr(kw), 'trace': h.trace[-15:]}
    path = os.path.join(tmp, 'out.csv')
    if os.path.exists(path):
        os.remove(path)
    way = r.choice(['buffer', 'path', 'writer'])
    if way == 'path' and r.random() < .3:
        with open(path, 'w') as f:
            f.write('old contents, longer than the new ones ' * 100 if must else '')
        if not must:
            os.remove(path)
    parts = []

    class Writer:
        def write(self, s):
            parts.append(s)
            return len(s)
    buf = io.StringIO(newline='')
    try:
        res = ecsv.export_csv(o, {'buffer': buf, 'path': path, 'writer': Writer()}[way], **kw)
    except Exception as ex:
        raise Violation('export_csv raised %s' % type(ex).__name__, dict(detail, exception=short_tb(ex)))
    if way == 'path':
        ctx.count('paths')
        text = None
        if os.path.exists(path):
            with open(path, encoding='utf-8', newline='') as f:
                text = f.read()
    else:
        text = buf.getvalue() or ''.join(parts)
    if L.to_model(o) != m:
        raise Violation('export_csv changed its argument', detail)
    if not must:
        if res is not False or text:
            raise Violation('export_csv did not refuse', dict(detail, returned=repr(res), text=text))
        ctx.count('refused')
        if not absolute:
            ctx.count('refused without absolute member')
        ctx.judged(('refused', m), True)
        return
    if res is not True:
        raise Violation('export_csv refused', dict(detail, returned=repr(res)))
    detail['text'] = text[:2000]
    cols = list(given) if given is not None else [a[2] for a in sort_atoms(lefts if m not in (mm.E, mm.EM) else [])]
    if given is None and rels:
        own = {c[1] for c in rels[0][1]}
        cols = [a[2] for a in sort_atoms([l[2] for l in own])]
    try:
        rows = T.parse(text)
    except ValueError as ex:
        raise Violation('export_csv writes malformed CSV', dict(detail, error=str(ex)))
    want = []
    for x in rels:
        n = dict(m[1])[x] if m[0] == 'M' else 1
        want += [(x, [rel_right(x, mm.A(l)) for l in cols])] * n
    head = ['' if c is None else str(c) for c in cols] or ['']
    if not rows or rows[0] != head:
        raise Violation('export_csv: wrong header', dict(detail, expected=head, got=rows[:1]))
    exp_rows = [w or [''] for _, w in want]
    if 'sort_key' in kw:
        want.sort(key=lambda t: order(t[0]))
        exp_rows = [w or [''] for _, w in want]
        if rows[1:] != exp_rows:
            raise Violation('export_csv: wrong rows or order', dict(detail, expected=exp_rows[:20], got=rows[1:20]))
        ctx.count('sorted rows')
    elif sorted(rows[1:]) != sorted(exp_rows):
        raise Violation('export_csv: wrong rows', dict(detail, expected=sorted(exp_rows)[:20], got=sorted(rows[1:])[:20]))
    ctx.count('clans' if m[0] == 'S' else 'multiclans')
    ctx.count('regular' if regular else 'irregular with lefts')
    if given is not None:
        ctx.count('given lefts')
    if any('' in w for w in exp_rows):
        ctx.count('empty cells')
    if '"' in text:
        ctx.count('quoted cells')
    if m[0] == 'M' and any(n > 1 for _, n in m[1]):
        ctx.count('repeated rows')
    ctx.judged(('export', m, repr(sorted(kw)), tuple(map(repr, cols))), bool(exp_rows) and bool(cols), lambda: '%s -> %r' % (mm.show(m)[:200], text[:200]))
    # back again
    if not types or not cols or not all(isinstance(c, str) for c in cols) or any(c not in types for c in cols):
        return
    if any('' == c[2][2] for x in rels for c in x[1]):
        return
    conv = {c: CONV[types[c]] for c in cols}
    back = {}
    for x, _ in want:
        y = mm.S(c for c in x[1] if c[1][2] in cols and len([d for d in x[1] if d[1] == c[1]]) == 1)
        back[y] = back.get(y, 0) + 1
    exp = mm.M(back) if m[0] == 'M' else mm.S(back)
    try:
        src = path if way == 'path' else io.StringIO(text, newline='')
        again = ecsv.import_csv(src, types=conv, has_dup_rows=m[0] == 'M')
        got = L.to_model(again)
    except Exception as ex:
        raise Violation('importing the export raised %s' % type(ex).__name__, dict(detail, exception=short_tb(ex)))
    if got != exp:
        raise Violation('importing the export gives another object', dict(detail, expected=mm.show(exp)[:2000], got=mm.show(got)[:2000]))
    if exp == m and not (again == o and o == again and hash(again) == hash(o)):
        raise Violation('the imported object does not equal the exported one', detail)
    ctx.count('round trips')


U_ = mm.U


def sort_atoms(vals):
    """Sorted by value where these are comparable, else in the library's order of atoms."""
    try:
        return [mm.A(v) for v in sorted(vals)] if len({type(v) for v in vals}) < 2 else [mm.A(a.value) for a in sorted(map(L.mo.Atom, vals))]
    except TypeError:
        return [mm.A(a.value) for a in sorted(map(L.mo.Atom, vals))]


def equal_lefts(ctx):
    """Different lefts whose values are equal for Python (known finding)."""
    o = L.mo.Set(L.mo.Set(L.mo.Couplet(1, 'a'), L.mo.Couplet(True, 'b')))
    buf = io.StringIO(newline='')
    ecsv.export_csv(o, buf, ordered_lefts=[1, True])
    if T.parse(buf.getvalue()) != [['1', 'True'], ['a', 'b']]:
        ctx.finding('csv-equal-lefts', "export_csv({{(1->'a'), (True->'b')}}, lefts 1 and True) writes %r" % buf.getvalue())


def history(ctx, i):
    if i % 100 == 0:
        equal_lefts(ctx)
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(15):
            one(ctx, h, tmp)
