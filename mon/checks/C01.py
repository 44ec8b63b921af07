"""After every operation, all pooled objects still have the value, hash and text they had when they were created."""
import io
from mon import lib as L
from mon import model as mm
from mon import ops as O
from mon.engine import ALG_PREDS, MEMBERS, PREDS, History, Violation, short_tb
from mon.opcheck import weighted
from mon.model import U

import algebraixlib.import_export.csv as ecsv
import algebraixlib.import_export.mojson as mojson
import algebraixlib.import_export.rdf as erdf
import algebraixlib.util.rdf as urdf
import algebraixlib.util.html as html
import algebraixlib.util.latexprinter as latex
import algebraixlib.util.mathobjectprinter as printer

NEED = ['algebra operations', 'repeated operations', 'snapshots compared', 'predicates', 'lookups', 'comparisons', 'renderings', 'exports', 'iterations', 'slices',
        'structure queries', 'elements of operands', 'mutable arguments', 'rdf operations']
RULE = ('Random histories of everything the library offers over a pool of shared objects. After each step the values (element by element), hashes and texts of all pooled '
        'objects are compared with their snapshots. Non-trivial: step that takes a non-atomic argument; distinct by operation and operands.')


class Snap:
    def __init__(self, pool_entry, r):
        e = pool_entry
        e.hash = hash(e.obj)
        if mm.size(e.model) < 150 and r.random() < .5:
            e.repr = (repr(e.obj), str(e.obj))


def verify(ctx, h, what):
    for e in h.pool:
        if e.hash is None:
            Snap(e, h.rng)
        try:
            now = L.to_model(e.obj)
        except Exception as ex:
            raise Violation('an object was damaged', {'object': mm.show(e.model), 'after': what, 'exception': short_tb(ex), 'trace': h.trace[-30:]})
        if now != e.model:
            raise Violation('an object changed its value', {'was': mm.show(e.model), 'is': mm.show(now), 'after': what, 'born': e.born, 'trace': h.trace[-30:]})
        if hash(e.obj) != e.hash:
            raise Violation('an object changed its hash', {'object': mm.show(e.model), 'after': what, 'trace': h.trace[-30:]})
        if e.repr and h.rng.random() < .1 and (repr(e.obj), str(e.obj)) != e.repr:
            raise Violation('an object changed its text', {'object': mm.show(e.model), 'was': e.repr, 'is': repr(e.obj), 'after': what, 'trace': h.trace[-30:]})
        if e.model[0] == 'M':
            n = sum(x for _, x in e.model[1])
            if e.obj.cardinality != n or len(e.obj) != n:
                raise Violation('a multiset changed its cardinality', {'object': mm.show(e.model), 'after': what})
        ctx.count('snapshots compared')


def step(ctx, h):
    """Perform one thing; return (description, key, nontrivial)."""
    r = h.rng
    k = r.random()
    e = r.choice(h.pool) if h.pool else None
    if k < .45 or e is None:
        op = weighted(r, O.OPS)
        args = h.draw_args(op)
        if args is None:
            return None
        text = h.text(op, args)
        kw = {'_checked': False} if op.checked and r.random() < .3 else {}
        # arguments enter the pool, so that they are watched
        for o, m in args:
            if L.is_val(m) and isinstance(o, L.mo.MathObject) and not any(x.obj is o for x in h.pool):
                h.add(o, m, 'argument')
                for x in h.pool:
                    if x.hash is None:
                        Snap(x, r)
        mut = [(a, dict(a) if isinstance(a, dict) else None) for a, _ in args]
        try:
            res = op.fn(*[a for a, _ in args], **kw)
            got = L.to_model(res)
        except Exception as ex:
            ctx.count('exceptions in operations')
            return text + ' raised', ('raised', op.name), False
        ctx.count('algebra operations')
        for a, old in mut:
            if old is not None and a != old:
                raise Violation('a dict argument was changed', {'call': text})
        if r.random() < .3 and not (op.name.endswith('.some')):
            try:
                again = L.to_model(op.fn(*[a for a, _ in args], **kw))
            except Exception as ex:
                raise Violation('repeating an operation raised %s' % type(ex).__name__, {'call': text, 'exception': short_tb(ex), 'trace': h.trace[-30:]})
            if not (again is got or (L.is_val(got) and L.is_val(again) and again == got)):
                raise Violation('repeating an operation gives another result', {'call': text, 'first': mm.show(got), 'then': mm.show(again)})
            ctx.count('repeated operations')
        if L.is_val(got) and op.out:
            h.add(res, got, text)
        return text, (op.name,) + tuple(m if L.is_val(m) else 0 for _, m in args), any(L.is_val(m) and m[0] != 'A' for _, m in args)
    o, m = e.obj, e.model
    nt = m[0] != 'A'

    def quietly(name, f, kind):
        try:
            f()
            ctx.count(kind)
        except Exception:
            ctx.count('exceptions in ' + kind)
        return '%s of %s' % (name, mm.show(m)[:300]), (name, m), nt
    if k < .55:
        n, f = r.choice(PREDS + ALG_PREDS + MEMBERS)
        return quietly(n, lambda: f(o), 'predicates')
    if k < .66:
        x = h.pick_left(m)[0]
        n, f = r.choice([('call', lambda: o(x)), ('getitem', lambda: o[x]), ('get_left_set', lambda: o.get_left_set()), ('get_right_set', lambda: o.get_right_set()),
                         ('has_element', lambda: o.has_element(x)), ('in', lambda: x in o), ('multiplicity', lambda: o.get_multiplicity(x)), ('raw call', lambda: o('a')),
                         ('missing multiplicity', lambda: o.get_multiplicity(L.mo.Atom('not there'))), ('index of elements', lambda: [y['a'] for y in o])])
        holder = []

        def keep():
            holder.append(f())
        d = quietly(n, keep, 'lookups')
        if holder and isinstance(holder[0], L.mo.MathObject):
            h.add(holder[0], L.to_model(holder[0]), d[0])
        return d
    if k < .72:
        e2 = r.choice(h.pool)
        n, f = r.choice([('<', lambda: o < e2.obj), ('==', lambda: o == e2.obj), ('>=', lambda: o >= e2.obj), ('sorted', lambda: sorted([o, e2.obj])),
                         ('structure', lambda: o.get_ground_set() <= e2.obj.get_ground_set())])
        if n == 'structure':
            return quietly(n, f, 'structure queries')
        return quietly(n, f, 'comparisons')
    if k < .80:
        n, f = r.choice([('repr', lambda: repr(o)), ('str', lambda: str(o)), ('latex', lambda: latex.math_object_to_latex(o)),
                         ('short latex', lambda: latex.math_object_to_latex(o, short=True)), ('mo_to_str', lambda: printer.mo_to_str(o)),
                         ('html', lambda: html.as_html_handle_data_algebra(o)), ('html page', lambda: html.math_object_as_html('t', html.build_descriptors_from_math_obj([o])))])
        return quietly(n, f, 'renderings')
    if k < .86:
        b = io.StringIO()
        ls = sorted({c[1][2] for x in mm.elems(m) if mm.is_rel(x) for c in x[1] if c[1][0] == 'A'}, key=repr) if m[0] in 'SM' else []
        n, f = r.choice([('export_csv', lambda: ecsv.export_csv(o, b)), ('export_csv lefts', lambda: ecsv.export_csv(o, b, ordered_lefts=ls)),
                         ('export_csv sorted', lambda: ecsv.export_csv(o, b, ordered_lefts=ls, sort_key=repr)),
                         ('mojson', lambda: __import__('json').dumps(o, cls=mojson.ExportJson)),
                         ('export_table', lambda: erdf.export_table(b, o, lefts=ls or None))])
        return quietly(n, f, 'exports')
    if k < .90:
        if m[0] not in 'SM':
            return None

        def it():
            i = iter(o)
            for _ in range(r.randint(0, 5)):
                next(i, None)
            if r.random() < .5:
                list(i)
            # views handed out by accessors may be read by callers
            list(getattr(o, 'data', ()))
        return quietly('iterate', it, 'iterations')
    if k < .94:
        o2, m2 = h.pick('mclan')
        lt = r.choice([lambda a, b: L.mo.Atom(repr(a) < repr(b)), lambda a, b: L.mo.Atom(len(a) < len(b))])
        tot = sum(n for _, n in m2[1])
        off, lim = L.mo.Atom(r.randint(0, tot + 1)), L.mo.Atom(r.choice([float('inf'), r.randint(0, tot + 1)]))
        f = r.choice([lambda: h.add(*_mod(L.multiclans.order_slice(o2, lt, off, lim)), 'slice'), lambda: list(L.multiclans.order_slice_to_listgen(o2, lt, off, lim)),
                      lambda: list(L.multiclans.multiclan_to_listgen(o2, off, lim))])
        return quietly('slice of ' + mm.show(m2), f, 'slices')
    if k < .97:
        c1, c2 = h.pick('clan'), h.pick('clan')
        f = r.choice([lambda: urdf.join(c1[0], c2[0]), lambda: urdf.match_and_project(c1[0], {'s': 'a'}, {'o': 'x'}), lambda: urdf.triple_match(c1[0], '?s', '?p', '?o'),
                      lambda: urdf.is_graph(c1[0]), lambda: urdf.add(c1[0], '?a', '?b', '?c')])
        return quietly('rdf operation on %s' % mm.show(c1[1])[:200], f, 'rdf operations')
    # objects built from mutable arguments must not follow later changes of these
    es = [L.build(h.gen.comp(), r) for _ in range(3)]
    kind = r.choice(['set', 'list', 'dict', 'counter', 'data'])
    if kind == 'set':
        src = set(es)
        n = L.mo.Set(src, direct_load=r.random() < .5)
        m3 = L.to_model(n)
        src.add(L.mo.Atom('later'))
    elif kind == 'list':
        n = L.mo.Multiset(es, direct_load=r.random() < .5)
        m3 = L.to_model(n)
        es.append(L.mo.Atom('later'))
    elif kind == 'dict':
        src = {x: 2 for x in es}
        n = L.mo.Multiset(src)
        m3 = L.to_model(n)
        src[L.mo.Atom('later')] = 3
        src[es[0]] = 7
    elif kind == 'counter':
        import collections
        src = collections.Counter(es)
        n = L.mo.Multiset(src, direct_load=r.random() < .5)
        m3 = L.to_model(n)
        src[es[0]] += 5
    else:
        src = {'a': 1, 'b': 2}
        n = L.relations.from_dict(src)
        m3 = L.to_model(n)
        src['c'] = 3
    if L.to_model(n) != m3:
        raise Violation('an object follows changes of the %s it was built from' % kind, {'was': mm.show(m3), 'is': mm.show(L.to_model(n))})
    ctx.count('mutable arguments')
    h.add(n, m3, 'built from ' + kind)
    return 'mutable %s' % kind, ('mutable', m3), True


def _mod(o):
    return o, L.to_model(o)


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    cap = r.choice([6, 12, 18])
    for _ in range(h.steps(60)):
        if r.random() < .15 and h.pool:
            # watch elements of existing objects as objects of their own
            e = r.choice(h.pool)
            subs = [e.obj.left, e.obj.right] if e.model[0] == 'C' else list(e.obj.data) if e.model[0] in 'SM' else []
            if subs:
                s = r.choice(subs)
                h.add(s, L.to_model(s), 'element of ' + mm.show(e.model)[:100])
                ctx.count('elements of operands')
        while len(h.pool) > cap:
            del h.pool[r.randrange(len(h.pool))]
        for e in h.pool:
            if e.hash is None:
                Snap(e, r)
        d = step(ctx, h)
        if d is None:
            continue
        text, key, nt = d
        h.log(text)
        verify(ctx, h, text)
        ctx.judged(key, nt, lambda: text[:300])
