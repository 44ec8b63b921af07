"""import_csv yields exactly the table that the file holds."""
import io
import os
import tempfile
import threading
from mon import csvtext as T
from mon import lib as L
from mon import model as mm
from mon.engine import History, Violation, pred_truth, short_tb

import algebraixlib.import_export.csv as ecsv

NEED = ['string buffers', 'paths', 'file objects', 'duplicate rows', 'multiclans', 'index columns', 'skipped rows', 'given columns', 'types', 'missing cells', 'short rows', 'blank lines',
        'quoted line breaks', 'regular', 'irregular', 'empty tables', 'nested imports', 'concurrent imports', 'column missing everywhere', 'big tables']
RULE = ('Random tables written by our own CSV writer in varied dialects (quoting, line ends, blank lines, preambles) and imported with all combinations of options; the result is compared with the table. '
        'Non-trivial: at least one row; distinct by text and options.')


def table(r, big=False):
    """(columns, rows): rows are lists of str, possibly shorter than columns."""
    n = r.choice([1, 1, 2, 2, 3, 4, 6])
    cols = r.sample(T.NAMES, n)
    pool = [r.choice(T.TEXTS) for _ in range(r.choice([1, 2, 3, 6]))]
    hole = r.choice([0, 0, 0, .1, .4])
    numeric = {c for c in cols if r.random() < .25}
    gone = {c for c in cols if r.random() < .08}
    rows = []
    for _ in range(r.randint(200, 1500) if big else r.choice([0, 1, 1, 2, 3, 5, 9])):
        row = []
        for c in cols:
            if c in gone or r.random() < hole:
                row.append('')
            elif c in numeric:
                row.append(r.choice(['1', '01', '2', '-3', '7', '10000000000000000000000']))
            else:
                row.append(r.choice(pool))
        rows.append(row)
        if rows and r.random() < .15:
            rows.append(list(r.choice(rows)))
    for row in rows:
        while len(row) > 1 and row[-1] == '' and r.random() < .5:
            row.pop()
    return cols, rows, numeric


class Case:
    def __init__(self, ctx, r, big=False):
        self.r = r
        self.cols, self.rows, numeric = table(r, big)
        if any(len(x) < len(self.cols) for x in self.rows):
            ctx.count('short rows')
        eol = r.choice(['\n', '\r\n'])
        blank = r.choice([0, 0, .2])
        kw = {}
        self.pre = []
        if r.random() < .3:
            self.pre = [r.choice(['preamble', '"unclosed', 'a,b,c', '', '#', '1,"x']) for _ in range(r.randint(1, 3))]
            kw['skip_rows'] = len(self.pre)
            ctx.count('skipped rows')
        lines = []
        given = r.random() < .3
        data = self.rows
        if given:
            kw['columns'] = list(self.cols) if r.random() < .7 else tuple(self.cols)
            if r.random() < .5:
                kw['columns'] = list(kw['columns'])
            ctx.count('given columns')
        else:
            lines.append(T.line(self.cols, r))
        for row in data:
            if r.random() < blank:
                lines.append('')
                ctx.count('blank lines')
            lines.append(T.line(row, r))
        self.text = eol.join(self.pre + lines) + (eol if r.random() < .7 or not lines else '')
        if any('\n' in c for row in data for c in row):
            ctx.count('quoted line breaks')
        conv = {}
        if r.random() < .4:
            for c in self.cols:
                if c in numeric:
                    conv[c] = r.choice([int, float, lambda s: int(s) % 2 == 0, lambda s: s])
                elif r.random() < .3:
                    conv[c] = r.choice([str.upper, len, lambda s: (s, 1), str.strip, lambda s: L.mo.Atom(s + '!'), lambda s: None])
            if r.random() < .3:
                conv['no such column'] = int
            kw['types'] = conv
            ctx.count('types')
        index = None
        dup = False
        if r.random() < .2:
            index = kw['index_column'] = r.choice(['row', 'index', r.choice(self.cols)])
            ctx.count('index columns')
        elif r.random() < .45:
            dup = kw['has_dup_rows'] = True
            ctx.count('multiclans')
        self.kw = kw
        rels = []
        for i, row in enumerate(data):
            d = {}
            for c, v in zip(self.cols, row):
                if v != '':
                    d[c] = conv[c](v) if c in conv else v
            if len(d) < len(self.cols):
                ctx.count('missing cells')
            if index is not None:
                d[index] = i
            rels.append(mm.S(mm.C(mm.A(c), mm.A(v.value if isinstance(v, L.mo.Atom) else v)) for c, v in d.items()))
        if len(set(rels)) < len(rels):
            ctx.count('duplicate rows')
        if dup:
            cnt = {}
            for x in rels:
                cnt[x] = cnt.get(x, 0) + 1
            self.expected = mm.M(cnt)
        else:
            self.expected = mm.S(rels)
        if not rels:
            ctx.count('empty tables')
        if rels and len(self.cols) > 1 and any(all(len(row) <= j or row[j] == '' for row in data) for j in range(len(self.cols))):
            ctx.count('column missing everywhere')

    def run(self, ctx, way, tmp, name='t'):
        if way == 'buffer':
            ctx.count('string buffers')
            return ecsv.import_csv(io.StringIO(self.text, newline=''), **self.kw)
        p = os.path.join(tmp, name + '.csv')
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(self.text)
        if way == 'path':
            ctx.count('paths')
            return ecsv.import_csv(p, **self.kw)
        ctx.count('file objects')
        with open(p, encoding='utf-8', newline='') as f:
            return ecsv.import_csv(f, **self.kw)

    def detail(self, way):
        return {'text': self.text[:3000], 'options': repr(self.kw), 'source': way, 'expected': mm.show(self.expected)[:3000]}

    def judge(self, ctx, res, way):
        d = self.detail(way)
        try:
            got = L.to_model(res)
            flags = list(L.check_flags(res, got))
            reg = L.properties.is_regular(res)
        except Exception as ex:
            raise Violation('using the imported object raised %s' % type(ex).__name__, dict(d, exception=short_tb(ex)))
        if got != self.expected:
            raise Violation('import_csv: wrong result', dict(d, got=mm.show(got)[:3000]))
        if flags:
            raise Violation('import_csv: the result remembers something false', dict(d, flag=repr(flags[0][1:])))
        t = pred_truth('is_regular', got)
        if reg is not t:
            raise Violation('import_csv: the result states regularity wrongly', dict(d, got=str(reg), truth=str(t)))
        ctx.count('regular' if reg else 'irregular')
        ctx.judged((self.text, repr(sorted(self.kw))), bool(self.expected[1]), lambda: 'import_csv(%r, %r) = %s' % (self.text[:150], sorted(self.kw), mm.show(got)[:200]))


def attempt(ctx, case, way, tmp, name='t'):
    try:
        return case.run(ctx, way, tmp, name)
    except Exception as ex:
        raise Violation('import_csv raised %s' % type(ex).__name__, dict(case.detail(way), exception=short_tb(ex)))


def history(ctx, i):
    h = History(ctx.prop, ctx.seed, i, ctx.counters)
    r = h.rng
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(12):
            case = Case(ctx, r, r.random() < .01)
            if len(case.rows) >= 200:
                ctx.count('big tables')
            way = r.choice(['buffer', 'buffer', 'path', 'file'])
            if r.random() < .05 and case.rows:
                # importing another table from within a type conversion
                inner = Case(ctx, r)
                c = r.choice(case.cols)
                old = case.kw.get('types', {})
                f = old.get(c, lambda s: s)
                seen = []

                def nested(s, f=f):
                    seen.append(ecsv.import_csv(io.StringIO(inner.text, newline=''), **inner.kw))
                    return f(s)
                case.kw['types'] = dict(old)
                case.kw['types'][c] = nested
                case.judge(ctx, attempt(ctx, case, way, tmp), way + ' with a nested import')
                for x in seen:
                    inner.judge(ctx, x, 'nested import')
                    ctx.count('nested imports')
                continue
            if r.random() < .05:
                cases = [Case(ctx, r) for _ in range(3)]
                out = [None] * 3

                def work(j):
                    try:
                        out[j] = ('ok', [cases[j].run(ctx, 'buffer', tmp) for _ in range(3)])
                    except Exception as ex:
                        out[j] = ('raised', ex)
                ts = [threading.Thread(target=work, args=(j,)) for j in range(3)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                for j in range(3):
                    if out[j][0] == 'raised':
                        raise Violation('concurrent import_csv raised %s' % type(out[j][1]).__name__, dict(cases[j].detail('threads'), exception=short_tb(out[j][1])))
                    for x in out[j][1]:
                        cases[j].judge(ctx, x, 'threads')
                ctx.count('concurrent imports')
                continue
            case.judge(ctx, attempt(ctx, case, way, tmp), way)
            if r.random() < .1:
                case.judge(ctx, attempt(ctx, case, 'buffer', tmp), 'again')
