"""A CSV writer and parser (RFC 4180) of our own, so that the tables are known without the csv module."""


def cell(s, rng=None, force=False):
    if force or any(c in s for c in ',"\n\r') or (rng is not None and rng.random() < .2):
        return '"' + s.replace('"', '""') + '"'
    return s


def line(cells, rng=None):
    out = [cell(c, rng) for c in cells]
    if len(out) == 1 and out[0] == '':
        out = ['""']
    return ','.join(out)


def parse(text):
    """List of rows of cells. Raises ValueError for malformed text."""
    rows, row, i, n = [], [], 0, len(text)
    if not text:
        return rows
    while True:
        # one cell
        if i < n and text[i] == '"':
            i += 1
            buf = []
            while True:
                if i >= n:
                    raise ValueError('unterminated quote')
                if text[i] == '"':
                    if text[i + 1:i + 2] == '"':
                        buf.append('"')
                        i += 2
                        continue
                    i += 1
                    break
                buf.append(text[i])
                i += 1
            row.append(''.join(buf))
            if i < n and text[i] not in ',\r\n':
                raise ValueError('text after a quoted cell')
        else:
            j = i
            while j < n and text[j] not in ',\r\n':
                if text[j] == '"':
                    raise ValueError('quote within an unquoted cell')
                j += 1
            row.append(text[i:j])
            i = j
        if i >= n:
            rows.append(row)
            return rows
        if text[i] == ',':
            i += 1
            continue
        if text[i] == '\r':
            if text[i + 1:i + 2] != '\n':
                raise ValueError('carriage return outside of quotes')
            i += 2
        else:
            i += 1
        rows.append(row)
        row = []
        if i >= n:
            return rows


TEXTS = ['a', 'b', 'c', 'foo', 'x y', ' lead', 'trail ', 'a,b', 'say "hi"', '"', '""', 'two\nlines', 'cr\r\nlf', 'cr\ronly', "it's", 'ü', '日本', '\U0001F600', '0', '1', '-1', '1.5', 'True',
         'None', 'null', ';', '\t', 'tab\tin', '#', '\\', 'a\\b', '%s', '{0}', 'e\u0301', '1e5', ' ', 'NaN', "'", '\u2028', '\x85', 'x' * 300, '\x1c', '\x0b']
NAMES = ['a', 'b', 'c', 'id', 'name', 'x y', 'a,b', 'q"q', 'ü', '1', 'A', ' b', 'two\nlines', "it's", 'row', '日', 'subj', 'obj', '']
