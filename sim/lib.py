"""Shared by the properties: describing groups on the simulated disk and reading them back."""
import datetime
import json
import random

from . import gen, model

ENC = {'UTF-8-BOM': 'utf-8-sig', 'UTF-8': 'utf-8', 'utf8': 'utf-8'}


def encoding(d):
    e = (d or {}).get('encoding', 'utf-8')
    return ENC.get(e, e)


def delimiter(d):
    return (d or {}).get('delimiter', ',')


def quote(d):
    return (d or {}).get('quoteChar', '"')


def has_header(d):
    return (d or {}).get('header', True)


def norm(x):
    """Lists and tuples alike, as after a JSON round trip."""
    return json.loads(json.dumps(x))


def put_md(w, g, name='md.json'):
    p = w.data / name
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_text(json.dumps(model.group_json(g)), encoding='utf-8')
    return p


def items(t, form='dict', shuffle=None):
    """The rows as a user may pass them to Table.write."""
    res = []
    rng = random.Random(shuffle)
    for k, row in enumerate(t['rows']):
        f = form if form != 'mixed' else rng.choice(['dict', 'list', 'tuple', 'shuffled', 'sparse'])
        if f == 'list':
            res.append(model.row_list(t, row))
        elif f == 'tuple':
            res.append(tuple(model.row_list(t, row)))
        elif f == 'shuffled':
            res.append(model.row_dict(t, row, order=rng))
        elif f == 'sparse':
            res.append(model.row_dict(t, row, order=rng, drop_none=True))
        else:
            res.append(model.row_dict(t, row))
    return res


def raw(t, d, lineterminator=None, quoteall=False):
    """The table as bytes, rendered independently of the library (simple datatypes only)."""
    rows = [[model.render(c, x) for c, x in zip(t['columns'], row)] for row in t['rows']]
    if has_header(d):
        rows = [[model.header(c, i) for i, c in enumerate(t['columns'])]] + rows
    quoteall = quoteall or delimiter(d) == ' '
    text = gen.serialise(rows, delimiter(d), quote(d), lineterminator or '\r\n', quoteall=quoteall)
    return text.encode(encoding(d))


def read_group(path):
    """In a victim: {table: rows in canonical form}"""
    from csvw import TableGroup
    tg = TableGroup.from_file(path)
    return norm({t.local_name: [model.canon_row(r) for r in t.iterdicts()] for t in tg.tables})


def expected_group(g):
    return norm({t['url']: model.expected_rows(t) for t in g['tables']})


def first_diff(a, b, path=''):
    """Where two JSON values differ, for messages."""
    if type(a) is not type(b):
        return '%s: %r != %r' % (path, str(a)[:200], str(b)[:200])
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return '%s.%s: only on one side' % (path, k)
            if a[k] != b[k]:
                return first_diff(a[k], b[k], '%s.%s' % (path, k))
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, '%s[%d]' % (path, i))
        if len(a) != len(b):
            return '%s: %d != %d items' % (path, len(a), len(b))
    return '%s: %r != %r' % (path, str(a)[:300], str(b)[:300])


DIALECT_DEFAULTS = {'encoding': 'utf-8', 'quoteChar': '"', 'doubleQuote': True, 'skipRows': 0, 'commentPrefix': '#', 'header': True,
                    'headerRowCount': 1, 'delimiter': ',', 'skipColumns': 0, 'skipBlankRows': False, 'skipInitialSpace': False, 'trim': 'false'}


def _duration(s):
    import isodate
    if not s.startswith('P'):
        raise ValueError(s)
    return isodate.duration_isoformat(isodate.parse_duration(s))


def _bound(b):
    b = str(b)
    for parse in (float, lambda s: datetime.time.fromisoformat(s).isoformat(),
                  _duration):
        try:
            return parse(b)
        except ValueError:
            pass
    return b


def canon_doc(x, key=None):
    """Metadata JSON in a canonical form: what means the same to every reader of metadata is equal."""
    if key == 'dialect' and isinstance(x, dict):
        d = {k: v for k, v in x.items() if not (k in DIALECT_DEFAULTS and v == DIALECT_DEFAULTS[k] and type(v) is type(DIALECT_DEFAULTS[k]))}
        if 'trim' in d:
            d['trim'] = str(d['trim']).lower()
            if d['trim'] == 'false':
                del d['trim']
        lt = d.get('lineTerminators')
        if lt is not None:
            d['lineTerminators'] = [lt] if isinstance(lt, str) else lt
            if d['lineTerminators'] == ['\r\n', '\n']:
                del d['lineTerminators']
        return d
    if isinstance(x, dict):
        res = {}
        for k, v in x.items():
            if ':' in k or k.startswith('@'):
                res[k] = v
                continue
            if k == 'datatype':
                v = {'base': v} if isinstance(v, str) else dict(v)
                v.setdefault('base', 'string')
                v = {a: _bound(b) if a in ('minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive') else b for a, b in v.items() if b is not None}
                if v == {'base': 'string'}:
                    continue
            elif k == 'null':
                v = v if isinstance(v, list) else [v]
                if v == ['']:
                    continue
            elif k == 'titles':
                if not isinstance(v, dict):
                    v = {'und': v}
                v = {a: b if isinstance(b, list) else [b] for a, b in v.items()}
            elif k in ('columnReference', 'primaryKey', 'rowTitles'):
                v = v if isinstance(v, list) else [v]
            elif k == 'notes':
                pass
            else:
                v = canon_doc(v, k)
            if k != 'dialect' and (v is None or v is False or v == [] or v == {}):
                continue
            res[k] = v
        return res
    if isinstance(x, list):
        return [canon_doc(v, key) for v in x]
    return x
