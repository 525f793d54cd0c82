"""
Reference model of described data: generators of datatypes, literals, tables and groups, and what the
library must make of them. Values appear in scenarios as JSON literals; `decode` turns them into the
Python objects a user passes in, `canon` turns objects into comparable, JSON-able form.
"""
import base64
import collections
import datetime
import decimal
import json
import math
import re
import urllib.parse

from . import gen

STRINGS = ['any', 'string', 'NMTOKEN', 'normalizedString', 'QName', 'gDay', 'gMonth', 'gMonthDay', 'gYear', 'gYearMonth',
           'xml', 'html']
INTS = {
    'integer': (None, None), 'int': (None, None), 'long': (-2**63, 2**63 - 1), 'short': (-2**15, 2**15 - 1),
    'byte': (-128, 127), 'unsignedInt': (0, 2**32 - 1), 'unsignedShort': (0, 65535), 'unsignedLong': (0, 2**64 - 1),
    'unsignedByte': (0, 255), 'nonNegativeInteger': (0, None), 'positiveInteger': (1, None),
    'nonPositiveInteger': (None, 0), 'negativeInteger': (None, -1)}
DATE_PATTERNS = ["yyyy-MM-dd", "yyyyMMdd", "dd-MM-yyyy", "d-M-yyyy", "MM-dd-yyyy", "M-d-yyyy", "dd/MM/yyyy", "d/M/yyyy",
                 "MM/dd/yyyy", "M/d/yyyy", "dd.MM.yyyy", "d.M.yyyy", "MM.dd.yyyy", "M.d.yyyy"]
TIME_PATTERNS = ["HH:mm:ss", "HHmmss", "HH:mm", "HHmm"]


def base_of(dt):
    return 'string' if dt is None else (dt if isinstance(dt, str) else dt.get('base', 'string'))


# -- values ---------------------------------------------------------------------------------------
def decode(base, lit):
    if lit is None:
        return None
    if base in ('base64Binary', 'binary', 'hexBinary'):
        return bytes.fromhex(lit)
    if base == 'decimal':
        return decimal.Decimal(lit)
    if base in ('float', 'number', 'double'):
        return float(lit)
    if base in ('datetime', 'dateTime', 'date', 'dateTimeStamp', 'time'):
        return datetime.datetime.fromisoformat(lit)
    if base in ('duration', 'dayTimeDuration', 'yearMonthDuration'):
        import isodate
        return isodate.parse_duration(lit)
    return lit


def value(col, lit):
    if col.get('separator') and lit is not None:
        return [decode(base_of(col.get('datatype')), x) for x in lit]
    return decode(base_of(col.get('datatype')), lit)


def canon(v):
    """A comparable, JSON-able form of a value: equal iff type and value are equal."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return ['int', str(v)]
    if isinstance(v, float):
        return ['float', repr(v)]
    if isinstance(v, decimal.Decimal):
        return ['decimal', 'NaN' if v.is_nan() else str(v) if v.is_infinite() else format(v.normalize() if v else decimal.Decimal(0), 'f')]
    if isinstance(v, bytes):
        return ['bytes', v.hex()]
    if isinstance(v, datetime.datetime):
        off = v.utcoffset()
        return ['datetime', v.replace(tzinfo=None).isoformat(), None if off is None else off.total_seconds()]
    if isinstance(v, datetime.timedelta):
        return ['duration', 0, '0', v.days, v.seconds, v.microseconds]
    if type(v).__name__ == 'Duration':
        return ['duration', str(v.years), str(v.months), v.tdelta.days, v.tdelta.seconds, v.tdelta.microseconds]
    if hasattr(v, 'unsplit'):
        return ['uri', v.unsplit()]
    if isinstance(v, (list, tuple)):
        return ['list'] + [canon(x) for x in v]
    if isinstance(v, dict):
        return ['dict'] + [[k, canon(x)] for k, x in sorted(v.items())]
    return [type(v).__name__, repr(v)]


def canon_row(row):
    """Row dicts: order of the columns counts."""
    return [[k, canon(v)] for k, v in row.items()]


def expected(col, lit):
    """What reading the cell must give (in canonical form)."""
    base = base_of(col.get('datatype'))
    v = value(col, lit)
    if base == 'anyURI':
        return (['list'] + [['uri', x] for x in v]) if isinstance(v, list) else (None if v is None else ['uri', v])
    if col.get('separator') and v is None:
        return ['list']
    return canon(v)


def expected_rows(table):
    cols = table['columns']
    res = []
    for row in table['rows']:
        r = [[header(c, i), expected(c, x)] for i, (c, x) in enumerate(zip(cols, row))]
        res.append(r + [[v['name'], fill(v['valueUrl'], dict(r))] for v in table.get('virtual', [])])
    return res


def fill(template, values):
    """Simple templates: text, and a variable at the end which is a string or null."""
    start, brace, name = template.partition('{')
    return start + urllib.parse.quote(values.get(name[:-1]) or '', safe='-._~') if brace else template


def header(col, i):
    if col.get('name'):
        return col['name']
    if col.get('titles') and not isinstance(col['titles'], dict):
        return col['titles'] if isinstance(col['titles'], str) else col['titles'][0]
    return '_col.%d' % (i + 1)


# -- generation -----------------------------------------------------------------------------------
def _dt(r, tz=None, micro=0, minute=False):
    y = r.choice([1, 999, 1582, 1900, 1970, 1999, 2000, 2023, 2024, 2024, 2038, 9999, r.randint(1000, 9999)])
    m = r.choice([1, 2, 2, 12, r.randint(1, 12)])
    d = r.choice([1, 28, r.randint(1, 28), 31 if m in (1, 3, 5, 7, 8, 10, 12) else 29 if m == 2 and y in (2000, 2024) else 28])
    h, mi, s = r.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0), (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))])
    if minute:
        s = 0
    v = datetime.datetime(y, m, d, h, mi, s, r.choice([0, 1, 999999, 500000, 120000]) // 10**(6 - micro) * 10**(6 - micro) if micro else 0)
    if tz:
        v = v.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=tz if tz != 'Z' else 0)))
    return v


MARKERS = ['XXX', 'XXX', 'xxx', 'XX', 'xx', 'X', 'x', ' XXX', ' xxx', ' X', ' xx']


def _tz(r, hours=False):
    return r.choice(['Z', 60, -300, 840, -720] + ([] if hours else [330, -210, 345]))


def datatype(r, kinds=None, constraints=False):
    """-> (datatype spec or None, function making literals)"""
    kind = r.choice(kinds or KINDS)
    return KIND[kind](r, constraints)


def _k_string(r, cs):
    if r.random() < .5:
        return r.choice([None, 'string']), lambda r, chars: gen.cell(r, chars, maxlen=12)
    b = r.choice(STRINGS)
    if b == 'NMTOKEN':
        return b, lambda r, chars: gen.ident(r, r.randint(1, 6)) + r.choice(['', '-1', '.x', ':y', '_'])
    if b in ('normalizedString',):
        return b, lambda r, chars: 'x' + gen.text(r, chars=chars, newlines=False).replace('\t', ' ') + 'y'
    if cs and b == 'string':
        n = r.randint(3, 8)
        return {'base': b, 'minLength': 2, 'maxLength': n}, lambda r, chars: gen.ident(r, r.randint(2, n))
    return b, lambda r, chars: gen.cell(r, chars, maxlen=10)


def _k_regex(r, cs):
    return {'base': 'string', 'format': '[a-z]+[0-9]*'}, lambda r, chars: gen.ident(r, r.randint(1, 5)) + r.choice(['', '1', '42'])


def _k_length(r, cs):
    n = r.randint(3, 9)
    t = r.choice(['x', 'l'])
    if t == 'x':
        return {'base': 'string', 'minLength': 2, 'maxLength': n}, lambda r, chars: gen.ident(r, r.randint(2, n))
    return {'base': 'string', 'length': n}, lambda r, chars: gen.ident(r, n)


def _k_uri(r, cs):
    return 'anyURI', lambda r, chars: r.choice(['http://example.org/', 'https://example.org/a?b=', 'urn:x:', 'rel/', '#']) + gen.ident(r, 4)


def _k_bool(r, cs):
    return r.choice(['boolean', {'base': 'boolean', 'format': 'Yea|Nay'}, {'base': 'boolean', 'format': 'Y|N'}]), \
        lambda r, chars: r.random() < .5


def bounds(r, lo, hi, lo_excl=None, hi_excl=None):
    """Bounds which admit lo..hi: inclusive ones, and exclusive ones if given."""
    k = r.choice(['minimum', 'minimum', 'minInclusive', 'minExclusive' if lo_excl is not None else 'minInclusive'])
    res = {k: lo_excl if k == 'minExclusive' else lo}
    k = r.choice(['maximum', 'maximum', 'maxInclusive', 'maxExclusive' if hi_excl is not None else 'maxInclusive'])
    res[k] = hi_excl if k == 'maxExclusive' else hi
    if r.random() < .2:
        # numbers as such
        res = {k: v if not re.match(r'-?[0-9]+(\.[0-9]+)?$', v) else float(v) if '.' in v else int(v) for k, v in res.items()}
    if r.random() < .1:
        res['dc:note'] = 'x'
    return res


def _k_int(r, cs):
    b = r.choice(list(INTS))
    lo, hi = INTS[b]

    def lit(r, chars):
        lo_, hi_ = -10**r.choice([1, 5, 18, 18, 45]) if lo is None else lo, 10**r.choice([1, 5, 18, 18, 45]) if hi is None else hi
        return r.choice([lo_, hi_, r.randint(lo_, hi_), max(lo_, min(hi_, r.randint(-50, 50)))])
    if b in ('integer', 'int', 'long') and r.random() < .25:
        f = r.choice([{'groupChar': ' ', 'pattern': '#,##0'}, '#,##0', '0', '000', {'groupChar': '.', 'pattern': '#,##0', 'decimalChar': ','}])
        return {'base': b, 'format': f}, lambda r, chars: r.choice([0, 7, -3, 999, 1000, 1234567, -1234567, r.randint(-10**9, 10**9), r.randint(-10**18, 10**18) if b == 'long' else r.randint(-10**35, 10**35)])
    if cs or r.random() < .15:
        a = max(r.choice([-100, -100, 0]) if hi is None or hi > 0 else -100, lo if lo is not None else -100)
        z = min(r.choice([100, 100, 0]) if a < 0 else 100, hi if hi is not None else 100)
        return dict({'base': b}, **bounds(r, str(a), str(z), str(a - 1) if lo is None or a > lo else None, str(z + 1) if hi is None or z < hi else None)), lambda r, chars: r.choice([a, z, r.randint(a, z), r.randint(a, z)])
    return b, lit


def _k_decimal(r, cs):
    t = r.random()
    if t < .5:
        return 'decimal', lambda r, chars: r.choice(
            ['0', '0.1', '-0.5', '1E+6', '1E-7', '-1.5E-9', '123456789.123456789', '1.0', '10', '1.10',
             '%d.%03d' % (r.randint(-10**6, 10**6), r.randint(0, 999)), str(r.randint(-10**20, 10**20)), '%d.%030d' % (r.randint(-10**30, 10**30), r.randint(0, 10**30 - 1))])
    if t < .75:
        f = r.choice([{'groupChar': ' '}, {'groupChar': '.', 'decimalChar': ','}, {'decimalChar': ','}, {'groupChar': ','}])
        return {'base': 'decimal', 'format': f}, lambda r, chars: '%d.%d' % (r.randint(-10**8, 10**8), r.randint(0, 99))
    if t < .8:
        return dict({'base': 'decimal', 'format': {'decimalChar': ','}}, **bounds(r, '-50,5', '1000', '-50,5', '1000')), lambda r, chars: '%d.%d' % (r.randint(-49, 999), r.randint(0, 99))
    if t < .9:
        f = r.choice(['0.00', '#,##0.00', {'pattern': '#,##0.00', 'groupChar': '.', 'decimalChar': ','}, {'pattern': '0.00', 'decimalChar': ','}])
        return {'base': 'decimal', 'format': f}, lambda r, chars: '%d.%02d' % (r.randint(-10**r.choice([7, 7, 40]), 10**7), r.randint(0, 99))
    return dict({'base': 'decimal'}, **bounds(r, '-50.5', '1000', '-50.5', '1000')), lambda r, chars: '%d.%d' % (r.randint(-49, 999), r.randint(0, 99))


def _k_float(r, cs):
    b = r.choice(['float', 'number', 'double'])
    if cs or r.random() < .2:
        return dict({'base': b}, **bounds(r, '-5.5', '100', '-5.5', '100')), lambda r, chars: round(r.uniform(-5, 99), 3)
    return b, lambda r, chars: r.choice([0.0, 0.1, -2.5, 1e22, 1e-9, 1.5e300, 3.0, r.uniform(-1e6, 1e6), float(r.randint(-10**6, 10**6))])


def _k_bytes(r, cs):
    return r.choice(['base64Binary', 'binary', 'hexBinary']), lambda r, chars: bytes(
        r.randint(0, 255) for _ in range(r.choice([1, 2, 3, 10, 57, 58, 200]))).hex()


def _k_datetime(r, cs):
    b = r.choice(['datetime', 'dateTime'])
    t = r.random()
    if t < .5:
        return b, lambda r, chars: _dt(r, tz=_tz(r) if r.random() < .4 else None, micro=r.choice([0, 0, 3, 6])).isoformat()
    d, tm = r.choice(DATE_PATTERNS), r.choice(TIME_PATTERNS)
    ms = r.choice([0, 0, 1, 3, 6]) if 'ss' in tm else 0
    # purely numeric date or time parts would be ambiguous without separators
    sep = r.choice(' T')
    tz = r.choice([None, None, r.choice(MARKERS), r.choice(MARKERS)])
    return {'base': b, 'format': d + sep + tm + ('.' + 'S' * ms if ms else '') + (tz or '')}, lambda r, chars: _dt(
        r, tz=(_tz(r) if tz else None), micro=ms, minute='ss' not in tm).isoformat()


def _k_date(r, cs):
    d = r.choice([None] + DATE_PATTERNS)
    tz = r.choice([None, None, None, r.choice(MARKERS), r.choice(MARKERS)]) if d else None
    if cs or r.random() < .1:
        return dict({'base': 'date'}, **bounds(r, '1990-01-01', '2030-12-31', '1989-12-31', '2031-01-01')), lambda r, chars: datetime.datetime(
            r.randint(1990, 2030), r.randint(1, 12), r.randint(1, 28)).isoformat()

    if d == 'd.M.yyyy' and not tz:
        return dict({'base': 'date', 'format': d}, **bounds(r, '1.2.1990', '31.12.2030', '31.1.1990', '1.1.2031')), lambda r, chars: datetime.datetime(
            r.randint(1991, 2030), r.randint(1, 12), r.randint(1, 28)).isoformat()

    def lit(r, chars):
        return _dt(r, tz=_tz(r) if tz else None).replace(hour=0, minute=0, second=0).isoformat()
    if d is None and r.random() < .3:
        tz = 'XXX'
        return 'date', lit
    return ('date' if d is None else {'base': 'date', 'format': d + (tz or '')}), lit


def _k_stamp(r, cs):
    return 'dateTimeStamp', lambda r, chars: _dt(r, tz=_tz(r), micro=6).isoformat()


def _k_time(r, cs):
    tm = r.choice([None] + TIME_PATTERNS)
    ms = r.choice([0, 0, 1, 3, 6]) if tm is None or 'ss' in tm else 0
    tz = r.choice([None, None, r.choice(MARKERS), r.choice(MARKERS)])
    if cs or r.random() < .1:
        z = r.choice(['', '', 'Z'])
        return dict({'base': 'time'}, **bounds(r, '08:00:00' + z, '20:59:59.5' + z, '07:59:59' + z, '21:00:00' + z)), lambda r, chars: datetime.datetime(
            1972, 12, 31, r.randint(8, 20), r.choice([0, 59, r.randint(0, 59)]), r.randint(0, 59), tzinfo=datetime.timezone.utc if z else None).isoformat()

    def lit(r, chars):
        return _dt(r, tz=_tz(r) if tz and (tm or r.random() < .5) else None, micro=ms, minute=bool(tm) and 'ss' not in tm).replace(year=1972, month=12, day=31).isoformat()
    return ('time' if tm is None else {'base': 'time', 'format': tm + ('.' + 'S' * ms if ms else '') + (tz or '')}), lit


def _k_duration(r, cs):
    b = r.choice(['duration', 'duration', 'dayTimeDuration', 'yearMonthDuration'])
    if b == 'yearMonthDuration':
        return (dict({'base': b}, **bounds(r, 'P1M', 'P41Y', 'P0M', 'P41Y')) if cs or r.random() < .2 else b), lambda r, chars: 'P%dY%dM' % (
            r.randint(0, 40), r.randint(1, 11))
    if b == 'dayTimeDuration':
        return (dict({'base': b}, **bounds(r, 'PT1S', 'P41D', 'PT0.5S', 'P41D')) if cs or r.random() < .2 else b), lambda r, chars: 'P%dDT%dH%dM%dS' % (r.randint(0, 40), r.randint(0, 23), r.randint(1, 59), r.randint(0, 59))
    return (dict({'base': b}, **bounds(r, 'PT1S', 'P4Y', 'PT0.5S', 'P4Y')) if cs or r.random() < .2 else b), lambda r, chars: r.choice(['P1Y', 'P3Y6M4DT12H30M5S', 'PT1S', 'P1DT0.5S', 'P2W', 'PT36H', 'P1Y2M'])


def _k_json(r, cs):
    def lit(r, chars):
        return r.choice([{'a': [1, 2]}, [1, 'x', None], 'str', 5, {'k': gen.cell(r, chars)}, True, [], {'b': {'c': 1.5}, 'a': 2}])
    return r.choice(['json', {'base': 'json', 'format': '{}'}]), lit


def _plain(f):
    def g(r, cs):
        while True:
            dt, lit = f(r, cs)
            if not (isinstance(dt, dict) and 'format' in dt):
                return dt, lit
    return g


KIND = collections.OrderedDict([
    ('string', _k_string), ('regex', _k_regex), ('length', _k_length), ('uri', _k_uri), ('bool', _k_bool), ('int', _k_int),
    ('decimal', _k_decimal), ('float', _k_float), ('bytes', _k_bytes), ('datetime', _k_datetime), ('date', _k_date),
    ('stamp', _k_stamp), ('time', _k_time), ('duration', _k_duration), ('json', _k_json)])
KINDS = ['string'] * 5 + list(KIND)
KIND['pint'], KIND['pdecimal'], KIND['pdate'] = _plain(_k_int), _plain(_k_decimal), _plain(_k_date)
# kinds which `render` can write
RAW = ['string', 'string', 'string', 'pint', 'pint', 'bool', 'pdecimal', 'pdate', 'uri']
SIMPLE = ['string', 'string', 'int', 'bool', 'decimal', 'date']


def dialect(r, plain=.4):
    """A dialect which can be both written and read."""
    d = {}
    if r.random() < plain:
        return d
    if r.random() < .5:
        d['delimiter'] = r.choice([';', '\t', '|', ' ', ':'])
    if r.random() < .3:
        d['quoteChar'] = r.choice(["'", '"', '`'])
    if r.random() < .3:
        d['lineTerminators'] = r.choice([['\n'], ['\r\n']])
    if r.random() < .35:
        d['encoding'] = r.choice(['latin-1', 'utf-16', 'utf-8', 'UTF-8-BOM', 'utf-8-sig', 'cp1252', 'utf-16-le', 'utf-32', 'UTF-8', 'utf8'])
    if r.random() < .25:
        d['header'] = False
    if r.random() < .2:
        d['trim'] = r.choice(['true', 'start', 'end', True])
    if r.random() < .15:
        d['skipInitialSpace'] = True
    if r.random() < .15:
        d['skipBlankRows'] = True
    if r.random() < .15:
        d['commentPrefix'] = r.choice(['#', '%', '//'])
    return d


def chars_of(*dialects):
    for d in dialects:
        if d and d.get('encoding') in ('latin-1', 'cp1252'):
            return 'latin'
    return 'uni'


def column(r, name, *, kinds=None, lists=.2, nulls=True, constraints=False, titles=False):
    dt, lit = datatype(r, kinds, constraints)
    c = {'name': name}
    if titles and r.random() < .2:
        c = {'titles': name + r.choice(['', ' ü', ' "q"', ', x'])}
        if r.random() < .3:
            c = {'titles': [c['titles'], 'other ' + name]}
        elif r.random() < .15:
            c = {'titles': {'en': c['titles']}}
    elif r.random() < .1:
        c['titles'] = 'Title ' + name
        if titles:
            c['titles'] = r.choice(['Title ' + name, ['Title ' + name, 'T2'], {'en': ['Title', name + ' t'], 'de': 'Überschrift'},
                                    {'en': 'Title ' + name}, {'und': ['a', 'b', 'c']}])
    if dt is not None:
        c['datatype'] = dt
    if r.random() < lists and base_of(dt) != 'json':
        c['separator'] = r.choice([';', '|', '~', '; ', '--'])
    if nulls and r.random() < .15:
        c['null'] = r.choice([['NA'], ['', '-'], ['n/a', 'NULL'], 'NA'])
    if r.random() < .15:
        c['required'] = True
    return c, lit


def null_of(c):
    n = c.get('null', [''])
    return n if isinstance(n, list) else [n]


def formatted_unsafe(c, x):
    """Is this string value in the way of some documented marker of the column?"""
    return isinstance(x, str) and (x in null_of(c) or x == '' or (c.get('separator') and c['separator'] in x) or x.startswith('#'))


def cell(r, c, lit, chars='uni', none=.1):
    """A literal for a cell of the column."""
    sep = c.get('separator')
    base = base_of(c.get('datatype'))

    def one():
        for _ in range(20):
            x = lit(r, chars)
            if base in STRINGS + ['anyURI']:
                if sep:
                    for ch in sep:
                        x = x.replace(ch, '_')
                if x in null_of(c) or not x.strip():
                    continue
                return x
            return x
        return gen.ident(r, 6)
    if sep:
        ok = base not in ('json',)
        n = r.choice([0, 1, 1, 2, 3, 5]) if ok else 0
        if c.get('required') and not n:
            n = 1
        res = []
        for _ in range(n):
            x = one()
            if base in ('decimal', 'integer', 'int', 'long') or isinstance(x, (int, float)) or base not in STRINGS + ['anyURI']:
                if sep_conflict(c, x):
                    continue
            res.append(x)
        if not res and c.get('required'):
            return None
        return res
    if not c.get('required') and r.random() < none:
        return None
    return one()


def sep_conflict(c, x):
    """May the separator occur in the formatted value? (conservatively)"""
    base = base_of(c.get('datatype'))
    sep = c['separator']
    if base in ('base64Binary', 'binary', 'hexBinary', 'boolean'):
        return False
    if base in ('duration', 'dayTimeDuration', 'yearMonthDuration', 'decimal', 'float', 'number', 'double') or base in INTS:
        return sep in ('--',) and False
    return False


def url(r, k, patterns):
    """The name of table k; sometimes the names of all tables only differ in how they end."""
    p = r.choice(list(patterns) * 2 + ['same'])
    return 'same' + ['.csv', '.tsv', '', '.csv.csv', '.2.csv', '.csv.txt'][k] if p == 'same' else p % k


# Names which mean something in Python, in SQL, or in the libraries.
SPECIAL = ['self', 'var_dict', 'fname', 'items', 'row', 'name', 'class', 'None', 'url', 'type', 'a.b', 'größe', 'rownum', 'describes', 'x-y', 'C', 'strict', 'value', 'index', '1']


def table(r, url, *, ncols=None, nrows=None, kinds=None, lists=.2, pk=None, constraints=False, group_dialect=None,
          own_dialect=.2, titles=False, prefix=''):
    n = ncols or r.randint(1, 5)
    d = dialect(r) if r.random() < own_dialect else None
    eff = d if d is not None else (group_dialect or {})
    chars = chars_of(eff)
    cols, lits = [], []
    special = r.sample(SPECIAL, n) if r.random() < .12 else []
    for k in range(n):
        c, lit = column(r, special[k] if special and r.random() < .7 else '%s%s%d' % (prefix, r.choice(['c', 'col_', 'C']), k), kinds=kinds, lists=lists, constraints=constraints,
                        titles=titles)
        cols.append(c)
        lits.append(lit)
    nrows = r.choice([0, 1, 2, 3, 5, 8, 20]) if nrows is None else nrows
    hoisted = hoists(r)
    for prop, _ in hoisted:
        if r.random() < .5:
            # make it possible
            if prop == 'null':
                for c in cols:
                    c['null'] = ['NA']
            elif prop == 'separator' and lists and all(base_of(c.get('datatype')) != 'json' for c in cols):
                for c in cols:
                    c['separator'] = '|'
    rows = []
    for _ in range(nrows):
        for _ in range(20):
            row = [cell(r, c, lit, chars) for c, lit in zip(cols, lits)]
            if not (eff.get('skipBlankRows') and blank(cols, row)):
                rows.append(row)
                break
    if r.random() < .25:
        # rows which agree in a column
        k = r.choice([0, 0, n - 1])
        for row in rows[1:]:
            new = row[:k] + [rows[0][k]] + row[k + 1:]
            if r.random() < .6 and not (eff.get('skipBlankRows') and blank(cols, new)):
                row[k] = new[k]
    t = {'url': url, 'columns': cols, 'rows': rows}
    if hoisted:
        t['hoist'] = hoisted
    if d is not None:
        t['dialect'] = d
    ascii_dialect_safe(t, eff)
    return t


def blank(cols, row):
    return all((x is None and (c.get('separator') or not null_of(c)[0])) or x == [] for c, x in zip(cols, row))


def decorate(r, t):
    """Properties of the description which do not change the rows."""
    for c in t['columns']:
        for key, values in [('propertyUrl', ['http://example.org/p', 'schema:name', '#x{_name}']), ('aboutUrl', ['#row-{_row}']), ('lang', ['en', 'de-AT']),
                            ('textDirection', ['rtl', 'ltr']), ('suppressOutput', [True]), ('ordered', [True]),
                            ('dc:description', [gen.cell(r), {'@value': 'ä'}]), ('valueUrl', ['http://example.org/{_row}'])]:
            if r.random() < .08:
                c[key] = r.choice(values)
    if r.random() < .2:
        t['schema'] = {r.choice(['aboutUrl', 'propertyUrl']): 'http://example.org/{_row}'}
    if r.random() < .1:
        t.setdefault('schema', {})['dc:note'] = gen.cell(r)
    if r.random() < .15 and t['columns'][0].get('name'):
        t.setdefault('schema', {})['rowTitles'] = [t['columns'][0]['name']]
    if r.random() < .25:
        names = [c['name'] for c in t['columns'] if c.get('name') and c.get('datatype') in (None, 'string') and not c.get('separator') and re.fullmatch('[A-Za-z][A-Za-z0-9_]*', c['name'])]
        t['virtual'] = [{'name': 'virt', 'valueUrl': 'http://example.org/v' + ('/{%s}' % r.choice(names) if names and r.random() < .8 else ''), 'propertyUrl': 'schema:url'}]
    if r.random() < .1:
        t.setdefault('extra', {})['tableDirection'] = r.choice(['rtl', 'ltr'])
    if r.random() < .1:
        t.setdefault('extra', {})['lang'] = r.choice(['en', 'fr'])
    return t


def effective(g, t):
    return t['dialect'] if t.get('dialect') is not None else (g.get('dialect') or {})


def ascii_dialect_safe(t, d):
    """Drop what the dialect cannot represent from the rows (documented limits)."""
    trim = str(d.get('trim', 'false')).lower() != 'false' or d.get('skipInitialSpace')
    prefix = d.get('commentPrefix')
    if not trim and not prefix:
        return
    for row in t['rows']:
        for i, (c, x) in enumerate(zip(t['columns'], row)):
            def fix(s):
                if isinstance(s, str) and base_of(c.get('datatype')) in STRINGS + ['anyURI']:
                    s2 = s.strip() if trim else s
                    if prefix and i == 0 and s2.startswith(prefix):
                        s2 = 'x' + s2
                    return s2 or 'x'
                return s
            row[i] = [fix(s) for s in x] if isinstance(x, list) else fix(x)


def column_json(c):
    return {k: v for k, v in c.items() if not k.startswith('_')}


def table_json(t):
    res = {'url': t['url'], 'tableSchema': {'columns': [column_json(c) for c in t['columns']] + [dict(v, virtual=True) for v in t.get('virtual', [])]}}
    res['tableSchema'].update(t.get('schema') or {})
    if t.get('dialect') is not None:
        res['dialect'] = t['dialect']
    if t.get('pk'):
        res['tableSchema']['primaryKey'] = t['pk']
    if t.get('fks'):
        res['tableSchema']['foreignKeys'] = [
            {'columnReference': f['cols'], 'reference': {'resource': f['ref'], 'columnReference': f['refcols']}} for f in t['fks']]
    for k in t.get('extra', {}):
        res[k] = t['extra'][k]
    return res


def hoist(t, res, group=None):
    """Say some things about all columns in one place (properties are inherited from schema, table and group)."""
    cols = res['tableSchema']['columns']
    real = [c for c in cols if not c.get('virtual')]
    for prop, level in t.get('hoist', ()) if real else ():
        if prop == 'required':
            v = True
            if not any(c.get('required') for c in real):
                continue
            for c in real:
                if not c.pop('required', False):
                    c['required'] = False
        elif len(real) < len(cols):
            continue
        elif prop == 'datatype':
            v = real[0].get('datatype', 'string')
            for c in real:
                if c.setdefault('datatype', 'string') == v:
                    del c['datatype']
        else:
            # the same for all columns, or nothing
            v = real[0].get(prop)
            if v is None or any(c.get(prop) != v for c in real):
                continue
            for c in real:
                del c[prop]
        if level == 'group' and group is None:
            level = 'table'
        {'schema': res['tableSchema'], 'table': res, 'group': group}[level][prop] = v
    return res


HOISTED = ['required', 'required', 'datatype', 'datatype', 'separator', 'null']


def hoists(r, p=.25):
    """What to say in which place."""
    return [[x, r.choice(['schema', 'schema', 'table', 'group'])] for x in sorted(set(r.sample(HOISTED, r.choice([1, 2, 4]))))] if r.random() < p else []


def group_json(g):
    res = {'@context': ['http://www.w3.org/ns/csvw', {'@language': 'en'}], 'tables': [table_json(t) for t in g['tables']]}
    for t, x in zip(g['tables'], res['tables']):
        hoist(t, x, res if len(g['tables']) == 1 else None)
    if g.get('dialect'):
        res['dialect'] = g['dialect']
    for k, v in (g.get('props') or {}).items():
        res[k] = v
    return res


def row_dict(t, row, order=None, drop_none=False):
    """The row as a dict of Python values, as a user would pass it."""
    items = [(header(c, i), value(c, x)) for i, (c, x) in enumerate(zip(t['columns'], row))]
    if order:
        order.shuffle(items)
    if drop_none:
        items = [(k, v) for k, v in items if v is not None] or items[:1]
    return dict(items)


def row_list(t, row):
    return [value(c, x) for c, x in zip(t['columns'], row)]


# -- independent rendering of cells (for sources which are not written by the library) --------------
def render(c, lit):
    """Text of a cell for simple, unformatted datatypes."""
    if lit is None:
        return null_of(c)[0] if not c.get('separator') else ''
    if c.get('separator') and isinstance(lit, list):
        return c['separator'].join(render1(c, x) for x in lit)
    return render1(c, lit)


def render1(c, x):
    dt = c.get('datatype')
    base = base_of(dt)
    if base == 'boolean':
        f = dt.get('format') if isinstance(dt, dict) else None
        return (f or 'true|false').split('|')[0 if x else 1]
    if base in INTS:
        return str(x)
    if base == 'decimal':
        return format(decimal.Decimal(x), 'f')
    if base in ('float', 'number', 'double'):
        return repr(float(x))
    if base == 'date':
        return x[:10] + x[19:]
    if base in ('datetime', 'dateTime'):
        return x
    if base == 'hexBinary':
        return x.upper()
    if base in ('base64Binary', 'binary'):
        return base64.b64encode(bytes.fromhex(x)).decode()
    if base == 'json':
        return json.dumps(x)
    return x
