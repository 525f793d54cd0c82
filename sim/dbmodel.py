"""Reference model of related tables: groups with keys, valid data for them, single violations, and what a database holds."""
import copy
import random

from . import gen, lib, model

# what the SQLite backend supports as scalar and as list-valued columns
SCALARS = ['string', 'string', 'length', 'uri', 'bool', 'int', 'int', 'float', 'bytes', 'stamp', 'duration', 'json', 'xdecimal', 'xdate', 'xdatetime', 'time']
LISTS = ['string', 'string', 'pint', 'bool', 'xdecimal', 'xdate', 'xdatetime', 'time', 'uri', 'bytes', 'duration', 'float', 'stamp']
NAMES = ['name', 'order', 'Group', 'sélect', 'a b', 'from', 'value', 'x.y', 'index', 'table', 'C', 'dé', 'key"s', "it's", 'context', 'rowid2']
TRANS = ['none', 'none', 'none', 'upper', 'prefix', 'swap', 'short']


def k_decimal(r, cs):
    # the database holds decimals as REAL
    if cs:
        return dict({'base': 'decimal'}, **model.bounds(r, '-50.5', '1000', '-50.5', '1000')), lambda r, chars: '%d.%02d' % (r.randint(-49, 999), r.randint(0, 99))
    return 'decimal', lambda r, chars: r.choice(['0', '0.1', '-0.5', '1E+6', '10', '%d.%02d' % (r.randint(-10**8, 10**8), r.randint(0, 99))])


def k_date(r, cs):
    if cs:
        return dict({'base': 'date'}, **model.bounds(r, '1990-01-01', '2030-12-31', '1989-12-31', '2031-01-01')), lambda r, chars: '%d-%02d-%02dT00:00:00' % (
            r.randint(1990, 2030), r.randint(1, 12), r.randint(1, 28))
    return 'date', lambda r, chars: '%d-%02d-%02dT00:00:00' % (r.choice([1000, 1999, 2000, 2024, 9999]), r.randint(1, 12), r.randint(1, 28))


def k_datetime(r, cs):
    b = r.choice(['datetime', 'dateTime'])
    if cs:
        return dict({'base': b}, **model.bounds(r, '1990-01-01T00:00:00', '2030-12-31T00:00:00', '1989-12-31T23:59:59', '2030-12-31T00:00:00')), lambda r, chars: '%d-%02d-%02dT%02d:59:%02d' % (
            r.randint(1990, 2029), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59))
    return b, lambda r, chars: model._dt(r, tz=model._tz(r) if r.random() < .3 else None).isoformat()


def datatype(r, kind, cs):
    f = {'xdecimal': k_decimal, 'xdate': k_date, 'xdatetime': k_datetime}.get(kind) or model.KIND[kind]
    while True:
        dt, lit = f(r, cs)
        if kind == 'string' and isinstance(dt, str) and dt not in ('string', 'any', 'NMTOKEN', 'normalizedString', 'xml', 'html'):
            continue
        if kind in ('int', 'pint'):
            # the database holds integers of 64 bits
            return dt, lambda r, chars: small(lit(r, chars))
        return dt, lit


def small(v):
    return v if abs(v) < 2**64 else (-1 if v < 0 else 1) * (abs(v) % 2**62 or 1)


KEYKINDS = ['string', 'string', 'string', 'integer', 'integer', 'date', 'NMTOKEN', 'int']


def keyvalue(r, kind, n):
    if kind in ('integer', 'int'):
        return n * 7 - 3
    if kind == 'date':
        return '%d-%02d-%02dT00:00:00' % (1990 + n // 300, 1 + n // 25 % 12, 1 + n % 25)
    if kind == 'NMTOKEN':
        return 'k%d-%s' % (n, gen.ident(r, 2))
    s = '%s%d%s' % (r.choice(['k', 'K', 'ä', 'x y ', "o'", 'a,', 'q"', '1']), n, r.choice(['', '', '%', ' z', '_', '日']))
    return s


def column(r, name, kinds, cs, separator=None):
    kind = r.choice(kinds)
    dt, lit = datatype(r, kind, cs)
    c = {'name': name}
    if dt is not None:
        c['datatype'] = dt
    if separator:
        c['separator'] = separator
    return c, lit


def group(r, *, ntables=None, m2m=True, selfref=True, nrows=None, names=None, constraints=True, compkeys=True, dialects=True, simple=False):
    """-> g: tables in an order in which they need not be created; columns carry '_role'."""
    n = ntables or r.choice([1, 2, 2, 3, 4])
    gd = model.dialect(r) if dialects else {}
    chars = model.chars_of(gd)
    if chars == 'latin':
        gd.pop('encoding')
        chars = 'uni'
    if gd.get('trim') or gd.get('skipInitialSpace') or gd.get('commentPrefix'):
        gd = {k: v for k, v in gd.items() if k not in ('trim', 'skipInitialSpace', 'commentPrefix')}
    tables = []
    for k in range(n):
        url = model.url(r, k, ['t%d.csv', 't%d.csv', 'my table %d.csv', 'order%d.csv', 'x-%d.csv'])
        nr = r.choice([0, 1, 2, 3, 5, 9]) if nrows is None else nrows
        pool = list(names or NAMES)
        r.shuffle(pool)
        cols, gens, pk = [], [], []
        # primary key
        kind = r.choice(['single'] * 5 + ['none'] + (['composite'] * 2 if compkeys else []))
        if kind != 'none':
            parts = 1 if kind == 'single' else r.choice([2, 2, 3])
            for j in range(parts):
                kk = r.choice(KEYKINDS)
                c = {'name': r.choice(['id', 'ID', 'pk']) + (str(j) if parts > 1 else '') if r.random() < .7 else pool.pop(), 'datatype': kk}
                if any(c['name'].lower() == x['name'].lower() for x in cols):
                    c['name'] += 'k%d' % j
                if r.random() < .3:
                    c['required'] = True
                cols.append(c)
                pk.append(c['name'])
                gens.append(('key', kk, j, parts))
        # references
        fks = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if tables else 0):
            ref = r.choice(tables)
            if not ref.get('pk'):
                continue
            refcols = [c for c in ref['columns'] if c['name'] in ref['pk']]
            lst = m2m and len(refcols) == 1 and len(pk) == 1 and r.random() < .45
            rc = list(refcols)
            if len(rc) > 1 and r.random() < .6:
                r.shuffle(rc)
            names_ = []
            for j, c in enumerate(rc):
                name = pool.pop() if pool and r.random() < .6 else 'fk%d_%d' % (len(cols), j)
                if any(name.lower() == x['name'].lower() for x in cols):
                    name = 'fk_%d' % len(cols)
                col = {'name': name, 'datatype': c['datatype']}
                if lst:
                    col['separator'] = r.choice([';', '|', '~'])
                elif r.random() < .15:
                    col['required'] = True
                cols.append(col)
                names_.append(name)
                gens.append(('ref', ref['url'], ref['pk'].index(c['name']), lst, len(fks)))
            if len(names_) > 1 and len({bool(x.get('required')) for x in cols[-len(names_):]}) > 1:
                for x in cols[-len(names_):]:
                    x.pop('required', None)
            fks.append({'cols': names_, 'ref': ref['url'], 'refcols': [c['name'] for c in rc], 'list': lst})
        if selfref and len(pk) == 1 and r.random() < .3:
            pc = [c for c in cols if c['name'] == pk[0]][0]
            lst = m2m and r.random() < .4
            col = {'name': 'parent', 'datatype': pc['datatype']}
            if lst:
                col['separator'] = '|'
            cols.append(col)
            gens.append(('self', lst))
            fks.append({'cols': ['parent'], 'ref': url, 'refcols': [pk[0]], 'list': lst, 'self': True})
        # plain columns
        for _ in range(r.choice([0, 1, 2, 3, 4]) if cols else r.randint(1, 4)):
            name = pool.pop() if pool and r.random() < .6 else 'col%d' % len(cols)
            if any(name.lower() == x['name'].lower() for x in cols):
                name = 'c_%d' % len(cols)
            sep = r.choice([';', '|', '~']) if r.random() < .2 else None
            cs = constraints and not sep and r.random() < .3
            kinds = LISTS if sep else (['string', 'pint', 'bool'] if simple else SCALARS)
            if cs:
                kinds = ['xdecimal', 'xdate', 'xdatetime', 'pint', 'length', 'float', 'pint', 'xdecimal', 'duration', 'time']
            c, lit = column(r, name, kinds, cs, sep)
            if r.random() < .2:
                c['required'] = True
            cols.append(c)
            gens.append(('plain', lit))
        order = list(range(len(cols)))
        if r.random() < .4:
            r.shuffle(order)
        t = {'url': url, 'columns': cols, 'rows': [], 'pk': pk, 'fks': fks}
        hoisted = model.hoists(r)
        if hoisted:
            t['hoist'] = hoisted
        nums = r.sample(range(3 * nr + 5), nr)
        for num in nums:
            row, chosen = [], {}
            for c, g in zip(cols, gens):
                if g[0] == 'key':
                    # later parts vary faster, so that single parts repeat
                    v = keyvalue(random.Random(num * 31 + g[2]), g[1], num // 3 if g[3] > 1 and g[2] == 0 else num)
                elif g[0] == 'ref':
                    ref = [x for x in tables if x['url'] == g[1]][0]
                    rows = ref['rows']
                    ci = [x['name'] for x in ref['columns']].index(ref['pk'][g[2]])
                    if g[3]:
                        v = [r.choice(rows)[ci] for _ in range(r.choice([0, 1, 1, 2, 3]))] if rows else []
                    else:
                        if g[4] not in chosen:
                            chosen[g[4]] = r.choice(rows) if rows and (c.get('required') or r.random() < .8) else None
                        v = chosen[g[4]][ci] if chosen[g[4]] is not None else None
                elif g[0] == 'self':
                    v = ('self', g[1])
                else:
                    v = model.cell(r, c, g[1], chars)
                row.append(v)
            if any(v is None and c.get('required') for v, c in zip(row, cols)):
                continue
            t['rows'].append(row)
        for row in t['rows']:
            for i, v in enumerate(row):
                if isinstance(v, tuple):
                    ki = [c['name'] for c in cols].index(pk[0])
                    keys = [x[ki] for x in t['rows']]
                    row[i] = [r.choice(keys) for _ in range(r.choice([0, 1, 2]))] if v[1] else (r.choice(keys) if r.random() < .7 else None)
        t['columns'] = [cols[i] for i in order]
        t['rows'] = [[row[i] for i in order] for row in t['rows']]
        if gd.get('skipBlankRows'):
            t['rows'] = [row for row in t['rows'] if not model.blank(t['columns'], row)]
        tables.append(t)
    if r.random() < .4:
        r.shuffle(tables)
    return {'dialect': gd, 'tables': tables}


# -- names in the database ---------------------------------------------------------------------------
def translator(kind):
    def tr(table, column=None):
        x = column if column is not None else table
        if kind == 'upper':
            return x.upper() + '_X'
        if kind == 'prefix':
            return ('c_' + x) if column is not None else 'tbl_' + x
        if kind == 'swap':
            return ''.join(reversed(x)) + ('$' if column is not None else '#')
        if kind == 'short':
            return x.replace('.csv', 'C').replace(' ', '_') if column is None else '{}:{}'.format(table[:2], x)
        return x
    return None if kind == 'none' else tr


def name(kind, table, column=None):
    tr = translator(kind)
    return tr(table, column) if tr else (column if column is not None else table)


def is_m2m(t, c):
    return any(f['cols'] == [c['name']] and f.get('list') for f in t['fks'])


def db_value(t, c, lit, direct=False):
    """What reading the database gives for the cell, in canonical form."""
    if is_m2m(t, c):
        v = model.expected(c, lit or [])
        return v
    if lit is None and c.get('separator'):
        return None if direct else ['list']
    e = model.expected(c, lit)
    return e


def db_expected(g, trans, direct=False, omit=()):
    res = {}
    for t in g['tables']:
        rows = []
        for row in t['rows']:
            rows.append(sorted([name(trans, t['url'], c['name']), db_value(t, c, x, direct)] for c, x in zip(t['columns'], row)))
        if rows:
            res[name(trans, t['url'])] = rows
    return byrow(lib.norm(res))


def byrow(content):
    # the order of rows in a database table is not defined
    return {k: sorted(rows, key=repr) for k, rows in content.items()}


def read_db(db):
    """Canonical content as read through the library."""
    return byrow(lib.norm({k: [sorted([c, model.canon(v)] for c, v in row.items()) for row in rows] for k, rows in db.read().items() if rows}))


def sql_counts(path, g, trans):
    """Independent look at the file: rows per table and per association table, and integrity checks."""
    import contextlib
    import sqlite3
    with contextlib.closing(sqlite3.connect('file:{}?mode=ro'.format(str(path).replace('%', '%25').replace('?', '%3f').replace('#', '%23')), uri=True)) as c:
        ok = c.execute('PRAGMA integrity_check').fetchall()
        fk = c.execute('PRAGMA foreign_key_check').fetchall()
        names = [x[0] for x in c.execute("SELECT name FROM sqlite_master WHERE type = 'table'")]
        return {'ok': ok[0][0], 'fk': len(fk), 'counts': {n: c.execute('SELECT count(*) FROM `{}`'.format(n)).fetchone()[0] for n in names}}


def expected_counts(g, trans):
    res = {name(trans, t['url']): len(t['rows']) for t in g['tables']}
    for t in g['tables']:
        for f in t['fks']:
            if f.get('list'):
                at = name(trans, '{}_{}'.format(t['url'], f['ref']))
                i = [c['name'] for c in t['columns']].index(f['cols'][0])
                res[at] = res.get(at, 0) + sum(len(row[i] or []) for row in t['rows'])
    return res


LIMITS = {'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'}


# -- violations ----------------------------------------------------------------------------------------
def violate(r, g, kinds=None):
    """Break exactly one constraint: -> (kind, table, g') or None."""
    g = copy.deepcopy(g)
    options = []
    for t in g['tables']:
        names = [c['name'] for c in t['columns']]
        if not t['rows']:
            continue
        if t['pk']:
            options.append(('pk', t, None))
        for f in t['fks']:
            options.append(('fk', t, f))
        for i, c in enumerate(t['columns']):
            if c.get('required') and not is_m2m(t, c):
                options.append(('required', t, i))
            dt = c.get('datatype')
            if isinstance(dt, dict) and not c.get('separator'):
                if LIMITS & set(dt) and 'duration' not in dt['base'].lower():
                    options.append(('range', t, i))
                if 'length' in dt or 'maxLength' in dt:
                    options.append(('length', t, i))
    if kinds:
        options = [o for o in options if o[0] in kinds]
    if not options:
        return
    kind, t, x = r.choice(options)
    names = [c['name'] for c in t['columns']]
    row = r.choice(t['rows'])
    if kind == 'pk':
        new = copy.deepcopy(row)
        # the other columns may differ
        for i, c in enumerate(t['columns']):
            if c['name'] not in t['pk'] and not is_m2m(t, c) and not any(c['name'] in f['cols'] for f in t['fks']) and r.random() < .5:
                new[i] = copy.deepcopy(r.choice(t['rows'])[i])
        t['rows'].insert(r.randint(0, len(t['rows'])), new)
    elif kind == 'fk':
        ref = [y for y in g['tables'] if y['url'] == x['ref']][0]
        j = r.randrange(len(x['cols']))
        bad = keyvalue(r, ref['columns'][[c['name'] for c in ref['columns']].index(x['refcols'][j])]['datatype'], 9999)
        i = names.index(x['cols'][j])
        if x.get('list'):
            row[i] = (row[i] or []) + [bad]
            r.shuffle(row[i])
        else:
            for cname in x['cols']:
                ii = names.index(cname)
                if row[ii] is None:
                    if len(x['cols']) > 1:
                        return
            row[i] = bad
    elif kind == 'required':
        row[x] = None
    elif kind == 'range':
        base = model.base_of(t['columns'][x]['datatype'])
        dt = t['columns'][x]['datatype']
        low = r.random() < .5
        exact = r.random() < .5
        if exact and 'minExclusive' in dt and low or exact and 'maxExclusive' in dt and not low:
            row[x] = dt['minExclusive' if low else 'maxExclusive']
            if base in ('float', 'number', 'double'):
                row[x] = float(row[x])
            elif base in model.INTS:
                row[x] = int(row[x])
            elif base == 'date':
                row[x] += 'T00:00:00'
            elif base == 'time':
                row[x] = '1972-12-31T' + row[x]
        elif base == 'time':
            row[x] = '1972-12-31T%s' % ('07:59:58' if low else '21:00:00.5') + ('Z' if any(str(dt[k]).endswith('Z') for k in LIMITS & set(dt)) else '')
        elif base in ('date', 'datetime', 'dateTime'):
            row[x] = '1989-12-31T00:00:00' if low else '2031-01-01T00:00:00'
        elif base == 'decimal':
            row[x] = '-51.5' if low else '1000.5'
        elif base in ('float', 'number', 'double'):
            row[x] = -6.5 if low else 101.0
        else:
            lo = [int(dt[k]) - d for k, d in (('minimum', 1), ('minInclusive', 1), ('minExclusive', 0)) if k in dt]
            hi = [int(dt[k]) + d for k, d in (('maximum', 1), ('maxInclusive', 1), ('maxExclusive', 0)) if k in dt]
            row[x] = lo[0] if low else hi[0]
    elif kind == 'length':
        row[x] = 'x' * 30
    if g['dialect'].get('skipBlankRows') and model.blank(t['columns'], row):
        return
    return kind, t['url'], g
