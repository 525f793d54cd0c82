"""C11: validation never approves what it could not read or what is invalid."""
import copy
import io
import json
import random
import re
import sys
import warnings
import zipfile

from sim import gen, lib, model, net
from sim.world import place

RUNS = {'quick': 520, 'thorough': 26000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: real validation (API and command) of seeded valid data and of the same data with one seeded flaw, from a simulated '
             'disk, archive and HTTP server with seeded faults; the oracle knows the flaw and the faults')
NOTE = ('Seeded search over descriptions, flaws, sources and fault positions. A metadata candidate tried during discovery which the server answers with an '
        'error status counts as absent (as the standard prescribes). Null foreign keys count as invalid in strict validation (documented) and are not generated.')
RULE = ('A scenario is a group of 1-3 tables with constraints and keys which is valid, an entry point (metadata or data, local, zipped or HTTP; API or command) '
        'and 8-14 steps: flaws, histories of edits, and read or network faults. Non-trivial: a fault fired or the data are flawed.')
COMPONENTS = {'real': ['csvw.metadata', 'csvw.dsv', 'csvw.datatypes', 'csvw.__main__.csvwvalidate', 'requests/urllib3/http.client', 'Python io/csv/zipfile', 'kernel tmpfs'],
              'stub': ['outcome of file calls, clock (simfs.c)', 'TCP and the HTTP server (sim/net.py)']}
ASSUMPTIONS = []
HOST = 'http://data.example.org'

BAD = {
    'integer': ['x', '1.5', '1x', '--1', '1e3', '0x10', '1,000', '½', '1_000', 'INF', '٣'], 'int': ['x', '1.5'], 'byte': ['128', '-129', 'x'],
    'nonNegativeInteger': ['-1', 'x'], 'positiveInteger': ['0', '-5'], 'unsignedShort': ['65536', '-1'], 'boolean': ['maybe', 'TRUE', 'yes', '2'],
    'decimal': ['x', '1.2.3', '1e5', '1..0', '1_0.5'], 'double': ['x', '1,5', '--1', '1_0'], 'float': ['x', '1e', '1.5.2', '0x1'],
    'date': ['2020-02-30', '2020-13-01', 'x', '1/2/2020', '20200101x', '2020-01-01x', '2020-01-01T10:00', '2020-01-010', '2020-01-01+1:00', '2020-1-1'],
    'time': ['25:00:00', '10:00', '10:00:00x', '10:00:00+1:00', '10:60:00', '10:00:00 EST', 'x', '1:00:00'], 'hexBinary': ['x', 'abc', 'ag', 'a b'], 'base64Binary': ['YW', 'YWJ', 'ü'],
    'json': ['{', 'x', '{"a": }', "{'a': 1}"], 'NMTOKEN': ['a b', 'a,b', 'a;b'], 'long': ['9223372036854775808', '-9223372036854775809', 'x', '1.5'],
    'unsignedByte': ['256', '-1', 'x'], 'negativeInteger': ['0', '1', 'x'], 'nonPositiveInteger': ['1', 'x', '0.5'], 'short': ['32768', '-32769'], 'unsignedLong': ['-1', '18446744073709551616'],
    'dateTimeStamp': ['2020-02-30T00:00:00.0Z', 'x', '2020-01-01Z', '2020-01-01T10:00:00x', '2020-01-01T25:00:00Z'],
    'dateTime': ['2020-02-30T00:00:00', 'x', '2020-01-01T25:00:00', '2020-01-01T10:00:00x', '2020-01-01T10:00:00+1:00', '2020-01-01T10:61:00'], 'duration': ['1Y', 'P1X', 'x'],
    'anyURI': [], 'string': []}
HMS = lambda r: '%02d:%02d:%02d' % (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
TZ = lambda r: r.choice(['', '', 'Z', '+01:00', '-03:30', '+14:00'])
GOOD = {
    'float': lambda r: r.choice(['0', '1.5', '-2e10', 'NaN', 'INF', '-INF']), 'time': lambda r: HMS(r) + r.choice(['', '', '.5', '.123456']) + TZ(r),
    'hexBinary': lambda r: r.choice(['ab', 'AB01', '00ff']), 'base64Binary': lambda r: r.choice(['YWJj', 'YQ==', 'YWI=']), 'json': lambda r: r.choice(['{"a": [1, null]}', '[]', '1', '"x"', 'true']),
    'NMTOKEN': lambda r: r.choice(['Snoopy', '1950-10-04', 'a:b.c', '0836']), 'long': lambda r: str(r.choice([2**63 - 1, -2**63, 0, r.randint(-2**60, 2**60)])),
    'unsignedByte': lambda r: str(r.choice([0, 255, 7])), 'negativeInteger': lambda r: str(r.choice([-1, -10**20])), 'nonPositiveInteger': lambda r: str(r.choice([0, -1, -10**20])),
    'short': lambda r: str(r.choice([-32768, 32767, 0])), 'unsignedLong': lambda r: str(r.choice([0, 2**64 - 1])),
    'dateTimeStamp': lambda r: '%04d-%02d-%02dT%s%s' % (r.randint(1900, 2100), r.randint(1, 12), r.randint(1, 28), HMS(r), r.choice(['.5', '', '.123456']) + r.choice(['Z', '+01:00', '-03:30'])),
    'integer': lambda r: str(r.choice([0, -1, 7, r.randint(-10**12, 10**12)])), 'int': lambda r: str(r.randint(-2147483648, 2147483647)),
    'byte': lambda r: str(r.choice([-128, 127, 0, 5])), 'nonNegativeInteger': lambda r: str(r.randint(0, 10**6)), 'positiveInteger': lambda r: str(r.randint(1, 10**6)),
    'unsignedShort': lambda r: str(r.choice([0, 65535, 77])), 'boolean': lambda r: r.choice(['true', 'false', '1', '0']),
    'decimal': lambda r: r.choice(['0', '-1.5', '10.25', '%d.%d' % (r.randint(-999, 999), r.randint(0, 99))]), 'double': lambda r: r.choice(['0', '1.5', '-2e10', '3E-4']),
    'date': lambda r: '%04d-%02d-%02d' % (r.randint(1900, 2100), r.randint(1, 12), r.randint(1, 28)),
    'dateTime': lambda r: '%04d-%02d-%02dT%02d:%02d:%02d' % (r.randint(1900, 2100), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)),
    'duration': lambda r: r.choice(['P1Y', 'PT5S', 'P1DT2H']), 'string': lambda r: gen.cell(r, 'uni'), 'anyURI': lambda r: 'http://example.org/' + gen.ident(r)}


def constrained(r):
    """-> (datatype, good, bad)"""
    k = r.choice(['min', 'max', 'minx', 'maxx', 'len', 'minlen', 'maxlen', 'regex', 'regex', 'regexnl', 'bool', 'date', 'decimal', 'datemin', 'pattern',
                  'time', 'datetime', 'datetz', 'timemin', 'duration', 'durationregex', 'jsonschema', 'binlen', 'percent',
                  'patternmin', 'charmin', 'datefmt'])
    a = r.choice([0, r.randint(-50, 50), r.randint(-50, 50)])
    number = r.choice([str, str, int])
    if k in ('min', 'minx'):
        key = r.choice(['minimum', 'minInclusive']) if k == 'min' else 'minExclusive'
        lo = a + (k == 'minx')
        return {'base': r.choice(['integer', 'decimal', 'int']), key: number(a)}, lambda r: str(r.choice([lo, lo + r.randint(0, 99)])), lambda r: str(lo - r.choice([1, 1, 40]))
    if k in ('max', 'maxx'):
        key = r.choice(['maximum', 'maxInclusive']) if k == 'max' else 'maxExclusive'
        hi = a - (k == 'maxx')
        return {'base': r.choice(['integer', 'decimal', 'int']), key: number(a)}, lambda r: str(r.choice([hi, hi - r.randint(0, 99)])), lambda r: str(hi + r.choice([1, 1, 40]))
    if k == 'len':
        return {'base': 'string', 'length': 4}, lambda r: gen.ident(r, 4), lambda r: gen.ident(r, r.choice([1, 3, 5, 9]))
    if k == 'minlen':
        return {'base': 'string', 'minLength': 3}, lambda r: gen.ident(r, r.randint(3, 9)), lambda r: gen.ident(r, r.choice([1, 2]))
    if k == 'maxlen':
        return {'base': 'string', 'maxLength': 5}, lambda r: gen.ident(r, r.randint(1, 5)), lambda r: gen.ident(r, r.choice([6, 20]))
    if k == 'regex':
        base = r.choice(['string', 'string', 'normalizedString', 'NMTOKEN', 'gYear', 'xml', 'anyURI'])
        return {'base': base, 'format': '[a-z]+[0-9]{2}'}, lambda r: gen.ident(r, 3) + str(r.randint(10, 99)), lambda r: r.choice(['abc', 'abc1', 'ABC12', 'abc123', ' abc12' if base != 'normalizedString' else 'a bc12', '12', 'abc12x', 'abc12-abc12'])
    if k == 'regexnl':
        return {'base': 'string', 'format': '[a-z]+|[0-9]{2}'}, lambda r: r.choice([gen.ident(r, 3).lower(), '12', 'z']), lambda r: r.choice(['abc\n', '12\n', '12x', 'ab12', '\nabc', '123', 'A'])
    if k == 'bool':
        return {'base': 'boolean', 'format': 'Yea|Nay'}, lambda r: r.choice(['Yea', 'Nay']), lambda r: r.choice(['true', 'yea', '1', 'x'])
    if k == 'date':
        return {'base': 'date', 'format': 'dd.MM.yyyy'}, lambda r: '%02d.%02d.%04d' % (r.randint(1, 28), r.randint(1, 12), r.randint(1900, 2100)), \
            lambda r: r.choice(['2020-01-01', '31.02.2020', '1.1.20', '01.13.2020'])
    if k == 'decimal':
        return {'base': 'decimal', 'format': {'groupChar': '.', 'decimalChar': ','}}, lambda r: r.choice(['1,5', '-0,25', '12']), lambda r: r.choice(['1,5,2', 'x', '1;5'])
    if k == 'datemin':
        return {'base': 'date', 'minimum': '2000-01-01', 'maximum': '2010-12-31'}, lambda r: r.choice(['2000-01-01', '2010-12-31', '2005-05-05']), \
            lambda r: r.choice(['1999-12-31', '2011-01-01', '0900-01-01'])
    if k == 'time':
        return {'base': 'time', 'format': 'HH:mmXXX'}, lambda r: HMS(r)[:5] + r.choice(['Z', '+01:00', '-03:30']), lambda r: r.choice(['25:00Z', '10:00:00Z', '10:00+1', 'x', '10Z', '10:00 EST'])
    if k == 'datetime':
        return {'base': r.choice(['datetime', 'dateTime']), 'format': 'd.M.yyyy HH:mm'}, lambda r: '%d.%d.%04d %s' % (r.randint(1, 28), r.randint(1, 12), r.randint(1900, 2100), HMS(r)[:5]), \
            lambda r: r.choice(['2020-01-01 10:00', '1.1.2020 10:00x', '1.1.2020 10:00:00', '31.2.2020 10:00', '1.1.2020', '1.1.2020 24:30'])
    if k == 'datetz':
        return {'base': 'date', 'format': 'yyyy-MM-dd X'}, lambda r: '%04d-%02d-%02d %s' % (r.randint(1900, 2100), r.randint(1, 12), r.randint(1, 28), r.choice(['Z', '+01', '-0330'])), \
            lambda r: r.choice(['2020-01-01 +1', '2020-01-01 x', '2020-02-30 Z', '01.01.2020 Z'])
    if k == 'timemin':
        return {'base': 'time', 'minInclusive': '08:00:00', 'maxExclusive': '17:00:00'}, lambda r: r.choice(['08:00:00', '16:59:59', '12:30:00.5']), lambda r: r.choice(['07:59:59', '17:00:00', '23:00:00'])
    if k == 'duration':
        return {'base': 'dayTimeDuration', 'maximum': 'P2D'}, lambda r: r.choice(['P2D', 'PT47H', 'PT1S']), lambda r: r.choice(['P3D', 'PT49H', 'P2DT1S'])
    if k == 'durationregex':
        return {'base': 'duration', 'format': 'P[0-9]+Y'}, lambda r: r.choice(['P2Y', 'P10Y']), lambda r: r.choice(['P3D', 'P1Y2M', 'PT1S'])
    if k == 'jsonschema':
        return {'base': 'json', 'format': '{"type": "array"}'}, lambda r: r.choice(['[]', '[1]']), lambda r: r.choice(['{}', '1', '"x"', 'null'])
    if k == 'binlen':
        return {'base': r.choice(['hexBinary']), 'maxLength': 2}, lambda r: r.choice(['ab', 'ab01']), lambda r: r.choice(['ab0102', '00000000'])
    if k == 'percent':
        return {'base': 'decimal', 'format': {'pattern': '#0.0#', 'decimalChar': ','}}, lambda r: r.choice(['1,5', '-10,25', '0,0']), lambda r: r.choice(['1.5', '1,555', 'x', '1'])
    if k == 'patternmin':
        return {'base': r.choice(['integer', 'decimal']), 'format': '#,##0', r.choice(['minimum', 'minInclusive']): r.choice([1000, '1,000']), 'maximum': 20000}, \
            lambda r: r.choice(['1,000', '20,000', '12,345']), lambda r: r.choice(['999', '0', '20,001', '-1,000', '1,000,000', '1000', '10,00'])
    if k == 'charmin':
        return {'base': 'decimal', 'format': {'decimalChar': ','}, 'minInclusive': '-50,5', 'maxExclusive': r.choice(['100', '100,0', 100])}, \
            lambda r: r.choice(['-50,5', '99,99', '0', '7,25']), lambda r: r.choice(['-50,51', '100', '100,01', '-5000'])
    if k == 'datefmt':
        return {'base': 'date', 'format': 'd.M.yyyy', 'minimum': '1.2.2000', 'maximum': '28.10.2010', 'dc:note': 'x'}, \
            lambda r: r.choice(['1.2.2000', '28.10.2010', '10.10.2005', '2.2.2000', '9.3.2000']), lambda r: r.choice(['31.1.2000', '29.10.2010', '1.1.2011', '10.1.2000', '2005-05-05'])
    return {'base': 'integer', 'format': '000'}, lambda r: '%03d' % r.randint(0, 999), lambda r: r.choice(['1', '12', 'abc', '1.5'])


def valid(s):
    """Reduced scenarios must still say the same about what is right and wrong."""
    return all(c['datatype'] == constrained(random.Random(c['_con']))[0] for t in s['tables'] for c in t['columns'] if '_con' in c) and all(
        isinstance(c['datatype'], dict) or c['datatype'] in GOOD for t in s['tables'] for c in t['columns'])


def generate(r, i, tier):
    src = r.choice(['local', 'local', 'zip', 'http', 'http'])
    n = r.choice([1, 1, 2, 3])
    tables = []
    for k in range(n):
        big = r.random() < .12
        cols = []
        idt = r.choice(['string', 'integer'])
        pk = r.choice([[], ['id'], ['id'], ['id', 'id2']])
        cols.append({'name': 'id', 'datatype': idt, '_k': 'key'})
        cols.append({'name': 'id2', 'datatype': r.choice(['string', 'integer']), '_k': 'key'})
        fks = []
        for other in tables:
            if other['pk'] == ['id'] and r.random() < .7:
                name = 'ref%d' % len(fks)
                c = {'name': name, 'datatype': typ(other, 'id'), '_k': 'fk'}
                if r.random() < .4:
                    c['separator'] = '|'
                cols.append(c)
                fks.append({'cols': [name], 'ref': other['url'], 'refcols': ['id']})
            elif other['pk'] == ['id', 'id2'] and r.random() < .7:
                names = ['r%d_a' % len(fks), 'r%d_b' % len(fks)]
                cols.extend({'name': x, 'datatype': typ(other, k), '_k': 'fk'} for x, k in zip(names, ('id', 'id2')))
                fks.append({'cols': names, 'ref': other['url'], 'refcols': ['id', 'id2']})
        if pk == ['id'] and r.random() < .25:
            # a key referring to the table itself
            c = {'name': 'self', 'datatype': idt, '_k': 'fk'}
            if r.random() < .4:
                c['separator'] = '|'
            cols.append(c)
            fks.append({'cols': ['self'], 'ref': 't%d.csv' % k, 'refcols': ['id']})
        for j in range(r.randint(1, 4)):
            c = {'name': 'c%d' % j, '_k': 'val', '_seed': r.randint(0, 10**9)}
            if r.random() < .5:
                c['_con'] = r.randint(0, 10**9)
                c['datatype'] = constrained(random.Random(c['_con']))[0]
            else:
                c['datatype'] = r.choice(list(GOOD))
            if r.random() < .25 and c['datatype'] != 'string' and not isinstance(c['datatype'], dict):
                c['separator'] = '|'
            if r.random() < .3:
                c['required'] = True
            if r.random() < .2:
                c['null'] = r.choice([['NA'], ['-', 'NULL'], ['', 'NA']])
            if r.random() < .1:
                c['titles'] = 'c%d' % j
            cols.append(c)
        if r.random() < .3:
            r.shuffle(cols)
        t = {'url': 't%d.csv' % k, 'columns': cols, 'pk': pk, 'fks': fks, 'rows': []}
        if r.random() < .1:
            t['schema'] = {'null': ['NULL', 'x-x']}
            t['nullat'] = r.choice([None, 'table', 'group'])
        rows(r, tables, t, r.choice([0, 1, 2, 3, 6]) if not big else r.randint(300, 1500))
        if r.random() < .3:
            t['hoist'] = [[x, r.choice(['schema', 'table', 'group'])] for x in r.choice([['required'], ['required', 'datatype'], ['datatype']])]
        if r.random() < .3:
            old = t.pop('schema', None)
            model.decorate(r, t)
            if old:
                t.setdefault('schema', {}).update(old)
        if r.random() < .15:
            t.setdefault('extra', {})['suppressOutput'] = True
        tables.append(t)
    single = n == 1 and r.random() < .5
    d = {} if r.random() < .6 else {k: v for k, v in model.dialect(r).items() if k in ('delimiter', 'quoteChar', 'lineTerminators', 'header', 'encoding')
                                    and v not in ('latin-1', 'cp1252') and v != ' '}
    entry = r.choice(['md', 'md', 'csv', 'csv', 'link'] if src == 'http' else ['md', 'md', 'csv'] if src == 'local' else ['md'])
    if r.random() < .1 and src != 'zip' and n == 1 and not d:
        entry = 'nomd'
    steps = []
    flaws = ['datatype', 'datatype', 'constraint', 'constraint', 'required', 'missingcol', 'pk', 'pk', 'fk', 'fk', 'listitem', 'short', 'bytes', 'nofile',
             'badmd', 'fkschema', 'fknull', 'null', 'mdwarn']
    for _ in range(r.randint(8, 14)):
        x = r.random()
        st = {'flaw': r.choice(flaws) if r.random() < .65 else None, 'seed': r.randint(0, 10**6), 'how': r.choice(['api', 'api', 'lax', 'cmd', 'cmd', 'cmdv']),
              'filter': r.choice(['default', 'default', 'ignore', 'always', 'once', 'module']), 'delivery': net.delivery(r)}
        if x < .3:
            pass
        elif x < .45:
            st['history'] = [r.choice(flaws + [None] * 5) for _ in range(r.randint(1, 3))]
            st['same'] = r.random() < .6
        elif src == 'http' and x < .9:
            st['net'] = [net.fault(r, r.randint(1, 12))]
            if r.random() < .4:
                st['net'][0]['times'] = 1000
        elif x < .85:
            st['faults'] = [{'kind': 'ERRNO', 'cls': r.choice(['READ', 'READ', 'READ', 'OPENR', 'STAT']), 'arg': r.choice(['EIO', 'EIO', 'ESTALE', 'EACCES', 'EMFILE']),
                             'frac': round(r.random() * .999, 4), 'times': r.choice([1, 100000])}]
        elif x < .93:
            st['faults'] = gen.legal_plan(r)
        else:
            st['damage'] = r.choice(['flip', 'cut', 'zero'])
            st['at'] = round(r.random(), 4)
        steps.append(st)
    return {'src': src, 'entry': entry, 'single': single, 'd': d, 'tables': tables, 'steps': steps, 'dir': r.choice(['', '', 'sub/']), 'abs': r.random() < .3}


def typ(t, name):
    return [c['datatype'] for c in t['columns'] if c['name'] == name][0]


def rows(r, tables, t, n):
    seen = set()
    by = {x['url']: x for x in tables}
    good = {}
    for c in t['columns']:
        if c['_k'] == 'val':
            good[c['name']] = constrained(random.Random(c['_con']))[1] if '_con' in c else GOOD[c['datatype']]
    nulls = (t.get('schema') or {}).get('null', [''])
    for k in range(n):
        for _ in range(20):
            row = {}
            for c in t['columns']:
                nl = c.get('null', nulls)
                if c['_k'] == 'key':
                    row[c['name']] = ('k%d' % r.randint(0, 10 * n) if c['datatype'] == 'string' else str(r.randint(0, 10 * n)))
                elif c['_k'] == 'val':
                    x = r.random()
                    if x < .1 and not c.get('required') and not c.get('separator') and nl != ['NULL', 'x-x']:
                        row[c['name']] = r.choice(nl)
                    elif c.get('separator'):
                        row[c['name']] = '|'.join(good[c['name']](r) for _ in range(r.randint(1 if c.get('required') else 0, 3)))
                    else:
                        row[c['name']] = good[c['name']](r)
                        if c['datatype'] == 'string' and row[c['name']] in nl:
                            row[c['name']] = 'zz'
            key = tuple(row[x] for x in t['pk'])
            if key not in seen or not t['pk']:
                break
        else:
            continue
        seen.add(key)
        ok = True
        for f in t['fks']:
            ref = by.get(f['ref'], t)
            idx = [[c['name'] for c in ref['columns']].index(x) for x in f['refcols']]
            if ref is t:
                ids = [x[[c['name'] for c in t['columns']].index('id')] for x in t['rows']] + [row['id']]
                sep = [c for c in t['columns'] if c['name'] == 'self'][0].get('separator')
                row['self'] = '|'.join(r.choice(ids) for _ in range(r.randint(1, 3) if sep else 1))
                continue
            if not ref['rows']:
                col = [c for c in t['columns'] if c['name'] == f['cols'][0]][0]
                if col.get('separator') and (t.get('schema') or {}).get('null') is None:
                    row[f['cols'][0]] = ''
                    continue
                ok = False
                break
            if len(f['cols']) == 1 and [c for c in t['columns'] if c['name'] == f['cols'][0]][0].get('separator'):
                row[f['cols'][0]] = '|'.join(r.choice(ref['rows'])[idx[0]] for _ in range(r.randint(1, 3)))
                continue
            target = r.choice(ref['rows'])
            for x, j in zip(f['cols'], idx):
                row[x] = target[j]
        if ok:
            t['rows'].append([row[c['name']] for c in t['columns']])


def document(s, tables):
    doc = document_(s, tables)
    for t, x in zip(tables, doc.get('tables', [doc])):
        # null markers may be given at any level
        if t.get('nullat') and 'null' in x['tableSchema']:
            (doc if t['nullat'] == 'group' and len(tables) == 1 else x)['null'] = x['tableSchema'].pop('null')
    return doc


def document_(s, tables):
    g = {'dialect': s['d'], 'tables': tables}
    if s['single']:
        doc = {'@context': 'http://www.w3.org/ns/csvw'}
        doc.update(model.hoist(tables[0], model.table_json(tables[0])))
        if s['d']:
            doc['dialect'] = s['d']
        return doc
    return model.group_json(g)


def flawed(s, flaw, seed):
    """-> (files {name: bytes}, metadata bytes, True if the flaw could be applied)"""
    r = random.Random(seed)
    tables = copy.deepcopy(s['tables'])
    header = {t['url']: [c['name'] for c in t['columns']] for t in tables}
    d = s['d']
    done = flaw is None
    raw = {}
    doc = None

    def cols(pred):
        res = [(t, j, c) for t in tables for j, c in enumerate(t['columns']) if pred(c) and t['rows']]
        return r.choice(res) if res else (None, None, None)

    def row_of(t):
        return r.choice([len(t['rows']) - 1, 0, r.randrange(len(t['rows']))])
    if s['entry'] == 'nomd' and flaw not in (None, 'bytes', 'nofile'):
        flaw, done = None, True
    if flaw in ('datatype', 'listitem'):
        t, j, c = cols(lambda c: bool(c.get('separator')) == (flaw == 'listitem') and (
            c['_k'] == 'val' and '_con' not in c and BAD[c['datatype']] or c['_k'] != 'val' and c['datatype'] == 'integer'))
        if t:
            bad = r.choice(BAD[c['datatype']])
            i = row_of(t)
            if flaw == 'listitem':
                items = t['rows'][i][j].split('|') if t['rows'][i][j] else []
                items.insert(r.randint(0, len(items)), bad)
                bad = '|'.join(items)
            t['rows'][i][j] = bad
            done = True
    elif flaw == 'constraint':
        t, j, c = cols(lambda c: '_con' in c)
        if t:
            t['rows'][row_of(t)][j] = constrained(random.Random(c['_con']))[2](r)
            done = True
    elif flaw in ('required', 'null'):
        t, j, c = cols(lambda c: c.get('required'))
        if t:
            nl = c.get('null', (t.get('schema') or {}).get('null', ['']))
            x = r.choice(nl)
            if '' in nl or x:
                t['rows'][row_of(t)][j] = x
                done = True
    elif flaw == 'missingcol':
        t, j, c = cols(lambda c: c.get('required'))
        if t and d.get('header', True):
            j0 = [x for x, c in enumerate(t['columns']) if c.get('required')][-1]
            # the last column of the data is left out, and it is required
            if j0 == len(t['columns']) - 1:
                header[t['url']] = header[t['url']][:-1]
                t['rows'] = [row[:-1] for row in t['rows']]
                done = True
    elif flaw == 'short':
        t, j, c = cols(lambda c: c.get('required'))
        if t:
            i = row_of(t)
            t['rows'][i] = t['rows'][i][:j] if j else ['']
            if j == 0 and '' not in t['columns'][0].get('null', (t.get('schema') or {}).get('null', [''])):
                return flawed(s, None, seed)
            if len(t['rows'][i]) == 1 and not t['rows'][i][0]:
                return flawed(s, None, seed)
            done = True
    elif flaw == 'pk':
        c = [t for t in tables if t['pk'] and len(t['rows']) > 1]
        if c:
            t = r.choice(c)
            a, b = r.sample(range(len(t['rows'])), 2)
            for x in t['pk']:
                j = header[t['url']].index(x)
                v = t['rows'][a][j]
                t['rows'][b][j] = v if t['columns'][j]['datatype'] == 'string' or r.random() < .7 else '0' + v
            done = True
    elif flaw == 'fk':
        c = [(t, f) for t in tables for f in t['fks'] if t['rows']]
        if c:
            t, f = r.choice(c)
            i = row_of(t)
            x = r.choice(f['cols'])
            j = header[t['url']].index(x)
            bad = 'nowhere'
            if t['columns'][j]['datatype'] != 'string':
                ref = next(o for o in tables if o['url'] == f['ref'])
                k = header[ref['url']].index(f['refcols'][f['cols'].index(x)])
                known = {int(row[k]) for row in ref['rows'] if row[k].strip('+-').isdigit()}
                bad = str(next((b for b in ([0, 0, -1] if r.random() < .6 else []) if b not in known), 99999999))
            if t['columns'][j].get('separator') and t['rows'][i][j]:
                items = t['rows'][i][j].split('|')
                items.insert(r.randint(0, len(items)), bad)
                bad = '|'.join(items)
            t['rows'][i][j] = bad
            done = True
    elif flaw == 'fknull':
        c = [(t, f) for t in tables for f in t['fks'] if t['rows'] and not t.get('schema')]
        c = [(t, f, x) for t, f in c for x in f['cols'] if not t['columns'][header[t['url']].index(x)].get('separator') and len(header[t['url']]) > 1]
        if c:
            t, f, x = r.choice(c)
            t['rows'][row_of(t)][header[t['url']].index(x)] = ''
            done = True
    elif flaw == 'fkschema':
        c = [(t, f) for t in tables for f in t['fks']]
        if c:
            t, f = r.choice(c)
            if r.random() < .5:
                f['ref'] = 'other.csv'
            else:
                f['refcols'] = f['refcols'][:-1] + ['nocol']
            done = True
    doc = json.dumps(document(s, tables), ensure_ascii=r.random() < .5).encode('utf-8')
    lt = r.choice(['\n', '\r\n'])
    for t in tables:
        lines = ([header[t['url']]] if d.get('header', True) else []) + t['rows']
        raw[t['url']] = gen.serialise(lines, lib.delimiter(d), lib.quote(d), lt).encode(lib.encoding(d))
    if flaw == 'bytes':
        t = r.choice(tables)
        if lib.encoding(d).lower().startswith('utf-8') and len(raw[t['url']]) > 5:
            b = raw[t['url']]
            k = r.randint(3, len(b))
            while k < len(b) and b[k] & 0xc0 == 0x80:
                k += 1
            raw[t['url']] = b[:k] + r.choice([b'\xff', b'\xc3\x28', b'\xe4']) + b[k:]
            try:
                raw[t['url']].decode('utf-8')
            except UnicodeDecodeError:
                done = True
    elif flaw == 'nofile':
        del raw[r.choice(tables)['url']]
        done = True
    elif flaw == 'mdwarn':
        # a description with an invalid property
        x = json.loads(doc)
        t = r.choice(x.get('tables', [x]))
        where = r.choice([x, t, t['tableSchema'], r.choice(t['tableSchema']['columns'])])
        if where is x or where is t:
            where.update(r.choice([{'tableDirection': 'up'}, {'unknownProperty': 1}, {'lang': '!'}]))
        else:
            where.update(r.choice([{'unknownProperty': 'x'}, {'lang': '1-'}, {'textDirection': 'up'}, {'null': 5}]))
        doc = json.dumps(x).encode()
        done = True
    elif flaw == 'badmd':
        k = r.choice(['cut', 'list', 'tables', 'ctx'])
        x = json.loads(doc)
        if s['src'] == 'http' and s['entry'] != 'md':
            k = 'ctx'  # others are skipped in discovery
        if k == 'cut':
            doc = doc[:r.randint(1, len(doc) - 1)]
            done = True
        elif k == 'list':
            doc = json.dumps([x]).encode()
            done = True
        elif k == 'tables' and not s['single']:
            x['tables'] = []
            doc = json.dumps(x).encode()
            done = True
        elif k == 'ctx':
            x['@context'] = 'http://example.org/'
            doc = json.dumps(x).encode()
            done = True
    return raw, doc, done and flaw is not None


def zipped(name, b):
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w', zipfile.ZIP_DEFLATED) as z:
        z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), b)
    return f.getvalue()


def execute(s, w):
    remote, entry = s['src'] == 'http', s['entry']
    base = w.data / s['dir']
    base.mkdir(exist_ok=True)
    urlbase = HOST + '/' + s['dir']
    mdname = {'md': 'md.json', 'csv': 't0.csv-metadata.json', 'link': 'described.json', 'nomd': None}[entry]
    target = mdname if entry == 'md' else 't0.csv'
    loc = urlbase + target if remote else (str(base / target) if s['abs'] else s['dir'] + target)

    def put(raw, doc):
        for p in list(base.iterdir()):
            if p.is_file():
                p.unlink()
        if remote:
            return
        for name, b in raw.items():
            if s['src'] == 'zip':
                (base / (name + '.zip')).write_bytes(zipped(name, b))
            else:
                (base / name).write_bytes(b)
        if mdname:
            (base / mdname).write_bytes(doc)

    def routes(raw, doc, dl):
        res = {urlbase + k: net.resp(b, ctype='text/csv', framing=dl['framing'], encoding=dl['encoding'],
                                     headers=[('Link', '<%s>; rel="describedby"; type="application/csvm+json"' % mdname)] if entry == 'link' and k == 't0.csv' else [])
               for k, b in raw.items()}
        if mdname:
            res[urlbase + mdname] = net.resp(doc, ctype='application/json', framing=dl['framing'], encoding=dl['encoding'])
        return res

    def one(how, filt, keep):
        """-> 'pos', 'neg' or the exception"""
        from csvw import CSVW
        from csvw.__main__ import csvwvalidate
        warnings.resetwarnings()
        if filt != 'default':
            warnings.simplefilter(filt)
        try:
            if how in ('api', 'lax'):
                obj = keep.get('obj') or CSVW(loc, validate=how == 'api')
                keep['obj'] = obj
                res = obj.is_valid
                return 'pos' if res else 'neg'
            sys.argv = ['csvwvalidate', loc] + (['-v'] if how == 'cmdv' else [])
            out = sys.stdout.tell() if hasattr(sys.stdout, 'tell') else 0
            try:
                csvwvalidate()
                code = 0
            except SystemExit as e:
                code = e.code
            sys.stdout.seek(out)
            said = sys.stdout.read()
            ok = re.search(r'\bOK\b', said) is not None
            if ok != (code in (0, None)):
                return 'mixed: exit status %r, output %r' % (code, said)
            return 'pos' if ok else 'neg'
        except Exception as e:
            return '%s: %s' % (type(e).__name__, str(e).replace(str(w.root), '<R>')[:200])

    def valid(flaw_applied, raw):
        return not flaw_applied

    verdicts = 0
    for k, st in enumerate(s['steps']):
        raw, doc, bad = flawed(s, st['flaw'], st['seed'])
        ctx = 'step %d: %s %s, flaw %s, by %s (warning filter %s)' % (k, s['src'], entry, st['flaw'] if bad else None, st['how'], st['filter'])
        if st['flaw'] == 'mdwarn' and st['how'] == 'lax':
            continue
        put(raw, doc)
        network = None
        if remote:
            def network(faults, dl=st['delivery'], raw=raw, doc=doc):
                return net.Net(routes(raw, doc, dl), faults, dl['seed'], dl['pieces'])

        if 'history' in st and not remote:
            hist = [(None, st['seed'])] + [(f, st['seed'] + 1 + n) for n, f in enumerate(st['history']) if f != 'mdwarn']

            def run():
                keep, res = {}, []
                for f, seed in hist:
                    raw, doc, bad = flawed(s, f, seed)
                    put(raw, doc)
                    if not st['same'] or f in ('badmd', 'fkschema'):
                        keep = {}
                    res.append((one(st['how'], st['filter'], keep), bad, f))
                    if res[-1][0] != 'pos':
                        keep = {}
                return res
            o = w.victim(run)
            if not o.ok:
                w.fail('error', 'validating failed: %r %s; %s' % (o, o.tb, ctx))
            for n, (v, bad, f) in enumerate(o.value):
                check(w, v, bad, 'validation %d of history %s, now with flaw %s; %s' % (n, st['history'], f if bad else None, ctx))
            w.nontrivial += 1
            w.record([x[0] for x in o.value])
            continue

        def run():
            return one(st['how'], st['filter'], {})
        o = w.victim(run, net=network([]) if remote else None)
        if not o.ok:
            w.fail('error', 'validating failed: %r %s; %s' % (o, o.tb, ctx))
        v0 = o.value
        verdicts += 1
        w.probe('flaw_%s' % (st['flaw'] if bad else None))
        w.record(v0)
        if bad:
            w.nontrivial += 1
        check(w, v0, bad, ctx)
        if 'net' in st:
            if st['delivery']['framing'] == 'close' and any(f['kind'] == 'trunc' for f in st['net']):
                st = dict(st, delivery=dict(st['delivery'], framing='length'))
                network.__defaults__ = (st['delivery'],) + network.__defaults__[1:]
            nreq = max(1, len(o.netlog))
            fl = [dict(f, req=1 + (f['req'] - 1) % nreq) for f in st['net']]
            o = w.victim(run, net=network(fl))
            ctx += '; under %s: %s' % (fl, [x[:3] for x in o.netlog])
            if not o.ok:
                w.fail('error', 'validating failed: %r %s; %s' % (o, o.tb, ctx))
            soft = [urlbase + 't0.csv-metadata.json', urlbase + 'csv-metadata.json', HOST + '/.well-known/csvm', HOST + '/t0.csv-metadata.json']
            failed = None
            for n, (m, url, what, size) in enumerate(o.netlog):
                if isinstance(what, str) or what >= 400:
                    if not isinstance(what, str) and (m == 'HEAD' or url in soft):
                        if url not in routes(raw, doc, st['delivery']) and m != 'HEAD':
                            continue
                        failed = 'soft'  # the description may be another one
                        break
                    if isinstance(what, str) and m == 'HEAD' and what == 'trunc':
                        continue
                    failed = (n, url)
            w.record(o.value, o.netlog)
            if failed == 'soft':
                continue
            if o.value == 'pos':
                if bad:
                    w.fail('approved', 'invalid data are approved: ' + ctx)
                if failed and (fl[0].get('times', 1) > 1 or not any(x[1] == failed[1] and x[2] == 200 for x in o.netlog[failed[0] + 1:])):
                    w.fail('approved', 'data which could not be retrieved are approved: ' + ctx)
            elif not failed and v0 == 'pos' and not o.fired:
                w.fail('rejected', 'valid data are rejected (%s) although no fault fired: %s' % (o.value, ctx))
            if w.sample is None and o.fired:
                w.sample = {'entry': loc, 'fault': fl, 'requests': o.netlog, 'verdict': o.value}
        elif 'faults' in st:
            faults = place(st['faults'], o.counts)
            if faults is None:
                w.probe('unplaced')
                continue
            o = w.victim(run, faults, net=network([]) if remote else None)
            ctx += '; under %s' % faults
            if not o.ok:
                w.fail('error', 'validating failed: %r %s; %s' % (o, o.tb, ctx))
            hit = [path for slot, cls, path, fk, a, b, res in w.fs.log() if fk == 'ERRNO' and path.endswith(('.csv', '.zip', '.json'))]
            w.record(o.value)
            if gen.is_legal(faults):
                if o.value.split(':')[0] != v0.split(':')[0]:
                    w.fail('legal', 'short reads or EINTR change the verdict from %s to %s: %s' % (v0, o.value, ctx))
            elif o.value == 'pos':
                if bad:
                    w.fail('approved', 'invalid data are approved: ' + ctx)
                if hit and faults[0]['times'] > 1 and faults[0]['cls'] in ('READ', 'OPENR'):
                    w.fail('approved', 'data which could not be read are approved: %s (%s)' % (ctx, hit[:3]))
            elif o.value.startswith('mixed'):
                w.fail('mixed', o.value + '; ' + ctx)
            if w.sample is None and o.fired and not gen.is_legal(faults):
                w.sample = {'entry': loc.replace(str(w.root), '<R>'), 'fault': faults, 'verdict': o.value}
        elif 'damage' in st and not remote and not bad and raw:
            r = random.Random(st['seed'])
            name = r.choice(sorted(raw))
            if s['src'] == 'zip':
                p = base / (name + '.zip')
                b = bytearray(p.read_bytes())
                k = min(len(b) - 1, int(st['at'] * len(b)))
                if st['damage'] == 'cut':
                    b = b[:k]
                elif st['damage'] == 'flip':
                    b[k] ^= 1 << r.randint(0, 7)
                else:
                    b[k:k + 30] = bytes(len(b[k:k + 30]))
                p.write_bytes(bytes(b))
                o = w.victim(run)
                w.fired['ARCHIVE_' + st['damage'].upper()] += 1
                w.nontrivial += 1
                if o.ok and o.value == 'pos' and damaged(p, name, raw[name]):
                    w.fail('approved', 'a damaged archive is approved: %s %s' % (st, ctx))
                w.record(o.value)
    w.state(verdicts)


def damaged(path, name, b):
    try:
        with zipfile.ZipFile(str(path)) as z:
            return z.read(name) != b
    except Exception:
        return True


def check(w, v, bad, ctx):
    if v.startswith('mixed'):
        w.fail('mixed', v + '; ' + ctx)
    if bad and v == 'pos':
        w.fail('approved', 'invalid data are approved: ' + ctx)
    if not bad and v != 'pos':
        w.fail('rejected', 'valid data are rejected (%s): %s' % (v, ctx))
