"""C13: results do not depend on when or where the code runs."""
import contextlib
import datetime
import io
import json
import os
import pathlib
import random
import time
import zipfile

from sim import dbmodel, gen, lib, model

RUNS = {'quick': 400, 'thorough': 9000}
LEVEL = 'exploration'
TECHNIQUE = ('deterministic simulation: the same seeded history executed under seeded simulated clocks (midnight, leap days, jumps, standstill), time '
             'zones, locales, default encodings and working directories; differential comparison and a reference model')
NOTE = ('Seeded search over histories and environments. Every history runs in five processes with different locale, default encoding and time zone '
        'settings, and in each of them under several clocks and working directories. Only the C locale and UTF-8 are installed here, so other '
        'locales are present as environment settings (which babel evaluates), not as libc locales.')
RULE = ('A scenario is a table group or a related group (written, saved, reopened, loaded into a database, converted), datatype conversions and '
        'row-level files; each is executed under 3-4 clocks/zones/directories in each of five process environments. Non-trivial: an execution '
        'under an environment other than the first one.')
COMPONENTS = {'real': ['csvw (all modules)', 'SQLite', 'babel, isodate, dateutil', 'Python io/csv/zipfile', 'kernel tmpfs'],
              'stub': ['clock, file time stamps (simfs.c)', 'time zone and locale settings (environment of the processes)']}
ASSUMPTIONS = ['no path outside of ASCII under an ASCII file system encoding, and no text outside of ASCII printed to an ASCII terminal']

TZS = ['UTC', '<+14>-14', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', '<+0545>-5:45', '<-12>12', 'XYZ0', 'UTC-4']


def ts(*a):
    return int(datetime.datetime(*a, tzinfo=datetime.timezone.utc).timestamp()) * 10**9


CLOCKS = [0, 1, ts(1979, 12, 31, 23, 59, 59), ts(2000, 2, 29, 23, 59, 59) + 999_990_000, ts(2024, 2, 29, 12), ts(2023, 12, 31, 23, 59, 59) + 999_999_000, ts(2024, 3, 10, 6, 59, 59),
          ts(2024, 3, 31, 0, 59, 59), ts(2024, 10, 27, 0, 59, 59), ts(2038, 1, 19, 3, 14, 7), ts(2024, 1, 31, 23, 59, 59) + 999_000_000, ts(2026, 5, 30, 12), ts(2107, 12, 31, 23, 59, 58), ts(2110, 1, 1),
          ts(2069, 6, 6), ts(2024, 4, 30)]
DAY = 86400 * 10**9
RAWTIME = [
    ('time', None, ['00:00:00', '23:59:59', '12:30:00', '23:59:59Z', '10:00:00+01:00', '10:00:00 EST', '24:00:00', '1:2:3', '', '10:00:00-12:00']),
    ('time', 'HH:mm', ['00:00', '23:59', '10:00 CET', '2:3']), ('time', 'HHmm', ['0000', '2359', '100']), ('time', 'HH:mm:ss.SSS', ['23:59:59.999', '00:00:00.1', '01:02:03']),
    ('time', 'HH:mmX', ['10:00Z', '10:00+01', '10:00', '10:00EST', '10:00 UTC', '10:00CET']), ('time', 'HH:mm:ss XXX', ['10:00:00 +01:00', '10:00:00 Z', '10:00:00 EST', '10:00:00 XYZ']),
    ('datetime', None, ['2024-02-29T10:00:00', '2024-02-29', '10:00', '2023-02-29T00:00:00', '2024-12-31T23:59:59.999999Z', '2024-W01-1', '2024-12', '2024']),
    ('datetime', 'yyyy-MM-dd HH:mm', ['2024-02-29 10:00', '2024-02-29 10:00 EST', '1-2-3 4:5']), ('datetime', 'yyyy-MM-ddTHH:mm:ssX', ['2024-02-29T10:00:00Z', '2024-02-29T10:00:00EST', '2024-03-10T02:30:00-05']),
    ('datetime', 'd.M.yyyy HH:mm XXX', ['29.2.2024 10:00 +05:45', '1.2.2024 10:00 CET', '31.12.1999 23:59 -12:00', '31.1.0031 10:00 +01:00']),
    ('datetime', 'M/d/yyyy HH:mm XX', ['2/29/2024 10:00 +0545', '12/31/1999 23:59 GMT', '2/3/2024 10:00 EDT']),
    ('date', None, ['2024-02-29', '2023-02-29', '2024-02', '2024', '24-02-29', '2024-02-29Z', '2024-02-29+14:00', '2024-02-29 EST']), ('date', 'd.M.yyyy', ['1.2.2024', '29.2.2023', '31.4.2024', '1.2.24']),
    ('date', 'MM/dd/yyyy', ['02/29/2024', '13/01/2024']), ('date', 'd.M.yyyyX', ['1.2.2024Z', '1.2.2024+01:00', '1.2.2024+01', '1.2.2024 EST']), ('date', 'yyyyMMdd', ['20240229', '240229']),
    ('dateTimeStamp', None, ['2024-02-29T10:00:00Z', '2024-02-29T10:00:00.123456+01:00', '2024-02-29T10:00:00', '2024-02-29T10:00:00EST']),
    ('duration', None, ['P1M', 'P1Y', 'P1Y2M3DT4H', 'PT36H', '-P1M', 'P1W', 'P0.5Y']), ('yearMonthDuration', None, ['P1Y2M', 'P13M']), ('dayTimeDuration', None, ['P1DT1H']),
    ('decimal', None, ['1.5', '1,5', '1.000,5', '1,000.5', '1e3', '-0', '٣', '1 000', 'NaN', '12%']), ('decimal', {'groupChar': '.', 'decimalChar': ','}, ['1.000,5', '1,000.5', '1,5']),
    ('decimal', '#,##0.00', ['1,000.50', '1.000,50', '0.50']), ('decimal', {'pattern': '#,##0.00', 'groupChar': '.', 'decimalChar': ','}, ['1.000,50', '1,000.50']),
    ('integer', {'groupChar': ' '}, ['1 000', '1000', '1.000', '1,000']), ('float', None, ['1.5', '1,5', 'NaN', 'INF', '1e5', '1_0']), ('number', None, ['1.5', '1,5', '٣']), ('boolean', None, ['true', 'wahr', 'ja', '1', 'True']),
    ('gDay', None, ['--29']), ('gMonthDay', None, ['--02-29']), ('string', None, ['ä']), ('json', None, ['{"ä": "\\u00e4"}', '[1.5]'])]


def generate(r, i, tier):
    kind = r.choice(['group'] * 4 + ['db'] * 3 + ['dsv'] * 2)
    s = {'kind': kind, 'seed': r.randint(0, 10**6), 'rel': r.random() < .25, 'sub': r.random() < .3}
    if kind == 'db':
        s['g'] = dbmodel.group(r)
        s['trans'] = 'none'
    elif kind == 'group':
        gd = model.dialect(r, plain=.5)
        kinds = r.choice([None, None, ['time', 'date', 'datetime', 'stamp', 'duration'], ['decimal', 'int', 'float', 'bool'], ['string', 'json', 'regex', 'uri']])
        tables = [model.table(r, model.url(r, k, ['t%d.csv'] * 3), group_dialect=gd, kinds=kinds, nrows=r.choice([0, 1, 3, 6]) if r.random() < .97 else 200, titles=True) for k in range(r.choice([1, 1, 2]))]
        for t in tables:
            if r.random() < .3:
                model.decorate(r, t)
        props = {}
        if r.random() < .5:
            props['dc:title'] = gen.cell(r)
        if r.random() < .3:
            props['dc:description'] = gen.cell(r)
        s['g'] = {'dialect': gd, 'tables': tables, 'props': props}
        s['zipped'] = r.random() < .35
        s['package'] = r.random() < .3
        s['note'] = gen.cell(r)
    else:
        enc = r.choice(['utf-8', 'utf-8', 'latin-1', 'utf-16', 'cp1252', 'utf-8-sig'])
        chars = 'latin' if enc in ('latin-1', 'cp1252') else 'uni'
        n = r.randint(1, 3)
        s.update(enc=enc, header=['c%d' % k for k in range(n)], rows=[[gen.cell(r, chars) for _ in range(n)] for _ in range(r.choice([0, 1, 3, 8]))],
                 new=[[gen.cell(r, chars) for _ in range(n)] for _ in range(r.choice([1, 2]))], mod=r.randint(2, 4), via=r.choice(['kw', 'dialect']))
    s['dt'] = []
    for _ in range(r.randint(1, 4)):
        if r.random() < .6:
            b, f, vals = r.choice(RAWTIME)
            s['dt'].append({'spec': {'base': b, 'format': f} if f else b, 'raw': r.sample(vals, min(len(vals), r.randint(1, 4)))})
        else:
            dt, lit = model.datatype(r, ['time', 'date', 'datetime', 'stamp', 'duration', 'decimal', 'int', 'float', 'bytes', 'json', 'uri'])
            s['dt'].append({'spec': dt, 'lits': [lit(r, 'uni') for _ in range(r.randint(1, 3))]})
    if r.random() < .3:
        b, lo, mid, hi = r.choice([('time', '08:00:00', '12:00:00', '20:00:00'), ('date', '2024-01-01', '2024-02-29', '2024-12-31'),
                                   ('datetime', '2024-01-01T00:00:00', '2024-02-29T12:00:00', '2024-12-31T00:00:00'), ('decimal', '-1.5', '0', '10.25')])
        s['dt'].append({'spec': {'base': b, 'minimum': lo, 'maximum': hi}, 'raw': [lo, mid, hi]})
    s['envs'] = []
    for _ in range(r.choice([2, 2, 3])):
        e = {'clock': r.choice(CLOCKS) + (r.randint(0, 10**9) if r.random() < .3 else 0), 'tick': r.choice([0, 0, 1, 10**6, 10**9, 3600 * 10**9, DAY]), 'tz': r.choice(TZS + [None]),
             'cwd': r.choice(['/', '.', 'sub', 'root', 'elsewhere']), 'mid': r.random() < .4, 'rand': r.randint(1, 10**6)}
        if r.random() < .5:
            e['jump'] = [r.choice([1, 1, 2, 3, 5, 10]), r.choice([DAY, -DAY, 366 * DAY, -3600 * 10**9, 10**9, -10**6, 30 * DAY])]
        s['envs'].append(e)
    return s


def configs(s):
    return ['base', 'kiritimati', 'newyork', 'clocale', 'germany']


BASE = {'clock': None, 'tick': 10**6, 'tz': None, 'cwd': '.', 'mid': False, 'rand': 1}


def execute(s, w):
    g = s.get('g')
    home = w.data / 'sub' if s['sub'] else w.data

    def env_setup(e):
        if e['tz']:
            os.environ['TZ'] = e['tz']
            time.tzset()
        dirs = {'/': str(w.root / 'far' / 'away'), '.': str(home), 'sub': str(w.data / 'other'), 'root': str(w.root), 'elsewhere': str(w.tmp)}
        if s['rel']:
            # paths relative to a directory at or above the data
            os.chdir(str(w.root) if e['cwd'] in ('/', 'root') else str(w.data) if e['cwd'] in ('sub', 'elsewhere') else str(home))
        else:
            os.chdir(dirs[e['cwd']])

    def P(name):
        p = home / name
        return pathlib.Path(os.path.relpath(str(p))) if s['rel'] else p

    def moved(e):
        """The environment changes between two steps."""
        if e['mid']:
            os.environ['TZ'] = '<+09>-9' if e['tz'] != '<+09>-9' else 'UTC'
            time.tzset()
            if not s['rel']:
                os.chdir(str(w.root / 'far' / 'away') if e['cwd'] != '/' else str(home))

    def clean(x):
        for a, b in [(str(home), '<D>'), (str(w.root), '<R>')]:
            x = x.replace(a, b)
        return x

    def attempt(out, key, fn):
        try:
            v = fn()
            out[key] = v if isinstance(v, (str, list, dict, int)) or v is None else repr(v)
        except (ValueError, TypeError, KeyError, AssertionError, AttributeError, IndexError) as e:
            out[key] = 'EXC ' + type(e).__name__

    def group(e, out):
        from csvw import TableGroup, CSVW
        from csvw.utils import metadata2markdown
        md = P('md.json')
        tg = TableGroup.from_file(md)
        for t in g['tables']:
            tg.tabledict[t['url']].write(lib.items(t), _zipped=s.get('zipped', False))
        moved(e)
        md = P('md.json')
        if s['rel']:
            tg = TableGroup.from_file(md)
        for t in g['tables']:
            p = home / t['url']
            if s.get('zipped'):
                with zipfile.ZipFile(str(p) + '.zip') as z:
                    out['zip ' + t['url']] = [[n, z.read(n).hex()] for n in z.namelist()]
            else:
                out['csv ' + t['url']] = p.read_bytes().hex()
        out['rows'] = {t.local_name: [model.canon_row(r) for r in t.iterdicts()] for t in tg.tables}
        out['mem'] = {t['url']: tg.tabledict[t['url']].write(lib.items(t), fname=None).hex() for t in g['tables']}
        tg.to_file(P('md2.json'))
        out['md'] = clean((home / 'md2.json').read_bytes().decode('utf-8'))
        attempt(out, 'json', lambda: clean(json.dumps(CSVW(str(P('md2.json')) if s['rel'] else str(home / 'md2.json')).to_json())))
        if s['rel'] and not out['json'].startswith('EXC'):
            out['json'] = out['json'].replace('../', '').replace('d/sub/', '').replace('d/', '').replace('sub/', '')
        attempt(out, 'markdown', lambda: clean(metadata2markdown(TableGroup.from_file(P('md2.json')), link_files=True)))
        if s.get('package'):
            dp = TableGroup.from_frictionless_datapackage(P('datapackage.json'))
            out['package'] = clean(json.dumps(dp.asdict()))
            if not s.get('zipped'):
                dp.write(P('dp-metadata.json'), **{t.local_name: list(t) for t in dp.tables})
                out['packagemd'] = clean((home / 'dp-metadata.json').read_bytes().decode('utf-8'))
                out['packagerows'] = {t.local_name: [model.canon_row(x) for x in t] for t in TableGroup.from_file(P('dp-metadata.json')).tables}
        if s['kind'] == 'group' and not s.get('zipped'):
            # a new value in the same number of bytes: time stamps do not tell the files apart
            t = g['tables'][0]
            if len(t['rows']) > 1:
                back = dict(t, rows=t['rows'][::-1])
                tg.tabledict[t['url']].write(lib.items(back))
                out['reverse'] = [model.canon_row(r) for r in tg.tabledict[t['url']].iterdicts()]

    def db(e, out):
        from csvw import TableGroup
        from csvw.db import Database
        import sqlite3
        tg = TableGroup.from_file(P('md.json'))
        fname = P('x.sqlite')
        d = Database(tg, fname=str(fname))
        if s['rel']:
            d.write_from_tg()
        else:
            moved(e)
            d.write_from_tg()
        out['db'] = dbmodel.read_db(d)
        with contextlib.closing(sqlite3.connect(str(home / 'x.sqlite'))) as c:
            out['dump'] = list(c.iterdump())

    def dsv(e, out):
        from csvw import dsv as m
        import csvw
        kw = {'encoding': s['enc']} if s['via'] == 'kw' else {'dialect': csvw.Dialect(encoding=s['enc'])}
        f = P('f.csv')
        with m.UnicodeWriter(f, **kw) as wr:
            wr.writerow(s['header'])
            wr.writerows(s['rows'])
        out['written'] = (home / 'f.csv').read_bytes().hex()
        moved(e)
        f = P('f.csv')
        out['read'] = list(m.reader(f, **kw))
        m.rewrite(f, lambda i, row: row if i % s['mod'] != 1 else row[::-1], **kw)
        out['rewritten'] = (home / 'f.csv').read_bytes().hex()
        out['dicts'] = [list(map(list, d.items())) for d in m.reader(f, dicts=True, **kw)]
        if s['enc'] == 'utf-8' and s['via'] == 'kw':
            m.add_rows(f, *s['new'])
            m.filter_rows_as_dict(f, lambda d: len(d['c0']) % s['mod'] != 1)
            out['edited'] = (home / 'f.csv').read_bytes().hex()
        with m.UnicodeWriter(None, **kw) as wr:
            wr.writerows(s['rows'])
        out['mem'] = wr.read().hex()

    def datatypes(out, late):
        from csvw import Datatype
        for k, d in enumerate(s['dt']):
            try:
                dt = Datatype.fromvalue(d['spec'])
            except ValueError:
                out['dt%d' % k] = 'invalid'
                continue
            for j, x in enumerate(d.get('raw', [])):
                def one():
                    v = dt.read(x)
                    if d['spec'] in ('duration', 'yearMonthDuration') or isinstance(v, datetime.timedelta):
                        return [model.canon(v), dt.formatted(v)]
                    try:
                        f = dt.formatted(v)
                    except Exception as e:
                        f = 'EXC ' + type(e).__name__
                    if late and x == d['raw'][0]:
                        # what was read before the clock moved on compares with what is read now
                        f = [f, dt.read(x) == v]
                    return [model.canon(v), f]
                attempt(out, 'dt%d.%d' % (k, j), one)
            base = model.base_of(d['spec'])
            for j, lit in enumerate(d.get('lits', [])):
                v = model.decode(base, lit)
                txt = dt.formatted(v)
                back = dt.read(txt)
                out['dt%d.lit%d' % (k, j)] = [txt, model.canon(back)]
                want = ['uri', v] if base == 'anyURI' else model.canon(v)
                if lib.norm(model.canon(back)) != lib.norm(want):
                    out['BAD %d.%d' % (k, j)] = [repr(d['spec']), repr(v), txt, repr(back)]

    def run(e):
        def f():
            out = {}
            env_setup(e)
            {'group': group, 'db': db, 'dsv': dsv}[s['kind']](e, out)
            datatypes(out, True)
            if s['kind'] == 'group' and s['seed'] % 3 == 0:
                from csvw import Datatype
                a = Datatype.fromvalue('time').read('23:59:59')
                out['order'] = a > Datatype.fromvalue('time').read('00:00:00')
            return lib.norm(out)
        return f

    def package():
        res = []
        for t in g['tables']:
            d = model.effective(g, t)
            rsc = {'name': t['url'][:-4], 'path': t['url'], 'scheme': 'file', 'format': 'csv', 'encoding': lib.encoding(d),
                   'schema': {'fields': [{'name': model.header(c, i), 'type': 'string'} for i, c in enumerate(t['columns'])]},
                   'dialect': {k: v for k, v in d.items() if k in ('delimiter', 'quoteChar', 'skipInitialSpace', 'header')}}
            if 'commentPrefix' in d:
                rsc['dialect']['commentChar'] = d['commentPrefix']
            res.append(rsc)
        return {'name': 'pkg', 'title': 'Titel ä 日本', 'description': s['note'], 'resources': res}

    def prepare():
        (w.data / 'other').mkdir(exist_ok=True)
        (w.root / 'far' / 'away').mkdir(parents=True, exist_ok=True)
        home.mkdir(exist_ok=True)
        if g:
            (home / 'md.json').write_text(json.dumps(model.group_json(g), ensure_ascii=False), encoding='utf-8')
        if s.get('package'):
            (home / 'datapackage.json').write_text(json.dumps(package(), ensure_ascii=False), encoding='utf-8')
        if s['kind'] == 'db':
            def store():
                from csvw import TableGroup
                tg = TableGroup.from_file(home / 'md.json')
                for t in g['tables']:
                    tg.tabledict[t['url']].write(lib.items(t))
            o = w.victim(store)
            if not o.ok:
                w.fail('error', 'writing the tables failed: %r\n%s' % (o, o.tb))

    prepare()
    saved = w.save()
    first = None
    for k, e in enumerate([BASE] + s['envs']):
        w.restore(saved)
        o = w.victim(run(e), clock=e['clock'], tick=e['tick'], jump=e.get('jump'), seed=e['rand'])
        ctx = 'environment %s' % e
        if not o.ok:
            w.fail('error', 'the history failed: %r; %s\n%s' % (o, ctx, o.tb))
        bad = [v for key, v in o.value.items() if key.startswith('BAD')]
        if bad:
            w.fail('value', 'a value is not preserved by formatting and reading: %s; %s' % (bad[0], ctx))
        want = None
        if s['kind'] == 'group':
            want, got = lib.expected_group(g), o.value['rows']
        elif s['kind'] == 'db':
            want, got = dbmodel.db_expected(g, 'none'), o.value['db']
        elif s['kind'] == 'dsv':
            want, got = [s['header']] + s['rows'], o.value['read']
            text = bytes.fromhex(o.value['written']).decode(s['enc'])
            if gen.parse(text) != want:
                w.fail('encoding', 'the file was not written in the encoding %s; %s' % (s['enc'], ctx))
        if got != want:
            w.fail('rows', 'read != written: %s; %s' % (lib.first_diff(got, want), ctx))
        if k == 0:
            first = o.value
            w.outputs = first
        else:
            w.nontrivial += 1
            w.probe('env_' + ('jump' if e.get('jump') else 'clock'))
            if e['tz']:
                w.probe('tz')
            if o.value != first:
                w.fail('environment', 'results differ from those at another time or place: %s; %s' % (lib.first_diff(o.value, first), ctx))
        if w.sample is None and k:
            w.sample = {'kind': s['kind'], 'environment': e, 'datatypes': s['dt'][:2]}
        w.record(o.status)
    leftovers = [f for f in w.tree(w.tmp)]
    if leftovers:
        w.fail('leftover', 'temporary files left: %s' % leftovers)


def judge(s, results):
    c0, first = results[0]
    for c, r in results[1:]:
        if r['outputs'] != first['outputs']:
            return {'cls': 'environment', 'sig': 'environment', 'config': c, 'msg': 'results in the process environment %r differ from those in %r: %s' % (
                c, c0, lib.first_diff(r['outputs'], first['outputs']))}
