"""C17: read-only operations never modify anything."""
import contextlib
import copy
import io
import json
import logging
import os
import pathlib
import random
import sys
import urllib.parse
import warnings
import zipfile

from props import c15
from sim import dbmodel, gen, lib, model, net
from sim.world import place

RUNS = {'quick': 420, 'thorough': 10000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: seeded histories of read-only operations on shared objects with failures injected (errors of disk and network, read-only media, '
             'short reads, abandoned iterations); oracle: the log of system calls, the directory tree with identities and time stamps, and fresh objects')
NOTE = ('Seeded search over histories and fault positions. That nothing is written is judged from every file system call of the process, that nothing in memory '
        'changes by comparing descriptions, rows and conversions with those of fresh objects.')
RULE = ('A scenario is a described group on disk or on the web (plain, zipped, linked data, related with a database, damaged) and histories of 6-16 read-only operations on the same '
        'objects, under no fault, legal perturbations, errors, or with read-only media. Non-trivial: a fault fired, an operation failed, or more than one operation was done with the object.')
COMPONENTS = {'real': ['csvw (all modules)', 'SQLite', 'Python io/csv/zipfile', 'kernel tmpfs', 'requests/urllib3/http.client'],
              'stub': ['outcome of every file call, clock, getrandom (simfs.c)', 'sockets and HTTP server (sim/net.py)']}
ASSUMPTIONS = ['access times are not looked at', 'reading a database which does not exist is not reading an existing one']
SITE = 'http://example.org/d/'
OPS = ['open', 'open', 'rows', 'rows', 'rows', 'rows', 'partial', 'withmeta', 'nonstrict', 'log', 'pk', 'pkitems', 'ri', 'ridata', 'ristrict', 'schema', 'asdict', 'json', 'json', 'minimal', 'valid', 'valid', 'validfresh', 'markdown',
       'markdown', 'inherit', 'values', 'fks', 'package', 'locate', 'read', 'expand', 'tablegroup', 'samedata', 'plaincsv', 'cmdvalidate', 'cmdjson', 'cmdmarkdown', 'str', 'memory']
DBOPS = ['dbread', 'dbread', 'dbread', 'dbnew', 'dbsql', 'dbexists']


def generate(r, i, tier):
    kind = r.choice(['linked', 'plain', 'plain', 'db', 'db'])
    if kind == 'linked':
        g = c15.linked(r)
    elif kind == 'plain':
        gd = model.dialect(r, plain=.5)
        g = {'dialect': gd, 'props': {}, 'tables': [model.table(r, model.url(r, k, ['t%d.csv'] * 3), group_dialect=gd, nrows=r.choice([0, 1, 3, 6]) if r.random() < .97 else r.choice([60, 300]), titles=True, constraints=r.random() < .3) for k in range(r.choice([1, 1, 2, 3]))]}
        for t in g['tables']:
            if r.random() < .4:
                model.decorate(r, t)
    else:
        g = dbmodel.group(r)
        g.setdefault('props', {})
    for p in r.sample(c15.PROPS, r.choice([0, 0, 1, 3])):
        g['props'][p] = c15.prop(r, 9 if p == 'dc:description' else 0)
    for t in g['tables']:
        for p in r.sample(c15.PROPS, r.choice([0, 0, 1, 2])):
            t.setdefault('extra', {})[p] = c15.prop(r, 9 if p == 'dc:description' else 0)
    s = {'kind': kind, 'g': g, 'seed': r.randint(0, 10**6), 'where': r.choice(['local'] * 5 + ['http'] * 2), 'zip': [r.random() < .25 for _ in g['tables']], 'trans': r.choice(dbmodel.TRANS) if kind == 'db' else 'none'}
    for t in g['tables']:
        x = t.setdefault('extra', {})
        if r.random() < .25:
            x['@id'] = 'http://example.org/' + gen.ident(r)
        if r.random() < .25:
            x['notes'] = [{'@type': 'x', 'dc:y': gen.cell(r)}]
    s['perm'] = r.choice([0, 0, r.randint(1, 1000)])
    if r.random() < .3:
        s['damage'] = {'table': r.randint(0, 5), 'kind': r.choice(['byte', 'cut', 'dup', 'dup', 'short', 'long', 'quote', 'missing', 'empty', 'comment', 'db', 'bad']), 'at': round(r.random(), 3)}
    hist = []
    for _ in range(r.choice([2, 2, 3])):
        steps = []
        for _ in range(r.randint(6, 16)):
            op = r.choice(OPS + (DBOPS * 2 if kind == 'db' and s['where'] == 'local' else []))
            steps.append({'op': op, 't': r.randint(0, 5), 'k': r.choice([0, 1, 2]), 'seed': r.randint(0, 1000)})
        h = {'steps': steps, 'objects': r.choice(['group', 'csvw', 'csvw', 'both'])}
        x = r.random()
        if x < .25:
            h['faults'] = []
        elif x < .35:
            h['faults'] = gen.legal_plan(r)
        elif x < .5 and s['where'] == 'local':
            # read-only media
            e = r.choice(['EROFS', 'EACCES', 'EPERM'])
            h['faults'] = [{'kind': 'ERRNO', 'cls': c, 'at': 1, 'times': 10**9, 'arg': e} for c in ('OPENW', 'WRITE', 'RENAME', 'UNLINK', 'TRUNC', 'MKDIR', 'LINK', 'CHMOD')]
            h['media'] = True
        elif s['where'] == 'http' and x < .85:
            h['faults'] = []
            h['net'] = [net.fault(r, 12) for _ in range(r.choice([1, 2, 4]))]
            for f in h['net']:
                f.pop('times', None)
        else:
            h['faults'] = [{'kind': 'ERRNO', 'cls': r.choice(['READ', 'READ', 'OPENR', 'STAT', 'CLOSE']), 'arg': r.choice(['EIO', 'ESTALE', 'EMFILE']), 'frac': round(r.random(), 4), 'times': r.choice([1, 1, 2, 5])}
                           for _ in range(r.choice([1, 1, 2, 3]))]
        hist.append(h)
    s['hist'] = hist
    s['delivery'] = net.delivery(r)
    return s


def valid(s):
    return c15.valid(s) and len(s['zip']) == len(s['g']['tables'])


class Stop(Exception):
    pass


def identity(root):
    """Everything below root: kind, identity, mode, size, modification and change times, content."""
    res = {}
    for d, dirs, files in os.walk(str(root)):
        for n in sorted(dirs + files) + (['.'] if d == str(root) else []):
            p = os.path.join(d, n)
            st = os.lstat(p)
            x = [st.st_mode, st.st_ino, st.st_uid, st.st_gid, st.st_nlink, st.st_mtime_ns, st.st_ctime_ns]
            if os.path.isfile(p):
                x.append(open(p, 'rb').read())
            res[os.path.relpath(p, str(root))] = x
    return res


def execute(s, w):
    g = s['g']
    md = w.data / 'md.json'
    dbp = w.data / 'x.sqlite'
    tables = g['tables']

    def prepare():
        from csvw import TableGroup
        from csvw.db import Database
        lib.put_md(w, g)
        tg = TableGroup.from_file(md)
        for t in tables:
            tg.tabledict[t['url']].write(lib.items(t))
        if s.get('perm'):
            # the columns of the files come in another order
            g2 = copy.deepcopy(g)
            for k, t in enumerate(g2['tables']):
                random.Random(s['perm'] + k).shuffle(t['columns'])
            lib_md = w.data / 'perm.json'
            lib_md.write_text(json.dumps(model.group_json(g2)))
            tg2 = TableGroup.from_file(lib_md)
            for t in tables:
                if lib.has_header(model.effective(g, t)):
                    tg2.tabledict[t['url']].write(lib.items(t))
            lib_md.unlink()
        if s['kind'] == 'db':
            Database(tg, fname=dbp, translate=dbmodel.translator(s['trans'])).write_from_tg()
        (w.data / 'datapackage.json').write_text(json.dumps({'profile': 'data-package', 'name': 'x', 'title': 'X', 'resources': [
            {'name': t['url'], 'path': t['url'], 'profile': 'tabular-data-resource', 'schema': {'fields': [{'name': 'a%d' % k, 'type': 'string'} for k in range(len(t['columns']))], 'missingValues': ['', 'x']}} for t in tables]}))
        for t, z in zip(tables, s['zip']):
            if z:
                p = w.data / t['url']
                with zipfile.ZipFile(str(p) + '.zip', 'w') as zf:
                    zf.write(str(p), arcname=p.name)
                if s['seed'] % 3 and s['where'] == 'local':
                    p.unlink()
    o = w.victim(prepare, count=False)
    if not o.ok:
        w.fail('prepare', 'writing the tables failed: %r\n%s' % (o, o.tb))
    if s.get('damage'):
        d = s['damage']
        t = tables[d['table'] % len(tables)]
        p = w.data / t['url']
        if d['kind'] == 'db' and s['kind'] == 'db':
            p = dbp
        if not p.is_file():
            p = w.data / (t['url'] + '.zip')
        b = p.read_bytes()
        at = int(d['at'] * len(b))
        lines = b.split(b'\n')
        if d['kind'] == 'missing':
            p.unlink()
        else:
            p.write_bytes({'byte': b[:at] + b'\xff\xfe\x9d' + b[at:], 'cut': b[:at], 'dup': b + (lines[-2] + b'\n' if len(lines) > 1 else b), 'long': b + b'1,2,3,4,5,6,7,8,9\r\n', 'bad': b.replace(b'1', b'x').replace(b'true', b'maybe'),
                           'short': b + b'x\r\n', 'quote': b[:at] + b'"' + b[at:], 'empty': b'', 'comment': b + b'#comment\r\n', 'db': b[:max(at, 1)]}[d['kind']])
    (w.data / 'other.csv').write_text('a,b,a b\r\n1,x,"y\r\nz"\r\n\r\n2,,3\r\n')
    for n in ('md.json-metadata.json.bak', 't0.csv.tmp', '.~lock.t0.csv#', 'x.sqlite.bak'):
        (w.data / n).write_text('left alone')
    for d in ('home', 'home/.cache'):
        (w.root / d).mkdir(exist_ok=True)
    os.environ['HOME'] = str(w.root / 'home')
    os.environ['XDG_CACHE_HOME'] = str(w.root / 'home' / '.cache')
    start = identity(w.root)
    routes = {}
    if s['where'] == 'http':
        for name, b in w.tree(w.data).items():
            routes[SITE + urllib.parse.quote(name)] = net.resp(b, ctype='application/json' if name.endswith('.json') else 'text/csv', framing=s['delivery']['framing'] if s['delivery']['framing'] != 'close' else 'length', encoding=s['delivery']['encoding'])
    src = md if s['where'] == 'local' else SITE + 'md.json'

    def clean(x):
        return x.replace(str(w.root), '<R>')

    def T(o, a):
        ts = list(o.tables)
        if not ts:
            raise ValueError('no tables')
        return ts[a['t'] % len(ts)]

    def group():
        from csvw import TableGroup
        return TableGroup.from_file(src)

    def csvw_():
        from csvw import CSVW
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return CSVW(str(src))

    def database(tg):
        from csvw.db import Database
        return Database(tg, fname=dbp, translate=dbmodel.translator(s['trans']))

    def dicts(rows):
        return [model.canon_row(x) for x in rows]

    # -- the operations on (group, CSVW object, database); each gives JSON ------------------------------
    def op_open(o, a):
        return group().asdict()

    def op_rows(o, a):
        return dicts(T(o['tg'], a))

    def op_partial(o, a):
        it = T(o['tg'], a).iterdicts()
        res = [model.canon_row(x) for _, x in zip(range(a['k']), it)]
        if a['seed'] % 3 == 0:
            with contextlib.suppress(Stop, StopIteration):
                it.throw(Stop())
        it.close()
        return res

    def op_withmeta(o, a):
        return [[clean(str(f)) if not hasattr(f, 'read') else None, n, model.canon_row(x)] for f, n, x in T(o['tg'], a).iterdicts(with_metadata=True)]

    def op_nonstrict(o, a):
        return dicts(T(o['tg'], a).iterdicts(strict=False))

    def op_log(o, a):
        out = io.StringIO()
        h = logging.StreamHandler(out)
        log = logging.getLogger('sim')
        log.propagate = False
        log.handlers = [h]
        rows = dicts(T(o['tg'], a).iterdicts(log=log))
        return [rows, clean(out.getvalue())]

    def op_pk(o, a):
        return [t.check_primary_key(log=logging.getLogger('quiet') if a['k'] else None) for t in o['tg'].tables]

    def same(before, after, what):
        if before != after:
            raise Changed('the %s passed in have been changed: %s' % (what, lib.first_diff(after, before)))

    def op_pkitems(o, a):
        t = T(o['tg'], a)
        rows = list(t.iterdicts(with_metadata=True))
        before = lib.norm([model.canon_row(x[2]) for x in rows])
        try:
            return t.check_primary_key(log=logging.getLogger('quiet'), items=rows)
        finally:
            same(before, lib.norm([model.canon_row(x[2]) for x in rows]), 'rows')

    def op_ri(o, a):
        return o['tg'].check_referential_integrity(log=logging.getLogger('quiet') if a['k'] else None)

    def op_ridata(o, a):
        data = o['tg'].read()
        before = lib.norm({k: dicts(v) for k, v in data.items()})
        o['held'].append((data, before))
        try:
            return o['tg'].check_referential_integrity(data=data, log=logging.getLogger('quiet'))
        finally:
            same(before, lib.norm({k: dicts(v) for k, v in data.items()}), 'data')

    def op_ristrict(o, a):
        return o['tg'].check_referential_integrity(strict=True)

    def op_schema(o, a):
        return o['tg'].validate_schema(strict=bool(a['k']))

    def op_asdict(o, a):
        return [o['tg'].asdict(), o['tg'].asdict(omit_defaults=False), [t.asdict() for t in o['tg'].tables], [c.asdict() for t in o['tg'].tables for c in t.tableSchema.columns]]

    def op_json(o, a):
        return json.loads(clean(json.dumps(o['csvw'].to_json())))

    def op_minimal(o, a):
        return json.loads(clean(json.dumps(o['csvw'].to_json(minimal=True))))

    def op_valid(o, a):
        return o['csvw'].is_valid

    def op_validfresh(o, a):
        from csvw import CSVW
        c = CSVW(str(src), validate=True)
        return [c.is_valid, c.is_valid, [clean(str(x.message)) for x in c.warnings]]

    def op_markdown(o, a):
        from csvw.utils import metadata2markdown
        return clean(metadata2markdown(o['tg'], link_files=bool(a['k']) and s['where'] == 'local'))

    def op_inherit(o, a):
        return [[t.inherit('null'), t.inherit('lang'), t.inherit('aboutUrl') is None, [[c.inherit(k) if isinstance(c.inherit(k), (str, list)) else None for k in ('null', 'lang', 'separator', 'default', 'required')] + [c.inherit_null(), c.header, str(c)]
                for c in t.tableSchema.columns]] for t in o['tg'].tables]

    def op_values(o, a):
        res = []
        t = T(o['tg'], a)
        for row in list(t.iterdicts())[:3]:
            for c in t.tableSchema.columns:
                if not c.virtual:
                    v = row[c.header]
                    before = model.canon(v)
                    x = c.write(v)
                    res.append([x, model.canon(c.read(x))])
                    same(before, model.canon(v), 'values')
        return res

    def op_fks(o, a):
        return [[x[0].local_name, x[1], x[2].local_name, x[3]] for x in o['tg'].foreign_keys()] + [[c.name for c in t.tableSchema.columns if t.get_column(c.name) is c] for t in o['tg'].tables]

    def op_package(o, a):
        from csvw import TableGroup
        if a['k']:
            spec = json.loads((w.data / 'datapackage.json').read_text())
            before = copy.deepcopy(spec)
            try:
                return TableGroup.from_frictionless_datapackage(spec).asdict()
            finally:
                same(before, spec, 'data package')
        return TableGroup.from_frictionless_datapackage(w.data / 'datapackage.json').asdict()

    def op_locate(o, a):
        from csvw import CSVW
        t = tables[a['t'] % len(tables)]
        u = str(w.data / t['url']) if s['where'] == 'local' else SITE + urllib.parse.quote(t['url'])
        return json.loads(clean(json.dumps(CSVW.locate_metadata(u))))

    def op_read(o, a):
        data = o['tg'].read()
        res = lib.norm({k: dicts(v) for k, v in data.items()})
        o['held'].append((data, res))
        return res

    def op_expand(o, a):
        t = T(o['tg'], a)
        return [str(t.url.resolve(t.base)).replace(str(w.root), '<R>'), clean(str(t.base)), [repr(t.expand(c.inherit(k), row, _row=1)) for row in list(t.iterdicts())[:2] for c in t.tableSchema.columns for k in ('aboutUrl', 'propertyUrl', 'valueUrl')
                                                                                        if c.inherit(k)]]

    def op_tablegroup(o, a):
        tg = o['csvw'].tablegroup
        return [json.loads(clean(json.dumps(tg.asdict()))), lib.norm({k: dicts(v) for k, v in tg.read().items()})]

    def op_plaincsv(o, a):
        """A file without any description."""
        from csvw import CSVW
        from csvw import TableGroup
        p = w.data / 'other.csv'
        if a['k'] == 0:
            c = CSVW(str(p))
            it = c.tables[0].iterdicts()
            next(it)
            it.close()
            return [c.is_valid, json.loads(clean(json.dumps(c.to_json()))), dicts(c.tables[0].iterdicts()), c.is_valid, json.loads(clean(json.dumps(c.to_json())))]
        d = {'header': a['k'] == 1, 'headerRowCount': a['k'] % 2}
        tg = TableGroup.from_file(md, data={'@context': 'http://www.w3.org/ns/csvw', 'tables': [{'url': 'other.csv', 'dialect': d}]}) if a['seed'] % 2 else \
            TableGroup.from_file(md, data={'@context': 'http://www.w3.org/ns/csvw', 'dialect': d, 'tables': [{'url': 'other.csv', 'tableSchema': {'columns': []}}]})
        res = [tg.asdict(omit_defaults=False), dicts(tg.tables[0].iterdicts())]
        it = tg.tables[0].iterdicts()
        next(it)
        it.close()
        res += [tg.asdict(omit_defaults=False), dicts(tg.tables[0].iterdicts())]
        same(res[0], res[2], 'description')
        same(res[1], res[3], 'rows')
        return res

    def op_samedata(o, a):
        """The same JSON object, opened twice."""
        from csvw import TableGroup
        data = json.loads(json.dumps(model.group_json(g)))
        res = []
        for _ in range(2):
            res.append(TableGroup.from_file(md, data=data).asdict())
        same(res[0], res[1], 'metadata')
        return res[1]

    def command(name, *args):
        import csvw.__main__ as m
        out, argv = io.StringIO(), sys.argv
        sys.argv = [name] + [str(x) for x in args]
        try:
            with contextlib.redirect_stdout(out):
                try:
                    getattr(m, name)()
                    code = None
                except SystemExit as e:
                    code = e.code
        finally:
            sys.argv = argv
        return [code, clean(out.getvalue())]

    def op_cmdvalidate(o, a):
        return command('csvwvalidate', src, *['-v'] * a['k'])

    def op_cmdjson(o, a):
        return command('csvw2json', src)

    def op_cmdmarkdown(o, a):
        if s['where'] != 'local':
            return
        return command('csvw2markdown', src)

    def op_str(o, a):
        return [[str(c), c.name, c.header, str(t.url), t.local_name, str(t.tableSchema.columns[0].titles)] for t in o['tg'].tables for c in t.tableSchema.columns]

    def op_memory(o, a):
        """Writing to memory reads the description only."""
        k = a['t'] % len(tables)
        t = o['tg'].tabledict[tables[k]['url']]
        rows = lib.items(tables[k])
        before = lib.norm([model.canon_row(x) for x in rows])
        try:
            return t.write(rows, fname=None).hex()
        finally:
            same(before, lib.norm([model.canon_row(x) for x in rows]), 'rows')

    def content(x):
        return [[k, dicts(v)] for k, v in x.items()]

    def op_dbread(o, a):
        return content(o['db'].read())

    def op_dbnew(o, a):
        return content(database(o['tg']).read())

    def op_dbsql(o, a):
        return [t.sql(translate=o['db'].translate) for t in o['db'].tables]

    def op_dbexists(o, a):
        """Writing to an existing database is refused."""
        try:
            o['db'].write_from_tg()
        except ValueError as e:
            if isinstance(e, UnicodeError):     # where in the data depends on how it was delivered
                raise
            return clean(str(e))

    class Changed(Exception):
        pass

    impl = {k[3:]: f for k, f in list(locals().items()) if k.startswith('op_')}

    def objects():
        tg = group()
        return {'tg': tg, 'csvw': csvw_(), 'db': database(tg) if s['kind'] == 'db' else None, 'held': []}

    def fingerprint(o):
        c = o['csvw']
        return [o['tg'].asdict(), o['tg'].asdict(omit_defaults=False), c.t.asdict(), c.t.asdict(omit_defaults=False), lib.norm(c.common_props), [x.local_name for x in c.tables],
                [[clean(str(x.base)), x._parent is not None] for x in list(o['tg'].tables)]]

    def do(fn, o, a):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                return lib.norm(fn(o, a))
            except Changed:
                raise
            except Exception as e:
                tb = e.__traceback__
                while tb.tb_next:
                    tb = tb.tb_next
                if tb.tb_frame.f_code.co_filename == __file__ and not isinstance(e, ValueError):
                    raise
                return 'EXC ' + type(e).__name__

    def alone(steps):
        def f():
            res = []
            for a in steps:
                res.append(do(impl[a['op']], objects(), a))
            o = objects()
            return res, lib.norm(fingerprint(o)), lib.norm([do(op_rows, o, {'t': k}) for k in range(len(tables))])
        return f

    def history(h, want, fp, n):
        def f():
            o = objects()
            res = []
            fired = lambda: sum(v for k, v in w.fs.fired(1).items() if k != 'PAUSE') + sum(nt.fired.values() if nt else [])  # noqa
            for j, a in enumerate(h['steps']):
                k = fired()
                try:
                    x = do(impl[a['op']], o, a)
                except Changed as e:
                    return ['changed', j, str(e)]
                res.append(x if isinstance(x, str) and x.startswith('EXC') else 'ok')
                hit = fired() != k
                if x != want[j] and not (hit and (isinstance(x, str) and x.startswith('EXC') or a['op'] in ('valid', 'validfresh', 'cmdvalidate', 'locate', 'pk', 'nonstrict') or nt)):
                    return ['result', j, lib.first_diff(x, want[j])]
                now = lib.norm(fingerprint(o))
                if now != fp:
                    return ['description', j, lib.first_diff(now, fp)]
                for data, before in o['held']:
                    if lib.norm({k: dicts(v) for k, v in data.items()}) != before:
                        return ['held', j, lib.first_diff(lib.norm({k: dicts(v) for k, v in data.items()}), before)]
                if a['op'] == 'valid' and hit:
                    o['csvw'] = csvw_retry(o['csvw'])   # is_valid keeps the warnings of a check which was disturbed
            for k in range(len(tables)):
                x = do(op_rows, o, {'t': k})
                if x != rows[k] and not (isinstance(x, str) and fired()):
                    return ['rows', k, lib.first_diff(x, rows[k])]
            return ['ok', len(res), res]

        def csvw_retry(old):
            for _ in range(20):
                try:
                    return csvw_()
                except Exception:
                    pass
            return old
        rows = n
        nt = fresh_net(h) if s['where'] == 'http' else None
        return f, nt

    def fresh_net(h=None):
        return net.Net(routes, (h or {}).get('net', ()), s['delivery']['seed'], s['delivery']['pieces'])

    def untouched(ctx):
        now = identity(w.root)
        if now != start:
            w.fail('tree', 'files changed: %s; %s' % ([(k, 'gone' if k not in now else 'new' if k not in start else 'changed %s' % [n for n, a, b in zip(('mode', 'inode', 'uid', 'gid', 'nlink', 'mtime', 'ctime', 'content'), now[k], start[k]) if a != b]) for k in sorted(set(now) | set(start)) if now.get(k) != start.get(k)], ctx))
        calls = [(cls, path.replace(str(w.root), '<R>')) for slot, cls, path, kind, a, b, res in w.fs.log()
                 if cls in ('WRITE', 'RENAME', 'UNLINK', 'TRUNC', 'MKDIR', 'LINK', 'CHMOD') or cls == 'OPENW' and not path.endswith('x.sqlite')]
        if calls:
            w.fail('calls', 'modifying calls: %s; %s' % (calls[:8], ctx))

    for h in s['hist']:
        o = w.victim(alone(h['steps']), net=fresh_net() if s['where'] == 'http' else None)
        if not o.ok:
            if s.get('damage'):
                w.probe('unreadable')
                untouched('outcome %r' % o)
                return
            w.fail('alone-' + o.exc[0] if o.exc else o.status, 'reading failed without any fault: %r\n%s' % (o, o.tb))
        names = [a['op'] for a in h['steps']]
        untouched('operations %s, each alone' % names)
        want, fp, rows = o.value
        for a, x in zip(h['steps'], want):
            w.probe(('exc_' if isinstance(x, str) and x.startswith('EXC') else 'ok_') + a['op'] + ('_' + x[4:] if isinstance(x, str) and x.startswith('EXC') else ''))
        runs = [[]]
        if h['faults'] or h.get('net'):
            runs.append(h['faults'])
        counts = None
        for k, plan in enumerate(runs):
            fn, nt = history(h if k else dict(h, net=[]), want, fp, rows)
            faults = place(plan, counts or {}) if plan else []
            if faults is None:
                w.probe('unplaced')
                continue
            o = w.victim(fn, faults, net=nt)
            counts = counts or o.counts
            ctx = 'operations %s, faults %s %s' % (names, faults, h.get('net', '') if k else '')
            if not o.fired:
                w.nontrivial += 1
            untouched(ctx)
            if o.status == 'exc' and faults and not h.get('media') and not gen.is_legal(faults) or o.status == 'exc' and h.get('net'):
                w.probe('unopened')     # the objects cannot be opened
                continue
            if not o.ok:
                w.fail('error', 'outcome %r; %s\n%s' % (o, ctx, o.tb))
            if o.value[0] != 'ok':
                what = {'result': 'operation %d (%s) gives another result than with fresh objects' % (o.value[1], names[min(o.value[1], len(names) - 1)]),
                        'description': 'after operation %d (%s) the description is another one' % (o.value[1], names[min(o.value[1], len(names) - 1)]),
                        'held': 'after operation %d (%s) rows read before are changed' % (o.value[1], names[min(o.value[1], len(names) - 1)]),
                        'changed': 'operation %d (%s)' % (o.value[1], names[min(o.value[1], len(names) - 1)]), 'rows': 'at the end, the rows of table %d are read differently' % o.value[1]}[o.value[0]]
                w.fail(o.value[0], '%s: %s; %s' % (what, o.value[2], ctx))
            w.state(names, o.value[2], sorted(o.fired))
            w.record(o.value)
            if w.sample is None and o.fired:
                w.sample = {'kind': s['kind'], 'where': s['where'], 'operations': names, 'placed': faults or h.get('net'), 'outcomes': o.value[2]}
