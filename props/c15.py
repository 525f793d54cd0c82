"""C15: conversion output is deterministic."""
import contextlib
import gc
import io
import json
import os
import pathlib
import random
import sqlite3
import sys
import zipfile

from sim import dbmodel, gen, lib, model
from sim.world import place

RUNS = {'quick': 260, 'thorough': 7000}
LEVEL = 'exploration'
TECHNIQUE = ('deterministic simulation: the same seeded conversions in processes with different hash seeds, heap layouts, clocks, process histories, '
             'orders of work and legal I/O behaviour (short reads, EINTR); differential comparison of every output byte')
NOTE = ('Seeded search over inputs and environments: four hash seeds, and in each process two simulated environments with two repetitions each. An output whose order depends on a set of n '
        'members differs between two hash seeds with probability 1-1/n!, so four seeds and many scenarios leave little room.')
RULE = ('A scenario is a table group with linked subjects, a plain or a related group, converted in every way the library offers (JSON, markdown, '
        'metadata, CSV, SQLite, data package, commands), in each of four processes under two environments, twice in a row or in another order with '
        'other work between. Non-trivial: a repetition or environment other than the first.')
COMPONENTS = {'real': ['csvw (all modules)', 'SQLite', 'rdflib', 'babel', 'kernel tmpfs'],
              'stub': ['hash seed and address layout (process settings)', 'clock, outcome of file calls (simfs.c)']}
ASSUMPTIONS = ['times stored in archives and files are not part of the output']


class Again(Exception):
    pass


HASHES = ['base', 'hash2', 'hash3', 'hash4']


def configs(s):
    return HASHES


def linked(r):
    """Tables whose rows describe several linked subjects."""
    tables = []
    for k in range(r.choice([1, 1, 2])):
        t = model.table(r, 't%d.csv' % k, nrows=r.choice([1, 2, 3, 5]), kinds=['string', 'pint', 'bool', 'uri', 'float', 'xx'][:r.choice([1, 3, 5])], lists=.15)
        subjects = ['http://example.org/s%d-{_row}' % j for j in range(r.choice([1, 2, 2, 3, 5]))] + r.choice([[], ['http://example.org/all'], ['#frag-{_row}'], ['urn:isbn:{_row}']])
        props = r.sample(['http://example.org/p', 'http://example.org/q', 'schema:name', 'schema:url', 'rdf:type', 'dc:title', 'foaf:knows', 'http://example.org/p#{_name}'], r.choice([1, 2, 3, 5]))
        values = subjects + r.choice([[], ['http://example.org/v'], ['schema:Person', 'schema:Place']])
        if r.random() < .5:
            t.setdefault('schema', {})['aboutUrl'] = r.choice(subjects)
        for c in t['columns']:
            if r.random() < .7:
                c['aboutUrl'] = r.choice(subjects)
            if r.random() < .6:
                c['propertyUrl'] = r.choice(props)
            if r.random() < .35:
                c['valueUrl'] = r.choice(values)
            if r.random() < .05:
                c['suppressOutput'] = True
        t['virtual'] = []
        for j in range(r.choice([0, 1, 2, 4, 6])):
            v = {'name': 'v%d' % j, 'propertyUrl': r.choice(props), 'valueUrl': r.choice(values)}
            if r.random() < .8:
                v['aboutUrl'] = r.choice(subjects)
            t['virtual'].append(v)
        if not t['virtual']:
            del t['virtual']
        if r.random() < .3:
            t.setdefault('schema', {})['rowTitles'] = [c['name'] for c in t['columns'] if c.get('name')][:2]
        tables.append(t)
    return {'dialect': {}, 'tables': tables, 'props': {}}


PROPS = ['dc:title', 'dc:description', 'dc:license', 'schema:keywords', 'rdfs:label', 'dc:creator', 'http://example.org/x', 'foaf:page']


def prop(r, depth=0):
    x = r.random()
    if x < .4 or depth > 1:
        return gen.ident(r)
    if x < .6:
        return {'@value': gen.ident(r), '@language': r.choice(['en', 'de'])}
    if x < .7:
        return {'@id': 'http://example.org/' + gen.ident(r)}
    if x < .85:
        return [prop(r, depth + 1) for _ in range(r.randint(1, 3))]
    return {p: prop(r, depth + 1) for p in r.sample(PROPS, 2)}


def generate(r, i, tier):
    kind = r.choice(['linked'] * 4 + ['plain'] * 2 + ['db'] * 3)
    s = {'kind': kind, 'seed': r.randint(0, 10**6)}
    if kind == 'linked':
        g = linked(r)
    elif kind == 'plain':
        gd = model.dialect(r, plain=.6)
        g = {'dialect': gd, 'props': {}, 'tables': [model.table(r, model.url(r, k, ['t%d.csv', 'ä%d.csv', 'B %d.csv']), group_dialect=gd, nrows=r.choice([0, 1, 3, 6]) if r.random() < .96 else r.choice([60, 300]), titles=True) for k in range(r.choice([1, 2, 3, 5]))]}
        for t in g['tables']:
            if r.random() < .5:
                model.decorate(r, t)
    else:
        g = dbmodel.group(r, nrows=r.choice([1, 2, 4]))
        g.setdefault('props', {})
        s['trans'] = r.choice(dbmodel.TRANS)
    for p in r.sample(PROPS, r.choice([0, 0, 1, 3, 6])):
        g['props'][p] = prop(r, 9 if p == 'dc:description' else 0)
    for t in g['tables']:
        for p in r.sample(PROPS, r.choice([0, 0, 0, 1, 3])):
            t.setdefault('extra', {})[p] = prop(r, 9 if p == 'dc:description' else 0)
        for c in t['columns']:
            if r.random() < .05:
                p = r.choice(PROPS)
                c[p] = prop(r, 9 if p == 'dc:description' else 0)
    s['g'] = g
    if kind != 'linked' and r.random() < .4:
        fields = [{'name': gen.ident(r) + str(k), 'type': r.choice(['string', 'integer', 'number', 'boolean', 'date']), 'title': gen.ident(r), 'description': gen.ident(r)} for k in range(r.choice([1, 3, 5]))]
        s['package'] = {'name': 'pkg', 'title': gen.ident(r), 'keywords': [gen.ident(r) for _ in range(r.choice([0, 2, 4]))], 'licenses': [{'name': 'CC0', 'path': 'http://example.org/l'}], 'contributors': [{'title': gen.ident(r)}],
                        'resources': [{'name': 'r%d' % k, 'path': 'r%d.csv' % k, 'scheme': 'file', 'format': 'csv', 'profile': 'tabular-data-resource', 'title': gen.ident(r),
                                       'schema': {'fields': fields, 'primaryKey': fields[0]['name'], 'missingValues': ['', 'NA']}} for k in range(r.choice([1, 2, 3]))]}
    s['narrow'] = [t['url'] for t in g['tables'] if kind != 'db' and r.random() < .2]
    s['comments'] = [gen.ident(r) for _ in range(r.choice([0, 0, 2, 3, 5]))]
    if s['comments'] and kind == 'plain' and r.random() < .5:
        for t in g['tables']:
            (t['dialect'] if t.get('dialect') else g['dialect'] if g.get('dialect') else g.setdefault('dialect', {})).setdefault('commentPrefix', '#')
    s['envs'] = []
    for _ in range(2):
        s['envs'].append({'clock': r.choice([None, 10**18, 17 * 10**17 + r.randint(0, 10**15)]), 'rand': r.randint(1, 10**6), 'noise': r.choice([0, 1, 10, 1000, 5000]), 'gc': r.choice([None, 1, 50, 0]),
                          'order': r.randint(0, 10**6), 'decoy': r.random() < .3, 'reps': r.choice([1, 2, 2, 3]), 'threads': 0,
                          'faults': gen.legal_plan(r) if r.random() < .25 else []})
    return s


def valid(s):
    return bool(s.get('g', {}).get('tables')) and all('props' in s['g'] and t.get('columns') for t in s['g']['tables'])


def execute(s, w):
    g = s['g']
    # Relative paths: the order of sets of strings must not depend on where the scratch directory is.
    here = pathlib.Path('d')
    md = here / 'md.json'

    def clean(x):
        return x.replace(str(w.root), '<R>')

    def twice(f, *a, **kw):
        """The same object, asked again."""
        x, y = f(*a, **kw), f(*a, **kw)
        if x != y:
            raise Again(lib.first_diff(lib.norm(y), lib.norm(x)) if not isinstance(x, str) else lib.first_diff(y.splitlines(), x.splitlines()))
        return x

    def command(name, *args):
        import csvw.__main__ as m
        out, argv = io.StringIO(), sys.argv
        sys.argv = [name] + [str(a) for a in args]
        try:
            with contextlib.redirect_stdout(out):
                try:
                    getattr(m, name)()
                    code = None
                except SystemExit as e:
                    code = e.code
        finally:
            sys.argv = argv
        return [code, clean(out.getvalue())]

    class Traced:
        """The SQL statements which reach SQLite."""
        def __enter__(self):
            self.log, self.connect = [], sqlite3.connect

            def connect(*a, **k):
                c = self.connect(*a, **k)
                c.set_trace_callback(self.log.append)
                return c
            sqlite3.connect = connect
            return self.log

        def __exit__(self, *a):
            sqlite3.connect = self.connect

    # -- the conversions: each gives text or JSON ---------------------------------------------
    def c_json(tag):
        from csvw import CSVW
        c = CSVW(str(md))
        return [clean(twice(lambda: json.dumps(c.to_json(minimal=m)))) for m in (False, True)]

    def c_tablejson(tag):
        from csvw import CSVW
        return clean(json.dumps(CSVW(str(here / g['tables'][0]['url'])).to_json()))

    def c_markdown(tag):
        from csvw import TableGroup
        from csvw.utils import metadata2markdown
        tg = TableGroup.from_file(md)
        return [clean(twice(metadata2markdown, tg, link_files=x)) for x in (True, False)]

    def c_metadata(tag):
        from csvw import TableGroup
        tg = TableGroup.from_file(md)
        tg.to_file(here / ('out%s.json' % tag))
        return [twice(lambda: json.dumps(tg.asdict(omit_defaults=x))) for x in (True, False)] + [(here / ('out%s.json' % tag)).read_text(encoding='utf-8')]

    def c_tables(tag):
        from csvw import TableGroup
        tg = TableGroup.from_file(md)
        return [twice(lambda: json.dumps([[t.local_name, [model.canon_row(x) for x in t]] for t in tg.tables])), json.dumps([[t.local_name, [fk.asdict() for fk in t.tableSchema.foreignKeys]] for t in tg.tables])]

    def c_csv(tag):
        from csvw import TableGroup
        tg = TableGroup.from_file(md)
        return [twice(lambda: tg.tabledict[t['url']].write(lib.items(t, 'mixed', s['seed']), fname=None).hex()) for t in g['tables']]

    def c_group(tag):
        from csvw import TableGroup
        tg = TableGroup.from_file(md)
        d = here / ('grp%s' % tag)
        d.mkdir()
        n = tg.write(d / 'md.json', _zipped=s['seed'] % 3 == 0, **{t['url']: lib.items(t) for t in g['tables']})
        res = {}
        for k, v in w.tree(d).items():
            if k.endswith('.zip'):
                with zipfile.ZipFile(io.BytesIO(v)) as z:
                    v = b''.join(z.read(m) for m in z.namelist())
            res[k] = v.hex()
        tg2 = TableGroup.from_file(d / 'md.json')
        e = here / ('cpy%s' % tag)
        e.mkdir()
        if s['seed'] % 3:
            tg2.copy(e)
            res.update({'copy ' + k: v.hex() for k, v in w.tree(e).items()})
        return [list(n) if isinstance(n, (list, tuple)) else n, sorted(res.items())]

    def c_db(tag):
        from csvw import TableGroup
        from csvw.db import Database
        tg = TableGroup.from_file(md)
        f = here / ('db%s.sqlite' % tag)
        with Traced() as log:
            db = Database(tg, fname=f, translate=dbmodel.translator(s['trans']))
            db.write_from_tg()
            content = twice(lambda: json.dumps([[k, [model.canon_row(x) for x in v]] for k, v in db.read().items()]))

            def dumped():
                with contextlib.closing(sqlite3.connect(str(f))) as c:
                    return list(c.iterdump())
            dump = dumped()
            if s['seed'] % 2:
                # again, by the same object
                db.write_from_tg(_force=True)
                if dumped() != dump:
                    raise Again(lib.first_diff(dumped(), dump))
        return {'statements': [clean(x) for x in log], 'read': content, 'dump': dump, 'bytes': f.read_bytes().hex()}

    def c_memdb(tag):
        from csvw import TableGroup
        from csvw.db import Database
        with Traced() as log:
            db = Database(TableGroup.from_file(md), translate=dbmodel.translator(s['trans']))
            db.write(**{t['url']: lib.items(t) for t in g['tables']})
            return {'statements': log[:], 'read': json.dumps([[k, [model.canon_row(x) for x in v]] for k, v in db.read().items()])}

    def c_package(tag):
        from csvw import TableGroup
        return clean(json.dumps(TableGroup.from_frictionless_datapackage(here / 'datapackage.json').asdict()))

    def c_cmdjson(tag):
        return command('csvw2json', md)

    def c_cmdmarkdown(tag):
        return command('csvw2markdown', md)

    def c_datasette(tag):
        d = here / ('ds%s' % tag)
        d.mkdir()
        code, out = command('csvw2datasette', md, '--outdir', d)
        res = [code, out.replace('ds%s' % tag, 'ds')]
        for k, v in sorted(w.tree(d).items()):
            res.append([k, v.hex()])
        return res

    def c_sqlite(tag):
        f = here / ('cmd%s.sqlite' % tag)
        code, out = command('csvw2sqlite', md, f)
        return [code, f.read_bytes().hex() if f.exists() else None]

    todo = {'linked': ['json', 'json', 'tablejson', 'markdown', 'metadata', 'cmdjson'],
            'plain': ['json', 'tablejson', 'markdown', 'metadata', 'tables', 'csv', 'group', 'cmdjson', 'cmdmarkdown'],
            'db': ['json', 'markdown', 'metadata', 'tables', 'csv', 'group', 'db', 'memdb', 'datasette', 'sqlite']}[s['kind']]
    if s.get('package'):
        todo.append('package')
    todo = sorted(set(todo))
    impl = {k[2:]: f for k, f in list(locals().items()) if k.startswith('c_')}

    def noise(e, rng):
        keep = []
        for _ in range(e['noise']):
            x = [object() for _ in range(rng.randint(0, 9))] + [bytearray(rng.randint(1, 700)), {str(rng.random()): None}]
            if rng.random() < .5:
                keep.append(x)
        return keep

    def decoy(rng):
        """Other work of the same kind in between."""
        from csvw import Table, Datatype
        t = Table.fromvalue({'url': 'decoy.csv', 'tableSchema': {'aboutUrl': 'http://example.org/d{_row}', 'columns': [
            {'name': c, 'propertyUrl': 'schema:' + c, 'datatype': rng.choice(['string', 'integer', {'base': 'decimal', 'format': {'decimalChar': ','}}])} for c in rng.sample(['id', 'name', 'C0', 'C1', 'order', 'x'], 3)]}})
        t._fname = here / 'decoy-md.json'
        t.write([[None] * 3, [None] * 3])
        list(t)
        Datatype.fromvalue({'base': 'date', 'format': 'd.M.yyyy'}).read('1.2.2024')
        (here / 'decoy.csv').unlink()

    def run(e, n):
        def f():
            rng = random.Random(e['order'])
            os.chdir(str(w.root))
            keep = [noise(e, rng)]
            if e['gc'] is not None:
                gc.set_threshold(e['gc']) if e['gc'] else gc.disable()
            res = {}
            for rep in range(e['reps']):
                order = list(todo)
                if rep or n:
                    rng.shuffle(order)
                for k in order:
                    if e['decoy']:
                        decoy(rng)
                    try:
                        x = impl[k]('%d-%d' % (n, rep))
                    except Again as ex:
                        x = 'AGAIN ' + str(ex)
                    except Exception as ex:
                        tb = ex.__traceback__
                        while tb.tb_next:
                            tb = tb.tb_next
                        if tb.tb_frame.f_code.co_filename == __file__:
                            raise
                        if isinstance(ex, (TypeError, AttributeError, NameError, IndexError, RecursionError, AssertionError)):
                            # Not an answer to anything which is wrong with the data.
                            raise
                        x = 'EXC ' + type(ex).__name__
                    res.setdefault(k, []).append(lib.norm(x))
                    keep.append(noise(dict(e, noise=e['noise'] // 20), rng))
            return res
        return f

    def prepare():
        from csvw import TableGroup
        os.chdir(str(w.root))
        md.write_text(json.dumps(model.group_json(g)), encoding='utf-8')
        tg = TableGroup.from_file(md)
        for t in g['tables']:
            tab = tg.tabledict[t['url']]
            d = model.effective(g, t)
            if t['url'] in s.get('narrow', []) and d.get('header', True):
                # the last columns, which are optional, are not in the file
                cols = tab.tableSchema.columns
                cols[:] = cols[:max([j + 1 for j, m in enumerate(t['columns']) if m.get('required') or m.get('name') in (t.get('pk') or [])] + [1])]
                tab.write([{k: v for k, v in x.items() if k in [c.header for c in cols]} for x in lib.items(t)])
            else:
                tab.write(lib.items(t))
            if s.get('comments') and d.get('commentPrefix') and lib.encoding(d) != 'utf-16' and (t['rows'] or d.get('header', True)):
                f = here / t['url']
                enc = 'utf-8' if lib.encoding(d) == 'utf-8-sig' else lib.encoding(d)
                f.write_bytes(f.read_bytes() + ''.join('%s%s\r\n' % (d.get('commentPrefix', '#'), x) for x in s['comments']).encode(enc).replace(b'\xef\xbb\xbf', b''))
        if s.get('package'):
            (here / 'datapackage.json').write_text(json.dumps(s['package']), encoding='utf-8')

    o = w.victim(prepare)
    if not o.ok:
        w.fail('prepare', 'writing the tables failed: %r\n%s' % (o, o.tb))
    saved = w.save()
    o = w.victim(run(dict(s['envs'][0], reps=1, faults=[]), 0))
    if not o.ok:
        w.fail('error', 'the conversions failed: %r\n%s' % (o, o.tb))
    counts = o.counts
    first = {}
    for n, e in enumerate(s['envs']):
        w.restore(saved)
        o = w.victim(run(e, n), place(e['faults'], counts) or [], clock=e['clock'], seed=e['rand'])
        if not o.ok:
            w.fail('error', 'the conversions failed: %r; environment %s\n%s' % (o, e, o.tb))
        for k, outs in o.value.items():
            for rep, x in enumerate(outs):
                w.probe('conversions')
                if isinstance(x, str) and x.startswith('AGAIN'):
                    w.fail('repeat', 'conversion %s: the same object gives something else when it is asked again: %s' % (k, x[6:]))
                if k not in first:
                    first[k] = x
                    if isinstance(x, str) and x.startswith('EXC'):
                        w.probe('exc_' + k)
                    continue
                w.nontrivial += 1
                if x != first[k]:
                    w.fail('repeat', 'conversion %s: output differs %s; %s' % (
                        k, 'when it is repeated' if rep else 'in another environment %s' % e, lib.first_diff(x, first[k])))
    w.outputs = first
    w.record(sorted(first))
    if w.sample is None:
        w.sample = {'kind': s['kind'], 'conversions': todo, 'environment': s['envs'][0]}


def judge(s, results):
    c0, first = results[0]
    for c, r in results[1:]:
        if r['outputs'] != first['outputs']:
            return {'cls': 'hashseed', 'sig': 'hashseed', 'config': c, 'msg': 'output differs between processes with the settings %r and %r: %s' % (
                c, c0, lib.first_diff(r['outputs'], first['outputs']))}
