"""C16: failed or abandoned operations leak neither descriptors nor files."""
import argparse
import contextlib
import io
import itertools
import json
import pathlib
import random
import re
import sqlite3
import sys
import urllib.parse
import warnings
import zipfile

from sim import dbmodel, gen, lib, model, net
from sim.world import place

RUNS = {'quick': 800, 'thorough': 14000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: every operation ended by success, by seeded errors (of the data, of callbacks, of the disk, of the network) or by '
             'abandoning its iterators; open descriptors from the kernel interface, finalizer accounting and the directory tree as oracles')
NOTE = ('Seeded search over operations, error placements and points of abandonment. Descriptors are counted with the garbage collector switched off and all '
        'objects of the caller alive, and what only a finalizer closes is reported, so that reference counting does not hide leaks.')
RULE = ('A scenario is a described group on disk (some of its files damaged) and 10-14 operations, each executed from the same state with its own faults and its own '
        'way to end. Non-trivial: the operation failed, a fault fired or an iteration was abandoned.')
COMPONENTS = {'real': ['csvw (all modules)', 'SQLite', 'Python io/csv/zipfile/tempfile', 'kernel tmpfs', 'requests/urllib3/http.client'],
              'stub': ['outcome of every file call, clock, getrandom (simfs.c)', 'sockets and HTTP server (sim/net.py)']}
ASSUMPTIONS = ['a file may stay behind if removing it is what failed', 'SIGINT and crashes are not among the ways to end']
SITE = 'http://example.org/d/'
READERS = ['UnicodeReader', 'UnicodeDictReader', 'UnicodeReaderWithLineNumber', 'NamedTupleReader']
BADKW = [{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {'delimiter': ';'}, {'delimiter': 'ab'}, {'encoding': 'no-such'}, {'encoding': 'ascii'}, {'encoding': 'utf-16'}, {'nonsense': 1}, {'quoting': 99}, {'quotechar': None},
         {'strict': True}, {'lineterminator': 'x'}, {'dialect': 'nope'}, {'doublequote': 'y', 'escapechar': 'zz'}]


def faults(r, write):
    x = r.random()
    if x < .45:
        return []
    if x < .55:
        return gen.legal_plan(r)
    while True:
        p = gen.error_plan(r)
        if write or p[0]['cls'] in ('OPENR', 'READ', 'STAT', 'CLOSE'):
            return p


def end(r):
    return {'k': r.choice([0, 0, 1, 1, 2, 3, 5, 100]), 'how': r.choice(['close', 'close', 'del', 'throw', 'exhaust', 'raise', 'break', 'zip'])}


def generate(r, i, tier):
    if r.random() < .5:
        g = dbmodel.group(r)
        kind = 'db'
    else:
        gd = model.dialect(r, plain=.5)
        g = {'dialect': gd, 'tables': [model.table(r, model.url(r, k, ['t%d.csv'] * 3), group_dialect=gd, nrows=r.choice([0, 1, 3, 6, 40]), constraints=r.random() < .3) for k in range(r.choice([1, 1, 2, 3]))]}
        for t in g['tables']:
            if r.random() < .3:
                model.decorate(r, t)
        kind = 'plain'
    s = {'kind': kind, 'g': g, 'seed': r.randint(0, 10**6), 'zipped': r.random() < .3, 'damage': []}
    for _ in range(r.choice([0, 0, 0, 0, 1, 1, 2])):
        s['damage'].append({'file': r.choice(['md'] + ['table'] * 5), 'table': r.randint(0, 5), 'kind': r.choice(['byte', 'byte', 'cut', 'dup', 'junk', 'short', 'quote', 'remove', 'empty', 'nul', 'dir']),
                            'at': round(r.random(), 3)})
    if r.random() < .2:
        # a second version with a broken constraint
        v = dbmodel.violate(r, g) if kind == 'db' else None
        if v:
            s['violated'] = v[2]
    acts = []
    for _ in range(r.randint(10, 14)):
        op = r.choice(['iter', 'iter', 'iter', 'reader', 'reader', 'writer', 'writer', 'twrite', 'twrite', 'twrite', 'gwrite', 'gwrite', 'copy', 'tofile', 'rewrite', 'rewrite', 'rewrite', 'keys',
                       'keys', 'validate', 'json', 'markdown', 'open', 'open', 'package', 'dbwrite', 'dbwrite', 'dbread', 'cmd', 'cmd', 'http', 'http'])
        a = {'op': op, 't': r.randint(0, 5), 'seed': r.randint(0, 10**6), 'raise_at': r.choice([None, None, None, None, None, 0, 1, 2, 5]), 'faults': faults(r, op in ('writer', 'twrite', 'gwrite', 'copy', 'tofile', 'rewrite', 'dbwrite', 'cmd')),
             'zipped': r.random() < .4, 'missing': r.random() < .1}
        if op in ('iter', 'http'):
            a['end'] = end(r)
            a['log'] = r.random() < .3
            a['via'] = r.choice(['iterdicts', 'iter', 'fname', 'path', 'csvw'])
            a['strict'] = r.random() < .7
            a['abandoned'] = r.choice([0, 0, 0, 1, 3])
        if op in ('reader', 'writer', 'rewrite'):
            a['cls'] = r.choice(READERS)
            a['kw'] = r.choice(BADKW)
            a['dialect'] = r.random() < .3
            a['end'] = end(r)
            a['fn'] = r.choice(['rewrite', 'rewrite', 'filter', 'filter', 'add'])
            a['bad'] = r.choice([None, None, None, None, None, 'surrogate', 'type', 'none', 'nested'])
            a['via'] = r.choice(['with', 'iterrows', 'enter', 'rewind'])
        if op in ('twrite', 'gwrite', 'dbwrite'):
            a['bad'] = r.choice([None, None, None, None, None, 'type', 'extra', 'surrogate', 'short'])
            a['fname'] = r.choice([None, None, None, 'other', 'nodir', 'memory'])
            a['force'] = r.random() < .5
            a['old'] = r.choice([None, None, 'db', 'junk', 'dir'])
            a['how'] = r.choice(['direct', 'tg'])
            a['budget'] = round(r.random() * 1.5, 3) if r.random() < .12 else None
        if op == 'keys':
            a['what'] = r.choice(['pk', 'ri', 'ristrict', 'valid', 'schema'])
        if op == 'open':
            a['what'] = r.choice(['from_file', 'from_file', 'table', 'csvw', 'locate', 'pkgfile', 'from_value', 'readall'])
        if op == 'cmd':
            a['name'] = r.choice(['csvwvalidate', 'csvw2json', 'csvw2sqlite', 'csvw2datasette', 'csvw2markdown'])
            a['old'] = r.choice([None, None, 'db', 'junk'])
        if op == 'http':
            a['net'] = [net.fault(r, 3, ['refuse', 'dns', 'unreach', 'reset', 'trunc', 'trunc', 'status'])] if r.random() < .6 else []
            a['delivery'] = net.delivery(r)
            a['what'] = r.choice(['iter', 'iter', 'csvw', 'valid', 'json', 'from_url', 'mixed'])
        acts.append(a)
    s['acts'] = acts
    return s


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def boom(a):
    """How a caller's callback or loop ends an operation."""
    return [Boom, Boom, Boom, KeyboardInterrupt, Stop, SystemExit][a['seed'] % 6]()


KEEP = []


def finish(it, e, a):
    """Iterate `it` and stop as told."""
    KEEP.append(it)
    if e['how'] in ('break', 'raise', 'zip'):
        if e['how'] == 'zip':
            for _ in zip(range(e['k']), it):
                pass
            it.close()
            return
        for n, _ in enumerate(it):
            if n == e['k']:
                if e['how'] == 'raise':
                    it.close()
                    raise boom(a)
                it.close()
                return
        return
    for _ in range(e['k']):
        try:
            next(it)
        except StopIteration:
            return
    if e['how'] == 'close':
        it.close()
    elif e['how'] == 'throw':
        it.throw(boom(a))
    elif e['how'] == 'exhaust':
        for _ in it:
            pass
    elif e['how'] == 'del':
        KEEP.remove(it)


def execute(s, w):
    g = s['g']
    w.track = True
    tables = g['tables']
    md = w.data / 'md.json'
    dbp = w.data / 'x.sqlite'

    def prepare():
        from csvw import TableGroup
        lib.put_md(w, g)
        tg = TableGroup.from_file(md)
        for t in tables:
            tg.tabledict[t['url']].write(lib.items((s.get('violated') and [x for x in s['violated']['tables'] if x['url'] == t['url']][0]) or t), _zipped=s['zipped'])
        n = [t['url'] for t in tables]
        (w.data / 'datapackage.json').write_text(json.dumps({'profile': 'data-package', 'resources': [
            {'name': u, 'path': u, 'profile': 'tabular-data-resource', 'schema': {'fields': [{'name': 'a', 'type': 'string'}]}} for u in n]}))
        (w.data / 'rows.csv').write_text('a,b\r\n' + ''.join('%d,x%d\r\n' % (k, k) for k in range(20)) + '\xe4,\u4e2d\r\n', encoding='utf-8')
        (w.data / 'dup.csv').write_text('a,a\r\n1,2\r\n', encoding='utf-8')
    o = w.victim(prepare)
    if not o.ok:
        w.probe('unprepared')   # a violated constraint may keep the table from being written
        w.track = False
        if 'violated' not in s:
            w.fail('prepare', 'writing the tables failed: %r\n%s' % (o, o.tb))
        return
    for d in s['damage']:
        t = tables[d['table'] % len(tables)]
        p = md if d['file'] == 'md' else w.data / (t['url'] + ('.zip' if s['zipped'] else ''))
        if not p.is_file():
            continue
        b = p.read_bytes()
        at = int(d['at'] * len(b))
        k = d['kind']
        if k in ('remove', 'dir'):
            p.unlink()
            if k == 'dir':
                p.mkdir()
            continue
        line = b.split(b'\n')
        p.write_bytes({'byte': b[:at] + b'\xff\xfe\x9d' + b[at:], 'cut': b[:at], 'dup': b + (line[-2] + b'\n' if len(line) > 1 else b), 'junk': b + b'"a,\x00\x81,,,,,,,,,,,\n',
                       'short': b + b'x\n', 'quote': b[:at] + b'"' + b[at:], 'empty': b'', 'nul': b[:at] + b'\0' + b[at:]}[k])
    saved = w.save()
    before = w.tree()

    def T(tg, a):
        if not tg.tables:
            raise Boom()
        return tg.tables[a['t'] % len(tg.tables)]

    def rows_of(t, a):
        rng = random.Random(a['seed'])
        rows = lib.items(t, 'mixed', a['seed'])
        for k, row in enumerate(rows):
            if a['raise_at'] is not None and k == min(a['raise_at'], len(rows) - 1):
                raise boom(a)
            if a.get('bad') and rng.random() < .4:
                row = lib.items(t)[k]
                key = rng.choice(list(row))
                if a['bad'] == 'type':
                    row[key] = object()
                elif a['bad'] == 'extra':
                    row['no such column'] = 'x'
                elif a['bad'] == 'surrogate':
                    row[key] = 'x\udc80'
                elif a['bad'] == 'short':
                    row = list(row.values())[:-1]
            yield row

    def local_net():
        """Everything of the data directory, on the web."""
        res = {}
        for name, b in before.items():
            if name.startswith('d/'):
                res[SITE + urllib.parse.quote(name[2:])] = net.resp(b, ctype='application/json' if name.endswith('.json') else 'text/csv')
        return res

    def group():
        from csvw import TableGroup
        tg = TableGroup.from_file(md)
        KEEP.append(tg)
        return tg

    # -- the operations: each returns a function for the victim and the files it may create or change ---------
    def op_iter(a):
        def f():
            from csvw import CSVW
            import logging
            if a['via'] == 'csvw':
                t = T(CSVW(str(md)), a)
            else:
                t = T(group(), a)
            log = logging.getLogger('x') if a['log'] else None
            kw = dict(log=log, strict=a['strict'])
            if a['via'] in ('fname', 'path'):
                p = w.data / (a['missing'] and 'missing.csv' or t.local_name)
                kw['fname'] = str(p) if a['via'] == 'fname' else p
            for _ in range(a['abandoned']):
                it = t.iterdicts(**kw)
                next(it, None)
                it.close()
                KEEP.append(it)
            it = iter(t) if a['via'] == 'iter' else t.iterdicts(**kw)
            finish(it, a['end'], a)
        return f, ()

    def op_reader(a):
        def f():
            from csvw import dsv
            cls = getattr(dsv, a['cls'])
            t = tables[a['t'] % len(tables)]
            p = w.data / random.Random(a['seed']).choice([t['url'], 'rows.csv', 'rows.csv', 'dup.csv', 'datapackage.json'])
            if a['missing']:
                p = w.data / 'missing.csv'
            kw = dict(a['kw'])
            if a['dialect'] and 'dialect' not in kw:
                kw['dialect'] = dsv.Dialect(skipRows=1) if a['seed'] % 2 else dsv.Dialect(delimiter='ab', encoding='latin-1')
            if a['via'] == 'iterrows':
                kw.update(dict_reader={}, **{}) if False else None
                it = dsv.iterrows(p, namedtuples=a['cls'] == 'NamedTupleReader', dicts=a['cls'] == 'UnicodeDictReader', **kw)
                return finish(it, a['end'], a)
            if a['via'] == 'enter':
                rd = cls(p, **kw)
                KEEP.append(rd)
                rd.__enter__()
                exc = (None, None, None)
                try:
                    for n, row in enumerate(rd):
                        if n == a['end']['k']:
                            raise boom(a)
                except BaseException:
                    exc = sys.exc_info()
                rd.__exit__(*exc)
                return
            with cls(str(p) if a['seed'] % 3 else p, **kw) as rd:
                KEEP.append(rd)
                for n, row in enumerate(rd):
                    if n == a['end']['k']:
                        if a['end']['how'] in ('throw', 'raise', 'del'):
                            raise boom(a)
                        break
        return f, ()

    def values(a):
        rng = random.Random(a['seed'])
        for k in range(12):
            if a['raise_at'] is not None and k == a['raise_at']:
                raise boom(a)
            row = ['x%d' % k, k, None, gen.cell(rng)]
            if a['bad'] and rng.random() < .3:
                row = {'surrogate': ['x\udc80'], 'type': 5, 'none': None, 'nested': [object(), ['\udc81']]}[a['bad']]
            yield row

    def op_writer(a):
        def f():
            from csvw import dsv
            kw = dict(a['kw'])
            if a['dialect'] and 'dialect' not in kw:
                kw['dialect'] = dsv.Dialect(commentPrefix=None) if a['seed'] % 2 else dsv.Dialect(delimiter='ab', encoding='latin-1')
            p = w.data / ('none' if a['missing'] else '.') / 'new.csv'
            with dsv.UnicodeWriter(str(p) if a['seed'] % 3 else p, **kw) as wr:
                KEEP.append(wr)
                if a['seed'] % 2:
                    wr.writerows(values(a))
                else:
                    for row in values(a):
                        wr.writerow(row)
        return f, ('d/new.csv',)

    def op_rewrite(a):
        t = tables[a['t'] % len(tables)]
        name = random.Random(a['seed']).choice([t['url'], 'rows.csv', 'rows.csv', 'dup.csv'])
        if a['missing']:
            name = 'missing.csv'

        def f():
            from csvw import dsv
            p = str(w.data / name)
            kw = dict(a['kw'])
            vals = values(a)
            if a['fn'] == 'rewrite':
                def visit(k, row):
                    if k == a['raise_at']:
                        raise boom(a)
                    if a['bad'] and k == a['end']['k']:
                        return {'surrogate': ['x\udc80'], 'type': 5, 'none': None, 'nested': [object(), ['\udc81']]}[a['bad']]
                    return row
                dsv.rewrite(p, visit, **kw)
            elif a['fn'] == 'filter':
                def keep(item):
                    nonlocal n
                    n += 1
                    if n == a['raise_at']:
                        raise boom(a)
                    return n % 3
                n = -1
                dsv.filter_rows_as_dict(p, keep, **kw)
            else:
                dsv.add_rows(p, *list(itertools.takewhile(lambda x: True, (x for x in values(dict(a, raise_at=None))))))
            KEEP.append(vals)
        # nothing at all is left of a failed rewrite
        return f, (('d/' + name,), ())

    def op_twrite(a):
        t = tables[a['t'] % len(tables)]
        out = 'd/' + ('elsewhere.csv' if a['fname'] == 'other' else 'none/x.csv' if a['fname'] == 'nodir' else t['url'])

        def f():
            if not [x for x in group().tables if x.local_name == t['url']]:
                return
            tab = group().tabledict[t['url']]
            kw = {}
            if a['fname'] == 'memory':
                kw['fname'] = None
            elif a['fname']:
                kw['fname'] = str(w.root / out)
            if a['seed'] % 4 == 0:
                kw['strict'] = True
            if a['fname'] == 'memory':
                kw.pop('_zipped', None)
            else:
                kw['_zipped'] = a['zipped']
            KEEP.append(tab)
            tab.write(rows_of(t, a), **kw)
        if a['fname'] == 'memory':
            return f, ()
        return f, ((out + '.zip',) if a['zipped'] else (out,), (out + '.zip', out) if a['zipped'] else (out,))

    def op_gwrite(a):
        sub = a['fname'] in ('other', 'nodir')
        dst = 'd/new/' if sub else 'd/'

        def f():
            if sub and a['fname'] == 'other':
                (w.root / dst).mkdir()
            tg = group()
            urls = [t.local_name for t in tg.tables]
            tg.write(w.root / (dst + 'md.json'), _zipped=a['zipped'], **{t['url']: rows_of(t, a) for t in tables if t['url'] in urls})
        outs = [dst + t['url'] for t in tables]
        z = [x + '.zip' for x in outs]
        m = [dst + 'md.json']
        return f, (z + m if a['zipped'] else outs + m, outs + z + m if a['zipped'] else outs + m)

    def op_copy(a):
        dst = w.data / 'copied'

        def f():
            if not a['missing']:
                dst.mkdir()
            group().copy(dst)
        return f, ['d/copied/md.json'] + ['d/copied/' + t['url'] for t in tables] + ['d/copied/' + t['url'] + '.zip' for t in tables]

    def op_tofile(a):
        def f():
            tg = group()
            if a.get('raise_at') is not None:
                tg.common_props['dc:title'] = object() if a['raise_at'] else 'x\udc80'
            tg.to_file(w.data / ('none/out.json' if a['missing'] else 'out.json'), omit_defaults=a['zipped'])
        return f, ('d/out.json',)

    def op_keys(a):
        def f():
            import logging
            log = logging.getLogger('x') if a['seed'] % 2 else None
            tg = group()
            if a['what'] == 'pk':
                for t in tg.tables:
                    t.check_primary_key(log=log)
            elif a['what'] == 'schema':
                tg.validate_schema(strict=bool(a['seed'] % 2))
            elif a['what'] == 'valid':
                tg.is_valid if hasattr(tg, 'is_valid') else None
            else:
                tg.check_referential_integrity(log=log, strict=a['what'] == 'ristrict')
        return f, ()

    def op_validate(a):
        def f():
            from csvw import CSVW
            c = CSVW(str(md if a['seed'] % 3 else w.data / tables[a['t'] % len(tables)]['url']), validate=bool(a['seed'] % 5))
            KEEP.append(c)
            c.is_valid
        return f, ()

    def op_json(a):
        def f():
            from csvw import CSVW
            c = CSVW(str(md if a['seed'] % 4 else w.data / tables[a['t'] % len(tables)]['url']))
            KEEP.append(c)
            c.to_json(minimal=a['zipped'])
        return f, ()

    def op_markdown(a):
        def f():
            from csvw.utils import metadata2markdown
            metadata2markdown(group(), link_files=a['zipped'])
        return f, ()

    def op_open(a):
        def f():
            from csvw import TableGroup, Table, CSVW
            t = tables[a['t'] % len(tables)]
            p = w.data / 'none.json' if a['missing'] else md
            if a['what'] == 'from_file':
                TableGroup.from_file(p)
            elif a['what'] == 'table':
                Table.from_file(p)
            elif a['what'] == 'csvw':
                CSVW(str(w.data / t['url']), md_url=str(p))
            elif a['what'] == 'locate':
                CSVW.locate_metadata(str(w.data / t['url']))
            elif a['what'] == 'pkgfile':
                CSVW(str(w.data / 'datapackage.json'))
            elif a['what'] == 'from_value':
                TableGroup.from_file(md, data=json.loads(p.read_text(encoding='utf-8')))
            else:
                for tab in TableGroup.from_file(p).tables:
                    list(tab)
        return f, ()

    def op_package(a):
        def f():
            from csvw import TableGroup
            KEEP.append(TableGroup.from_frictionless_datapackage(w.data / ('nope.json' if a['missing'] else 'datapackage.json')))
        return f, ()

    def existing(a, p):
        if a['old'] == 'db':
            with contextlib.closing(sqlite3.connect(str(p))) as c:
                c.execute('CREATE TABLE x (y)')
                c.commit()
        elif a['old'] == 'junk':
            p.write_bytes(b'no database at all' * 100)
        elif a['old'] == 'dir':
            p.mkdir()

    def op_dbwrite(a):
        existing(a, dbp)

        def f():
            from csvw.db import Database
            tg = group()
            if a['fname'] == 'nodir':
                db = Database(tg, fname=w.data / 'none' / 'x.sqlite')
            else:
                db = Database(tg, fname=dbp)
            KEEP.append(db)
            if a['how'] == 'tg':
                db.write_from_tg(_force=a['force'])
            else:
                db.write(force=a['force'], **{t['url']: rows_of(t, a) for t in tables})
        return f, ('d/x.sqlite',)

    def op_dbread(a):
        def f0():
            from csvw.db import Database
            db = Database(group(), fname=dbp)
            db.write_from_tg(_force=True)
        o = w.victim(f0, count=False)
        if dbp.is_file() and a['seed'] % 4 == 0:
            b = dbp.read_bytes()
            dbp.write_bytes(b[:len(b) // 2] if a['seed'] % 8 else b[:200] + b'garbage!' * 500 + b[4200:])

        def f():
            from csvw.db import Database
            db = Database(group(), fname=w.data / 'none.sqlite' if a['missing'] else dbp)
            KEEP.append(db)
            db.read()
        # SQLite creates what it opens
        return f, ('d/none.sqlite',) if a['missing'] else () if dbp.exists() else ('d/x.sqlite',)

    def op_cmd(a):
        outs = ()
        args = [md if a['seed'] % 6 else w.data / tables[a['t'] % len(tables)]['url']]
        if a['name'] == 'csvw2sqlite':
            args = [md, dbp]
            outs = ('d/x.sqlite',)
            existing(a, dbp)
        elif a['name'] == 'csvw2datasette':
            args += ['--outdir', w.data / 'ds']
            outs = ('d/ds/datasette.db', 'd/ds/datasette-metadata.json')
            if not a['missing']:
                (w.data / 'ds').mkdir()
                existing(a, w.data / 'ds' / 'datasette.db')

        def f():
            import csvw.__main__ as m
            sys.argv = [a['name']] + [str(x) for x in args]
            try:
                getattr(m, a['name'])()
            except SystemExit:
                pass
        return f, outs

    def op_http(a):
        def f():
            from csvw import TableGroup, CSVW
            import warnings
            warnings.simplefilter('ignore', UserWarning)
            if a['what'] == 'from_url':
                KEEP.append(TableGroup.from_url(SITE + 'md.json'))
                return
            if a['what'] in ('csvw', 'valid', 'json'):
                c = CSVW(SITE + ('md.json' if a['seed'] % 2 else urllib.parse.quote(tables[a['t'] % len(tables)]['url'])), validate=a['what'] == 'valid')
                KEEP.append(c)
                return c.is_valid if a['what'] == 'valid' else c.to_json() if a['what'] == 'json' else finish(c.tables[0].iterdicts(), a['end'], a)
            if a['what'] == 'mixed':
                # local metadata, data from the web
                t = T(group(), a)
                return finish(t.iterdicts(fname=SITE + urllib.parse.quote(t.local_name)), a['end'], a)
            tg = TableGroup.from_url(SITE + 'md.json')
            finish(T(tg, a).iterdicts(strict=a['strict']), a['end'], a)
        return f, ()

    impl = {k[3:]: f for k, f in list(locals().items()) if k.startswith('op_')}

    def run(a):
        w.restore(saved)
        fn, allowed = impl[a['op']](a)
        start = w.tree()
        keep = w.save('act')

        def fresh_net():
            return net.Net(local_net(), a['net'], a['delivery']['seed'], a['delivery']['pieces']) if a['op'] == 'http' else None
        fl, opts = [], {}
        if a['faults'] or a.get('budget') is not None:
            o = w.victim(fn, net=fresh_net(), count=False)
            judge(a, o, allowed, start, [], False)
            fl = place(a['faults'], o.counts) or []
            if a.get('budget') is not None:
                opts['budget'] = int(a['budget'] * sum(len(b) for b in w.tree(w.data).values()))
            w.restore(keep)
        if a['faults'] and not fl and not opts:
            return
        o = w.victim(fn, fl, net=fresh_net(), **opts)
        judge(a, o, allowed, start, fl)

    def judge(a, o, allowed, start, fl, counted=True):
        ctx = '%s, faults %s, outcome %r' % ({k: v for k, v in a.items() if k != 'faults'}, fl, o)
        w.probe('%s_%s' % (a['op'], o.status))
        abandoned = 'end' in a and a['end']['how'] != 'exhaust'
        if counted and not o.fired and (o.status == 'exc' or abandoned):
            w.nontrivial += 1
        w.state(a['op'], o.status, o.exc[:1], a.get('end'), sorted(o.fired))
        if o.status == 'crash':
            w.fail('crash', 'the process dies (%s); %s' % (o.msg, ctx))
        if o.status == 'hang':
            w.fail('hang', 'the operation does not end; ' + ctx)
        if o.fds_now:
            w.fail('descriptor', 'still open: %s; %s' % (o.fds_now, ctx))
        if o.fds_exc:
            w.fail('descriptor-exc', 'still open when the error reaches the caller: %s; %s' % (o.fds_exc, ctx))
        if o.fds:
            w.fail('descriptor', 'still open: %s; %s' % (o.fds, ctx))
        if o.unclosed and 'CLOSE' not in [x.get('cls') for x in fl]:
            w.fail('unclosed', 'closed by finalizers only: %s; %s' % (o.unclosed, ctx))
        if getattr(o, 'sockets', 0) or getattr(o, 'netopen', 0):
            w.fail('socket', '%d connections still open; %s' % (o.sockets or o.netopen, ctx))
        now = w.tree()
        done, failed = allowed if allowed and not isinstance(allowed[0], str) else (allowed, allowed)
        ok = done if o.ok else failed
        diff = sorted(k for k in set(now) | set(start) if now.get(k) != start.get(k) and k not in ok and not (k in failed and k not in now))
        # what could not be removed because of the fault
        if any(x['cls'] in ('UNLINK', 'ANY') for x in fl) and o.fired:
            diff = [k for k in diff if k in start or k not in now]
            w.probe('unremovable')
        if a['op'] in ('dbwrite', 'dbread', 'cmd') and o.fired:
            diff = [k for k in diff if not k.endswith('-journal') or k in start]
        if diff:
            w.fail('files', 'files left behind, changed or lost: %s; %s' % ([(k, k in start, k in now) for k in diff], ctx))
        if w.sample is None and o.fired:
            w.sample = {'operation': a, 'placed': fl, 'outcome': repr(o)[:200]}
        w.record(o.status, o.exc[:1], sorted(now))

    for a in s['acts']:
        run(a)
    w.track = False
