"""C18: commands exit successfully only with complete output."""
import json
import os
import random
import re
import sqlite3
import sys
import contextlib
import urllib.parse
import zipfile

from props import c15
from sim import dbmodel, gen, lib, model, net
from sim.world import place

RUNS = {'quick': 380, 'thorough': 12000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: the command line tools run as simulated processes with arguments, standard output on the simulated disk and an exit status, under seeded failures '
             'of input, output, network and data; output compared with models of the data and with undisturbed runs')
NOTE = ('Seeded search over data, commands, ways of failing and fault positions. Exit status 0 is only accepted with complete output: rows and values from a reference model, '
        'byte-identical standard output and identical database content as in an undisturbed run.')
RULE = ('A scenario is a described group (local, zipped, on the web, given by its metadata or one of its files), possibly damaged or invalid, and 6-9 runs of commands, each in a '
        'state of its own (existing databases or other files in the place of the output) with its own faults. Non-trivial: a fault fired, the input was damaged, or output existed before.')
COMPONENTS = {'real': ['csvw (all modules, through the functions installed as commands)', 'SQLite', 'Python io/csv/zipfile/argparse', 'kernel tmpfs', 'requests/urllib3/http.client'],
              'stub': ['outcome of every file call, clock, getrandom (simfs.c)', 'sockets and HTTP server (sim/net.py)', 'start and end of the interpreter (exit status of a failing flush as in CPython)']}
ASSUMPTIONS = ['csvwdescribe runs an external program which is not installed']
SITE = 'http://example.org/d/'
COMMANDS = ['csvwvalidate', 'csvw2json', 'csvw2json', 'csvw2sqlite', 'csvw2sqlite', 'csvw2datasette', 'csvw2datasette', 'csvw2markdown']
OLD = [None, None, 'db', 'db', 'junk', 'empty', 'ro', 'link']
ENCS = ['utf-8'] * 5 + ['ascii', 'latin-1', 'utf-16']
PLACES = ['here', 'here', 'sub', 'nodir', 'abs']
DAMAGE = ['missing', 'missing', 'cut', 'badbyte', 'emptyzip', 'md-missing', 'md-cut', 'md-array', 'dir', 'extra', 'extra', 'md-warn']


def plan(r, where):
    x = r.random()
    p = {'faults': []}
    if x < .15:
        return p
    if x < .25:
        p['faults'] = gen.legal_plan(r)
        p['legal'] = True
    elif x < .35:
        p['budget'] = r.choice([round(r.random(), 3), round(1 - r.random() * .1, 3), .999])
        p['refill'] = r.choice([-1, -1, 1, 2])
    elif x < .43:
        p['faults'] = gen.sigint_plan(r)
    elif where == 'http' and x < .85:
        p['net'] = [net.fault(r, 8) for _ in range(r.choice([1, 1, 2]))]
    elif x < .7:
        # the end of the output
        cls = r.choice(['WRITE', 'WRITE', 'WRITE', 'OPENW', 'CLOSE', 'FSYNC', 'TRUNC', 'UNLINK'])
        p['faults'] = [{'kind': 'ERRNO', 'cls': cls, 'arg': r.choice({'WRITE': gen.ERRNOS_W + ['EPIPE'], 'OPENW': gen.ERRNOS_O}.get(cls, ['EIO', 'ENOSPC'])), 'frac': round(.999 - r.random() ** 3 * .3, 4), 'times': r.choice([1, 1, 2, 1000])}]
    else:
        p['faults'] = gen.error_plan(r)
    return p


def generate(r, i, tier):
    kind = r.choice(['plain', 'db', 'db', 'db'])
    if kind == 'plain':
        gd = model.dialect(r, plain=.5)
        g = {'dialect': gd, 'props': {}, 'tables': [model.table(r, model.url(r, k, ['t%d.csv'] * 3), group_dialect=gd, nrows=r.choice([0, 1, 3, 6, 100, 600 if r.random() < .3 else 20]), titles=True, constraints=r.random() < .3) for k in range(r.choice([1, 1, 2, 3]))]}
    else:
        g = dbmodel.group(r, nrows=r.choice([60, 150, 600]) if r.random() < .1 else None, names=['a', 'b', 'c', 'name', 'value', 'x_y', 'Col', 'z1', 'order', 'table'] if r.random() < .6 else None)
        g.setdefault('props', {})
    for p in r.sample(['dc:title', 'dc:description', 'dc:license', 'dc:creator'], r.choice([0, 0, 1, 3])):
        g['props'][p] = gen.cell(r, newlines=False) if r.random() < .8 else c15.prop(r)
    for t in g['tables']:
        for p in r.sample(c15.PROPS, r.choice([0, 0, 1, 2])):
            t.setdefault('extra', {})[p] = c15.prop(r)
        for c in t['columns']:
            if r.random() < .1:
                c['dc:description'] = c15.prop(r)
    s = {'kind': kind, 'g': g, 'seed': r.randint(0, 10**6), 'where': r.choice(['local'] * 4 + ['http']), 'zip': [r.random() < .2 for _ in g['tables']], 'perm': r.choice([0, 0, 0, r.randint(1, 1000)]),
         'via': r.choice(['md', 'md', 'md', 'csv'])}
    if s['where'] == 'local' and s['zip'][0]:
        s['via'] = 'md'
    if s['where'] == 'http' and urllib.parse.quote(g['tables'][0]['url']) != g['tables'][0]['url']:
        s['via'] = 'md'     # no valid URL in the metadata
    x = r.random()
    if x < .3:
        s['damage'] = {'table': r.randint(0, 5), 'kind': r.choice(DAMAGE), 'at': round(r.random() * .98, 3)}
    elif x < .45 and kind == 'db':
        v = dbmodel.violate(r, g)
        if v:
            s['violated'] = v
    runs = []
    for _ in range(r.randint(6, 9)):
        a = {'cmd': r.choice(COMMANDS), 'old': r.choice(OLD), 'seed': r.randint(0, 1000), 'stdout': r.choice(ENCS), 'verbose': r.random() < .3,
             'out': r.choice(PLACES)}
        if a['cmd'] == 'csvw2datasette' and r.random() < .7:
            a['old'] = None
        if a['out'] == 'nodir' and r.random() < .6:
            a['out'] = 'here'
        a.update(plan(r, s['where']))
        runs.append(a)
    s['runs'] = runs
    s['delivery'] = net.delivery(r)
    return s


def valid(s):
    return c15.valid(s) and (s['via'] == 'md' or s['where'] == 'http' or not s['zip'][0]) and (s['via'] == 'md' or s['where'] == 'local' or urllib.parse.quote(s['g']['tables'][0]['url']) == s['g']['tables'][0]['url']) and len(s['zip']) == len(s['g']['tables']) and s['where'] in ('local', 'http') and s['via'] in ('md', 'csv') and all(f.get('code', 404) >= 400 for a in s['runs'] for f in a.get('net', ())) and (not s.get('damage') or s['damage']['kind'] in DAMAGE) and all(
        a['cmd'] in COMMANDS and a['stdout'] in ENCS and a['out'] in PLACES and a['old'] in OLD for a in s['runs']) and (s['kind'] != 'db' or all(t.get('pk') for t in s['g']['tables']))


class HardExit(BaseException):
    pass


def hard_exit(code):
    raise HardExit(code)


def dump(path):
    """Everything in a database, as text."""
    with contextlib.closing(sqlite3.connect('file:%s?mode=ro' % path, uri=True)) as c:
        return sorted(c.iterdump())


def execute(s, w):
    g = s['g']
    tables = g['tables']
    md = w.data / 'md.json'
    out = w.root / 'out'
    out.mkdir()
    (w.root / 'home').mkdir()

    def prepare():
        import copy
        from csvw import TableGroup
        lib.put_md(w, g)
        tg = TableGroup.from_file(md)
        for t in tables:
            u = t
            if s.get('violated'):
                u = [x for x in s['violated'][2]['tables'] if x['url'] == t['url']][0]
            tg.tabledict[t['url']].write(lib.items(u))
        if s['perm'] and not s.get('violated'):
            g2 = copy.deepcopy(g)
            for k, t in enumerate(g2['tables']):
                random.Random(s['perm'] + k).shuffle(t['columns'])
            (w.data / 'perm.json').write_text(json.dumps(model.group_json(g2)))
            tg2 = TableGroup.from_file(w.data / 'perm.json')
            for t in tables:
                if lib.has_header(model.effective(g, t)):
                    tg2.tabledict[t['url']].write(lib.items(t))
            (w.data / 'perm.json').unlink()
    o = w.victim(prepare, count=False)
    if not o.ok:
        if s.get('violated'):
            w.probe('unwritable')
            return
        w.fail('prepare', 'writing the tables failed: %r\n%s' % (o, o.tb))
    # damage which makes it impossible to read everything
    d = dict(s.get('damage') or {'kind': 'none'})
    victim = tables[d.get('table', 0) % len(tables)]
    for t, z in zip(tables, s['zip']):
        if z or t is victim and d['kind'] in ('emptyzip',):
            p = w.data / t['url']
            if s['where'] == 'local':
                with zipfile.ZipFile(str(p) + '.zip', 'w', zipfile.ZIP_DEFLATED if s['seed'] % 2 else zipfile.ZIP_STORED) as zf:
                    if t is not victim or d['kind'] != 'emptyzip':
                        zf.write(str(p), arcname=p.name)
                p.unlink()
    p = w.data / victim['url']
    if not p.exists():
        p = w.data / (victim['url'] + '.zip')
    b = p.read_bytes()
    at = int(d.get('at', 0) * len(b))
    hurts_md = d['kind'] in ('md-missing', 'md-cut', 'md-array')
    if d['kind'] == 'missing':
        p.unlink()
    elif d['kind'] == 'dir':
        p.unlink()
        p.mkdir()
    elif d['kind'] == 'cut':
        if p.suffix == '.zip':
            p.write_bytes(b[:at])
        else:
            d['kind'] = 'none'
    elif d['kind'] == 'badbyte':
        enc = lib.encoding(model.effective(g, victim)).lower()
        if p.suffix != '.zip' and enc.startswith('utf-8'):
            k = b.rfind(b'\n', 0, at) + 1
            p.write_bytes(b[:k] + b'\xff\xfe\x9d' + b[k:])
            if model.effective(g, victim).get('commentPrefix') or not victim['rows']:
                pass
        else:
            d['kind'] = 'none'
    elif d['kind'] == 'extra':
        # a column which is not described, with values that no output may drop silently
        eff = model.effective(g, victim)
        if victim['rows'] and lib.has_header(eff) and p.suffix != '.zip' and not eff.get('commentPrefix') and not eff.get('skipRows') and len(victim['columns']) > 1:
            enc, lt = lib.encoding(eff), '\n'
            import csv
            text = b.decode(enc)
            lt = '\r\n' if '\r\n' in text else '\n'
            if text.count(lt) == len(victim['rows']) + 1 and not re.search('\r|\n', text.replace(lt, '')):
                lines = text.split(lt)[:-1]
                p.write_bytes((lt.join(x + lib.delimiter(eff) + ('zzextra' if not k else 'v%d' % k) for k, x in enumerate(lines)) + lt).encode(enc))
            else:
                d['kind'] = 'none'
        else:
            d['kind'] = 'none'
    elif d['kind'] == 'md-warn':
        doc = json.loads(md.read_text())
        x = random.Random(s['seed'])
        t = x.choice(doc.get('tables', [doc]))
        x.choice([doc, t]).update(x.choice([{'tableDirection': 'up'}, {'unknownProperty': 1}, {'lang': '!'}]))
        md.write_text(json.dumps(doc))
    elif d['kind'] == 'md-missing':
        md.unlink()
    elif d['kind'] == 'md-cut':
        md.write_bytes(md.read_bytes()[:int(d['at'] * md.stat().st_size)])
    elif d['kind'] == 'md-array':
        md.write_bytes(b'[1, "x"]')
    if d['kind'] == 'emptyzip' and s['where'] == 'http':
        d['kind'] = 'none'
    damaged = d['kind'] != 'none'
    if s['via'] == 'csv' and not hurts_md:
        md.rename(w.data / (tables[0]['url'] + '-metadata.json'))
    routes = {}
    if s['where'] == 'http':
        for name, body in w.tree(w.data).items():
            routes[SITE + urllib.parse.quote(name)] = net.resp(body, ctype='application/json' if name.endswith('.json') else 'text/csv', framing=s['delivery']['framing'] if s['delivery']['framing'] != 'close' else 'length', encoding=s['delivery']['encoding'])
    (w.data / 'sub').mkdir()
    saved = w.save()

    def fresh_net(a=None):
        if s['where'] != 'http':
            return
        return net.Net(routes, (a or {}).get('net', ()), s['delivery']['seed'], s['delivery']['pieces'])

    def source(cmd):
        name = 'md.json'
        if s['via'] == 'csv' and not hurts_md:
            name = tables[0]['url'] if cmd not in ('csvw2sqlite', 'csvw2markdown') else tables[0]['url'] + '-metadata.json'
        if s['where'] == 'http':
            return SITE + urllib.parse.quote(name)
        return name if s['seed'] % 2 else str(w.data / name)

    def place_out(a):
        """-> arguments, database or None"""
        if a['cmd'] == 'csvw2sqlite':
            name = ['x.sqlite', 'data', 'x.y.db3', 'x.sqlite'][a['seed'] % 4]
            p = {'here': name, 'sub': 'sub/' + name, 'nodir': 'nodir/' + name, 'abs': str(out / name)}[a['out']]
            return [p], w.data / p, ()
        if a['cmd'] == 'csvw2datasette':
            p = {'here': '.', 'sub': 'sub', 'nodir': 'nodir', 'abs': str(out)}[a['out']]
            return (['--outdir', p] if p != '.' or a['seed'] % 2 else []), w.data / p / 'datasette.db', (w.data / p / 'datasette-metadata.json',)
        return (['-v'] if a['cmd'] == 'csvwvalidate' and a['verbose'] else []), None, ()

    def process(a):
        def f():
            import csvw.__main__ as m
            args, _, _ = place_out(a)
            try:
                stdout = open(str(out / 'stdout'), 'w', encoding=a['stdout'])
            except OSError:
                return 'no output'
            real, sys.stdout = sys.stdout, stdout
            real_exit, os._exit = os._exit, hard_exit
            flush = True
            sys.argv = [a['cmd'], source(a['cmd'])] + args
            if a['seed'] % 3 == 0:
                sys.argv = [a['cmd']] + args + [source(a['cmd'])] if a['cmd'] != 'csvw2sqlite' else sys.argv
            err = ''
            try:
                code = getattr(m, a['cmd'])()
            except SystemExit as e:
                code = e.code
            except HardExit as e:
                code, flush = e.args[0], False
            except KeyboardInterrupt:
                code = 130
            except Exception as e:
                code, err = 1, '%s: %s' % (type(e).__name__, e)
            code = 0 if code is None else code if isinstance(code, int) else 1
            try:
                # as CPython does at the end
                if flush and sys.stdout is not None and not getattr(sys.stdout, 'closed', False):
                    sys.stdout.flush()
                try:
                    if not stdout.closed:
                        stdout.close()
                except BaseException:
                    pass
            except BaseException as e:
                code, err = 120, '%s: %s' % (type(e).__name__, e)
            finally:
                sys.stdout, os._exit = real, real_exit
            return [code & 255, err.replace(str(w.root), '<R>')[:300]]
        return f

    def state(a):
        """What may stand in the place of the output before the command is run."""
        w.restore(saved)
        args, db, more = place_out(a)
        if db is None:
            db = w.data / 'x.sqlite'
        if a['old'] and db.parent.exists():
            b = {'junk': b'this is no database' * 100, 'empty': b''}.get(a['old'])
            target = db
            if a['old'] == 'link':
                target = w.data / 'elsewhere.sqlite'
                db.symlink_to(target)
            if b is None:
                with contextlib.closing(sqlite3.connect(str(target))) as c:
                    c.executescript('create table old (x); insert into old values (1), (2); create table `%s` (y)' % tables[0]['url'])
            else:
                db.write_bytes(b)
            if a['old'] == 'ro':
                db.chmod(0o444)
        for p in more:
            if a['seed'] % 4 == 0 and p.parent.exists():
                p.write_text('{"title": "an old title which is much longer than the new metadata, so that overwriting it needs to cut the file"}' + ' ' * 1000)

    reads_data = {c: True for c in COMMANDS}
    reads_data['csvw2markdown'] = False

    def result(a):
        """The output, as far as it is there."""
        args, db, more = place_out(a)
        res = {'stdout': (out / 'stdout').read_bytes() if (out / 'stdout').exists() else None, 'more': [p.read_bytes() if p.exists() else None for p in more], 'db': None}
        if db is not None:
            try:
                res['db'] = dump(db)
            except sqlite3.Error as e:
                res['db'] = 'ERROR %s' % e
        return res

    # -- what complete output looks like, independently of the library ---------------------------------------
    def check_json(text, ctx):
        try:
            doc = json.loads(text)
        except ValueError as e:
            w.fail('json', 'the output is not JSON (%s): %r; %s' % (e, text[-200:], ctx))
        if [urllib.parse.unquote(x['url'].rsplit('/', 1)[-1]) for x in doc['tables']] != [t['url'] for t in tables]:
            w.fail('json', 'tables in the output: %s; %s' % ([x['url'] for x in doc['tables']], ctx))
        for x, t in zip(doc['tables'], tables):
            if len(x['row']) != len(t['rows']):
                w.fail('json', 'table %s has %d rows in the output, not %d; %s' % (t['url'], len(x['row']), len(t['rows']), ctx))
            for n, (got, row) in enumerate(zip(x['row'], t['rows'])):
                got = got['describes'][0] if got['describes'] else {}
                want = [v for c, v in zip(t['columns'], row) if v is not None and v != '' and not (c.get('separator') and v == [])]
                if len(got) != len(want) and s['kind'] == 'db':
                    w.fail('json', 'table %s, row %d has the values %s in the output, not %s; %s' % (t['url'], n + 1, got, want, ctx))
                have = [json.dumps(v) for v in got.values()]
                for c, v in zip(t['columns'], row):
                    base = model.base_of(c.get('datatype'))
                    if v is None or v == '' or v == [] or base not in list(model.INTS) + ['boolean', 'string']:
                        continue
                    if isinstance(c.get('datatype'), dict) and c['datatype'].get('format') and base == 'string':
                        continue
                    if base in model.INTS:
                        v = [int(y) for y in v] if isinstance(v, list) else int(v)
                    if json.dumps(v) not in have and not (isinstance(v, list) and len(v) == 1 and json.dumps(v[0]) in have):
                        w.fail('json', 'table %s, row %d has the values %s in the output, without %r; %s' % (t['url'], n + 1, got, v, ctx))

    def check_db(path, ctx):
        c = dbmodel.sql_counts(path, g, 'none')
        want = dbmodel.expected_counts(g, 'none')
        if c['ok'] != 'ok' or c['counts'] != want:
            w.fail('db', 'rows in the database: %s, expected %s; %s' % (c, want, ctx))

        def f():
            from csvw import TableGroup
            from csvw.db import Database
            tg = TableGroup.from_file(w.data / 'md.json' if s['via'] == 'md' or hurts_md else w.data / (tables[0]['url'] + '-metadata.json'))
            return dbmodel.read_db(Database(tg, fname=path))
        o = w.victim(f, count=False)
        if not o.ok:
            w.fail('db', 'the database cannot be read: %r; %s\n%s' % (o, ctx, o.tb))
        want = dbmodel.db_expected(g, 'none')
        if o.value != want:
            w.fail('db', 'the database does not hold the data: %s; %s' % (lib.first_diff(o.value, want), ctx))

    def check(a, ctx):
        """After exit status 0 with undamaged, valid input and a readable standard output."""
        args, db, more = place_out(a)
        text = (out / 'stdout').read_bytes().decode(a['stdout'])
        if a['cmd'] == 'csvwvalidate':
            if not re.search(r'\bOK\b', text) or 'FAIL' in text:
                w.fail('verdict', 'exit status 0 with %r; %s' % (text, ctx))
        elif a['cmd'] == 'csvw2json':
            if s['perm']:
                return  # columns of the file are those of the description in the same place
            check_json(text, ctx)
        elif a['cmd'] == 'csvw2markdown':
            for t in tables:
                for k, x in enumerate([t['url']] + [c.get('name') or '' for c in t['columns']]):
                    if x not in text:
                        w.fail('markdown', '%r does not occur in the output %r; %s' % (x, text[:2000], ctx))
        else:
            check_db(db, ctx)
        if a['cmd'] == 'csvw2datasette':
            try:
                doc = json.loads(more[0].read_bytes())
            except (OSError, ValueError) as e:
                w.fail('datasette', 'metadata: %r; %s' % (e, ctx))
            want = {k: g['props']['dc:' + k] for k in ('title', 'description', 'license') if isinstance(g['props'].get('dc:' + k), str)}
            if {k: v for k, v in doc.items() if k in want or k not in ('title', 'description', 'license')} != want:
                w.fail('datasette', 'metadata %s, expected %s; %s' % (doc, want, ctx))
            if 'datasette.db' not in text:
                w.fail('datasette', 'output %r; %s' % (text, ctx))

    suitable = {'csvw2sqlite': s['kind'] == 'db', 'csvw2datasette': s['kind'] == 'db' and all(re.fullmatch('[a-zA-Z][a-zA-Z0-9_]*', c.get('name') or '') for t in tables for c in t['columns'])}
    for a in s['runs']:
        if not suitable.get(a['cmd'], True):
            a = dict(a, cmd='csvw2json')
        args, db, more = place_out(a)
        impossible = damaged and (reads_data[a['cmd']] or hurts_md)
        if d['kind'] == 'extra' and a['cmd'] not in ('csvw2sqlite', 'csvw2datasette'):
            a = dict(a, cmd='csvw2sqlite' if s['kind'] == 'db' else 'csvwvalidate')
            args, db, more = place_out(a)
            impossible = True
        if d['kind'] == 'md-warn':
            a = dict(a, cmd='csvwvalidate')
            args, db, more = place_out(a)
        broken = bool(s.get('violated'))
        nodir = db is not None and a['out'] == 'nodir'
        state(a)
        before = w.tree()
        base = w.victim(process(a), net=fresh_net())
        runs = [(base, [], 'without any fault')]
        k = 0
        counts = base.counts
        ref = None
        while runs:
            o, faults, how = runs.pop(0)
            disturbed = how != 'without any fault'
            ctx = '%s %s, output %s, existing %s, stdout %s, damage %s, %s' % (a['cmd'], s['where'], a['out'], a['old'], a['stdout'], d['kind'], how)
            if o.exc[:1] == ('KeyboardInterrupt',):
                o.status, o.value = 'ok', [130, 'interrupted at the very end']
            if not o.ok:
                w.fail('died', 'outcome %r; %s\n%s' % (o, ctx, o.tb))
            code, err = o.value if isinstance(o.value, list) else (1, o.value)
            ctx += ', exit status %s %s' % (code, err)
            w.probe('exit_%s_%d%s' % (a['cmd'], code, '_disturbed' if disturbed else ''))
            after = w.tree()
            exists = a['cmd'] == 'csvw2datasette' and a['old'] and a['old'] != 'link' and not nodir
            exists = exists or a['cmd'] == 'csvw2datasette' and a['old'] == 'link'
            if code == 0:
                if impossible:
                    w.fail('success', 'exit status 0 although the input cannot be read; %s' % ctx)
                if nodir:
                    w.fail('success', 'exit status 0 without a place for the output; %s' % ctx)
                if exists:
                    w.fail('success', 'exit status 0 although the database exists; %s' % ctx)
                if d['kind'] == 'md-warn':
                    w.fail('success', 'exit status 0 for a flawed description; %s' % ctx)
                if broken and a['cmd'] == 'csvwvalidate' and s['violated'][0] in ('pk', 'fk', 'required', 'range', 'length'):
                    w.fail('success', 'exit status 0 for data violating a constraint (%s of %s); %s' % (s['violated'][0], s['violated'][1], ctx))
                # a description which the server answers with an error status counts as absent in discovery
                absent = s['where'] == 'http' and s['via'] == 'csv' and disturbed and any('.json' in str(x[1]) and str(x[2]).isdigit() and int(x[2]) >= 400 for x in o.netlog)
                if absent:
                    w.probe('described_by_nothing')
                elif not broken:
                    check(a, ctx)
                if absent:
                    pass
                elif ref is not None:
                    got = result(a)
                    for part in ref:
                        if got[part] != ref[part]:
                            w.fail('output', 'exit status 0, but %s differs from that of an undisturbed run: %s; %s' % (part, repr(got[part])[-300:], ctx))
                elif disturbed and not broken:
                    # complete all the same
                    w.probe('success_after_failure')
            else:
                ascii_only = a['stdout'] in ('ascii', 'latin-1')
                # (whether a description is valid in every detail is C11's)
                expected = a['cmd'] == 'csvwvalidate' or s['perm'] and a['cmd'] == 'csvw2json' or impossible or nodir or exists or broken or ascii_only and a['cmd'] == 'csvw2markdown'
                if not disturbed and not expected:
                    w.fail('rejected', 'the command fails for valid input: %s %s; %s' % (o.out[-800:], (out / 'stdout').read_bytes()[-300:] if (out / 'stdout').exists() else '', ctx))
                if faults and gen.is_legal(faults) and ref is not None:
                    w.fail('rejected', 'the command fails although nothing failed: %s' % ctx)
            if not disturbed:
                ref = result(a) if code == 0 else None
            # nothing else is touched
            allowed = {'out/stdout'}
            if db is not None and not nodir and not exists:
                if not (a['cmd'] == 'csvw2sqlite' and impossible and d['kind'] != 'extra'):
                    rel = os.path.relpath(str(db), str(w.root))
                    allowed |= {rel, rel + '-journal', 'd/elsewhere.sqlite'}
                    if a['cmd'] == 'csvw2datasette':
                        allowed |= {os.path.relpath(str(p), str(w.root)) for p in more}
                    if a['cmd'] == 'csvw2datasette' and impossible and False:
                        pass
            for name in sorted(set(before) | set(after)):
                if name in allowed or before.get(name) == after.get(name):
                    continue
                if exists and os.path.join(str(w.root), name) in [str(p) for p in more]:
                    w.fail('replaced', 'metadata of another database is replaced: %s; %s' % (name, ctx))
                if a['cmd'] == 'csvw2sqlite' and impossible and name not in before:
                    continue
                w.fail('replaced', '%s is %s; %s' % (name, 'gone' if name not in after else 'new' if name not in before else 'changed', ctx))
            w.record(code, faults)
            w.state(a['cmd'], code, err[:60], sorted(o.fired))
            if disturbed:
                if w.sample is None and o.fired:
                    w.sample = {'command': a['cmd'], 'where': s['where'], 'existing': a['old'], 'how': how, 'exit': code, 'error': err}
                continue
            if code or a['old']:
                w.nontrivial += 1
            if a['faults'] or 'budget' in a or a.get('net'):
                faults = place(a['faults'], counts)
                if faults is None:
                    w.probe('unplaced')
                    continue
                opts = {}
                if 'budget' in a:
                    size = sum(len(after[x]) for x in after if x not in before or before[x] != after[x])
                    opts = dict(budget=int(a['budget'] * size * (2 if db else 1)), refill=a['refill'])
                state(a)
                how = 'faults %s %s %s' % (faults, opts, a.get('net', ''))
                o = w.victim(process(a), faults, net=fresh_net(a), **opts)
                runs.append((o, faults, how))
