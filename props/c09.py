"""C09: an existing database is never overwritten by accident."""
import contextlib
import io
import random
import re
import sqlite3
import zipfile

from sim import dbmodel, gen, lib
from sim.world import place

RUNS = {'quick': 500, 'thorough': 20000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: real loads over existing database files with seeded errno, crashes, interrupts and full disks placed in '
             'their system calls, and with sources that fail while they are read')
NOTE = ('Seeded search over fault positions and contents of the existing file. With force, only failures of reading or parsing the source are '
        'required to preserve the old file (violations found by the database itself are not).')
RULE = ('A scenario is a group of related tables, an existing file at the path of the database, a way to load and 6-9 plans. Non-trivial: a fault '
        'or crash fired, or the source was made unreadable.')
COMPONENTS = {'real': ['csvw.db', 'csvw.metadata', 'csvw.__main__ (csvw2sqlite, csvw2datasette)', 'SQLite', 'kernel tmpfs'],
              'stub': ['outcome of every file call, lock and sleep, clock (simfs.c)']}
ASSUMPTIONS = ['SQLite itself is trusted']
MARK = 'OLD-CONTENT-MARK'


def generate(r, i, tier):
    g = dbmodel.group(r, nrows=r.choice([30, 120]) if r.random() < .1 else None)
    plans = []
    for _ in range(r.randint(6, 9)):
        x = r.random()
        if x < .35:
            y = r.random()
            f = gen.error_plan(r) if y < .6 else gen.crash_plan(r) if y < .75 else gen.sigint_plan(r) if y < .85 else gen.legal_plan(r)
            if y < .2:
                f = [{'kind': 'ERRNO', 'cls': r.choice(['STAT', 'OPENR', 'READ']), 'arg': r.choice(['EIO', 'EACCES', 'ESTALE']), 'frac': round(r.random(), 4),
                      'times': r.choice([1, 1, 2, 5, 1000])}]
            plans.append({'type': 'noforce', 'faults': f})
        elif x < .4:
            plans.append({'type': 'noforce', 'faults': [], 'budget': r.choice([0, 0, 100])})
        elif x < .65:
            plans.append({'type': 'force_fault', 'faults': [{'kind': 'ERRNO', 'cls': r.choice(['READ', 'READ', 'OPENR', 'STAT']), 'arg': r.choice(['EIO', 'EACCES', 'ESTALE', 'EMFILE']),
                                                             'frac': round(r.random() * .8, 4), 'times': r.choice([1, 1, 2, 1000])}]})
        elif x < .9:
            plans.append({'type': 'force_bad', 'bad': r.choice(['missing', 'cell', 'cell', 'bytes', 'zip', 'md']), 'seed': r.randint(0, 10**6), 'faults': []})
        else:
            plans.append({'type': 'force', 'faults': gen.legal_plan(r)})
    how = r.choice(['tg', 'tg', 'direct', 'datasette', 'cli'])
    if how == 'datasette' and any(re.search(r'\s|^_', c['name']) for t in g['tables'] for c in t['columns']):
        how = 'cli'  # the CSVW class reads such names as missing
    return {'g': g, 'trans': r.choice(dbmodel.TRANS) if how in ('tg', 'direct') else 'none', 'how': how, 'plans': plans,
            'old': r.choice(['same', 'same', 'other', 'foreign', 'empty', 'garbage', 'crashed', 'link']), 'seed': r.randint(0, 10**6),
            'fname': r.choice(['x.sqlite', 'my db.sqlite', 'ü.db', 'a%b.sqlite', 'sub/x.sqlite', 'x']), 'as': r.choice(['path', 'str', 'rel']),
            'exists_ok': r.random() < .15}


def execute(s, w):
    g, trans, how = s['g'], s['trans'], s['how']
    md = lib.put_md(w, g)
    (w.data / 'sub').mkdir()
    dbp = w.data / (s['fname'] if how != 'datasette' else 'out/datasette.db')
    dbp.parent.mkdir(exist_ok=True)
    fname = dbp if s['as'] == 'path' else str(dbp) if s['as'] == 'str' else str(dbp.relative_to(w.data))

    def database(tables=None):
        from csvw import TableGroup
        from csvw.db import Database
        return Database(TableGroup.from_file(md), fname=fname, translate=dbmodel.translator(trans))

    def store(g, zipped=False):
        from csvw import TableGroup
        tg = TableGroup.from_file(md)
        for t in g['tables']:
            tg.tabledict[t['url']].write(lib.items(t), _zipped=zipped)

    def load(force, how=how):
        def f():
            import argparse
            from csvw import __main__ as m
            if how == 'cli' and force:
                return m.csvw2sqlite(argparse.Namespace(url=str(md), output=str(fname)), test=True)
            if how == 'datasette' and not force:
                return m.csvw2datasette(argparse.Namespace(url=str(md), outdir=dbp.parent), test=True)
            db = database()
            kw = {'_exists_ok': True} if s['exists_ok'] else {}
            if how == 'direct':
                db.write(force=force, **kw, **{t['url']: lib.items(t, 'shuffled', 1) for t in g['tables']})
            elif force:
                db.write_from_tg(_force=True, **kw)
            else:
                db.write_from_tg(**kw)
        return f

    o = w.victim(lambda: store(g))
    if not o.ok:
        w.fail('error', 'writing the tables failed: %r\n%s' % (o, o.tb))
    source = w.save('source')
    o = w.victim(load(False))
    if not o.ok:
        w.fail('error', 'loading into a new file failed: %r\n%s' % (o, o.tb))
    complete = dbp.read_bytes()
    want = dbmodel.db_expected(g, trans, how == 'direct')
    counts = dbmodel.expected_counts(g, trans)

    def prepare():
        """Put the existing file in place."""
        kind = s['old']
        if how == 'datasette' and s['seed'] % 2:
            (dbp.parent / 'datasette-metadata.json').write_text('{}')
        t0 = dbmodel.name(trans, g['tables'][0]['url'])
        if kind == 'garbage':
            dbp.write_bytes(MARK.encode() * 300)
        elif kind == 'empty':
            dbp.write_bytes(b'')
        elif kind in ('foreign', 'crashed', 'link'):
            target = dbp if kind != 'link' else w.data / 'target.sqlite'
            with contextlib.closing(sqlite3.connect(str(target))) as c:
                c.execute('CREATE TABLE `%s` (x, `%s`)' % (t0, 'context'))
                c.executemany('INSERT INTO `%s` VALUES (?, ?)' % t0, [(MARK, 'y')] * 50)
                c.execute('CREATE TABLE `old table` (x)')
                c.commit()
            if kind == 'link':
                dbp.symlink_to(target)
            if kind == 'crashed':
                # a process died while changing it
                def change():
                    with contextlib.closing(sqlite3.connect(str(dbp))) as c:
                        c.execute('PRAGMA cache_size = 2')
                        c.executemany('INSERT INTO `%s` VALUES (?, ?)' % t0, [(MARK * 100, 'y')] * 100)
                        c.commit()
                o = w.victim(change, [{'kind': 'CRASH_BEFORE', 'cls': 'UNLINK', 'at': 1}], count=False)
                assert o.status == 'crash', o
        else:
            dbp.write_bytes(complete)
            with contextlib.closing(sqlite3.connect(str(dbp))) as c:
                if kind == 'other':
                    for n in counts:
                        c.execute('DELETE FROM `%s`' % n)
                c.execute('CREATE TABLE `old table` (x)')
                c.execute('INSERT INTO `old table` VALUES (?)', (MARK,))
                c.commit()

    def bad_source(kind, r):
        """Make the source unreadable; the description of what was done, or None if that is not possible here."""
        t = r.choice(g['tables'])
        p = w.data / t['url']
        if kind == 'missing':
            p.unlink()
        elif kind == 'cell':
            v = dbmodel.violate(r, g, kinds=('required', 'range', 'length'))
            if not v:
                return
            o = w.victim(lambda: store(v[2]), count=False)
            if not o.ok:
                return
        elif kind == 'bytes':
            if lib.encoding(g['dialect']).lower() not in ('utf-8', 'utf-8-sig') or not t['rows']:
                return
            b = p.read_bytes()
            k = r.randint(len(b) // 2, len(b) - 2)
            p.write_bytes(b[:k] + b'\xff\xfe\xff' + b[k:])
        elif kind == 'zip':
            b = p.read_bytes()
            if len(b) < 100:
                return
            f = io.BytesIO()
            with zipfile.ZipFile(f, 'w', zipfile.ZIP_DEFLATED) as z:
                z.writestr(zipfile.ZipInfo(p.name, (2020, 1, 1, 0, 0, 0)), b)
            z = bytearray(f.getvalue())
            if r.random() < .5:
                z[30 + len(p.name.encode()) + 40] ^= 0x55
            else:
                del z[len(z) // 2:]
            p.with_name(p.name + '.zip').write_bytes(bytes(z))
            p.unlink()
        elif kind == 'md':
            b = md.read_bytes()
            md.write_bytes(r.choice([b[:-5], b'', b[:len(b) // 2]]))
        return '%s (%s)' % (kind, t['url'])

    def check_new(ctx):
        """The database holds exactly the new data."""
        if MARK.encode() in dbp.read_bytes():
            w.fail('remains', 'the file still holds old content; ' + ctx)
        o = w.victim(lambda: dbmodel.read_db(database()))
        if not o.ok or o.value != want:
            w.fail('remains', 'after loading with force the database does not hold exactly the new data: %s; %s' % (
                lib.first_diff(o.value, want) if o.ok else o, ctx))
        c = dbmodel.sql_counts(dbp, g, trans)
        if c['ok'] != 'ok' or c['counts'] != counts:
            w.fail('remains', 'after loading with force: %s, expected %s; %s' % (c, counts, ctx))

    w.restore(source)
    prepare()
    saved = w.save()
    before = w.tree()
    nof = w.victim(load(False))
    ctx = 'existing file (%s), loaded (%s) without force' % (s['old'], how)
    if nof.ok:
        w.fail('accepted', ctx + ' returns normally')
    if w.tree() != before:
        w.fail('changed', ctx + ' changes %s' % [k for k, v in w.tree().items() if before.get(k) != v] + str([k for k in before if k not in w.tree()]))
    w.restore(saved)
    force = w.victim(load(True)) if s['old'] != 'link' else None
    if force is not None:
        if not force.ok:
            w.fail('error', 'loading with force over an existing file (%s) failed: %r\n%s' % (s['old'], force, force.tb))
        check_new('existing file: %s, how: %s' % (s['old'], how))
    for plan in s['plans']:
        w.restore(saved)
        kind = plan['type']
        if s['old'] == 'link' and kind != 'noforce':
            continue
        if kind == 'noforce':
            opts = {'budget': plan['budget']} if 'budget' in plan else {}
            # the calls an overwriting load would make are targets as well
            faults = place(plan['faults'], nof.counts)
            if faults is None:
                w.probe('unplaced')
                continue
            o = w.victim(load(False), faults, **opts)
            ctx = 'existing file (%s), loaded (%s) without force under %s, outcome %r' % (s['old'], how, {**plan, 'faults': faults}, o)
            if o.ok:
                w.fail('accepted', ctx)
            if w.tree() != before:
                w.fail('changed', 'files changed: %s; %s' % ([k for k, v in w.tree().items() if before.get(k) != v], ctx))
        elif kind == 'force':
            faults = place(plan['faults'], force.counts)
            if faults is None:
                continue
            o = w.victim(load(True), faults)
            ctx = 'existing file (%s), loaded (%s) with force under %s, outcome %r' % (s['old'], how, {**plan, 'faults': faults}, o)
            if o.ok:
                check_new(ctx)
        elif how != 'direct':
            what, faults = '', ()
            if kind == 'force_bad':
                what = bad_source(plan['bad'], random.Random(plan['seed']))
                if not what:
                    w.probe('no_bad_source')
                    continue
            else:
                faults = place(plan['faults'], force.counts)
                if faults is None:
                    w.probe('unplaced')
                    continue
            now = w.tree()
            o = w.victim(load(True), faults)
            ctx = 'existing file (%s), loaded (%s) with force, source %s, %s, outcome %r' % (s['old'], how, what, faults, o)
            if what:
                w.nontrivial += 1
                if o.ok:
                    w.fail('accepted', 'an unreadable source was loaded; ' + ctx)
                hit = True
            else:
                bad = [path for slot, cls, path, fk, a, b, res in w.fs.log() if fk == 'ERRNO']
                hit = o.status == 'exc' and bad and not any(p.split('/')[-1].startswith(dbp.name) for p in bad) and all(
                    p.endswith(('.csv', '.json', '.zip')) for p in bad)
                if o.ok:
                    check_new(ctx)
            if hit:
                w.probe('source_failures')
                if w.tree() != now:
                    w.fail('destroyed', 'the source cannot be read, but files are changed: %s; %s' % (
                        [k for k in {**now, **w.tree()} if now.get(k) != w.tree().get(k)], ctx))
        else:
            continue
        w.probe('outcome_' + o.status)
        w.record(kind, o.status, o.exc[:1])
        if o.status == 'hang':
            w.fail('hang', ctx)
        if w.sample is None and o.fired:
            w.sample = {'old': s['old'], 'how': how, 'plan': plan, 'outcome': repr(o)[:200]}
