"""C07: loading a database is all or nothing."""
import contextlib
import random
import sqlite3

from props import c08
from sim import dbmodel, gen, lib, power
from sim.world import place

RUNS = {'quick': 380, 'thorough': 14000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: seeded crash, power-loss, error, lock-conflict and interrupt placement in the system calls of real loads '
             'into SQLite files, with observer connections at system-call boundaries and a model of what a power loss may leave on disk')
NOTE = ('Seeded search over crash points, not exhaustive. Power loss: any subset of unsynced 512-byte sectors survives, name changes survive in '
        'order. Only atomicity is claimed after a power loss, not durability.')
RULE = ('A scenario is a group of related tables, a way to load it (files, row dicts, command), optionally an old database to be replaced, and 7-10 '
        'plans, each one simulated load; for power loss 6-10 disk states are derived from one load. Non-trivial: a fault or crash fired, an observer '
        'looked or held a lock, or power was lost.')
COMPONENTS = {'real': ['csvw.db', 'csvw.metadata', 'SQLite (via sqlite3) including its locking between processes', 'kernel tmpfs'],
              'stub': ['outcome of every file call, lock and sleep, clock (simfs.c)', 'the disk after a power loss (sim/power.py)']}
ASSUMPTIONS = ['SQLite itself is trusted', 'sectors of 512 bytes are written atomically', 'name changes reach the disk in order']


def generate(r, i, tier):
    g = dbmodel.group(r, nrows=r.choice([30, 120, 400]) if r.random() < .25 else None)
    plans = []
    for _ in range(r.randint(7, 10)):
        x = r.random()
        if x < .3:
            plans.append({'type': 'fault', 'faults': gen.crash_plan(r)})
        elif x < .45:
            plans.append(dict(c08.plans(r, 1)[0], type='fault'))
        elif x < .52:
            plans.append({'type': 'fault', 'faults': gen.sigint_plan(r)})
        elif x < .6:
            plans.append({'type': 'fault', 'faults': [], 'budget': round(r.random(), 3), 'refill': r.choice([-1, -1, 2])})
        elif x < .68:
            plans.append({'type': 'bad', 'seed': r.randint(0, 10**6), 'faults': []})
        elif x < .72:
            plans.append({'type': 'raise', 'at': r.random(), 'faults': []})
        elif x < .8:
            plans.append({'type': 'observe', 'faults': [], 'skip': r.randint(0, 6)})
        elif x < .88:
            plans.append({'type': 'hold', 'faults': [], 'from': round(r.random(), 3), 'for': r.choice([1, 3, 10, 60, 10**6])})
        else:
            plans.append({'type': 'power', 'faults': [] if r.random() < .7 else gen.sigint_plan(r), 'seed': r.randint(0, 10**6), 'n': r.randint(6, 10)})
    return {'g': g, 'trans': r.choice(dbmodel.TRANS), 'how': r.choice(['tg', 'tg', 'direct', 'cli']), 'plans': plans, 'force': r.random() < .35,
            'old': r.random() < .3, 'shuffle': r.randint(0, 10**6), 'exists': r.random() < .1}


class Broken(Exception):
    pass


def snapshot(path):
    """Raw content as another process sees it; None while it is locked."""
    if not path.exists():
        return {}
    try:
        with contextlib.closing(sqlite3.connect(str(path), timeout=0, isolation_level=None)) as c:
            c.execute('BEGIN')
            names = [x[0] for x in c.execute("SELECT name FROM sqlite_master WHERE type = 'table' ORDER BY name")]
            res = {n: sorted(map(repr, c.execute('SELECT * FROM `%s`' % n))) for n in names}
            c.execute('COMMIT')
            return {n: rows for n, rows in res.items() if rows}
    except sqlite3.OperationalError as e:
        if 'locked' in str(e) or 'busy' in str(e):
            return None
        raise Broken(repr(e))
    except sqlite3.DatabaseError as e:
        raise Broken(repr(e))


def intact(path):
    if path.exists():
        with contextlib.closing(sqlite3.connect(str(path), timeout=0)) as c:
            try:
                return c.execute('PRAGMA integrity_check').fetchall()[0][0]
            except sqlite3.DatabaseError as e:
                return repr(e)
    return 'ok'


def execute(s, w):
    g, trans, how = s['g'], s['trans'], 'tg' if s['how'] == 'cli' and s['trans'] != 'none' else s['how']
    md = lib.put_md(w, g)
    dbp = w.data / 'x.sqlite'

    class Boom(Exception):
        pass

    def database():
        from csvw import TableGroup
        from csvw.db import Database
        return Database(TableGroup.from_file(md), fname=dbp, translate=dbmodel.translator(trans))

    def store(g):
        from csvw import TableGroup
        tg = TableGroup.from_file(md)
        for t in g['tables']:
            tg.tabledict[t['url']].write(lib.items(t))

    def load(force, g=g, boom=None):
        def f():
            if how == 'cli':
                import argparse
                from csvw.__main__ import csvw2sqlite
                return csvw2sqlite(argparse.Namespace(url=str(md), output=str(dbp)), test=True)
            db = database()
            if how == 'direct':
                def rows(t, k):
                    for j, x in enumerate(lib.items(t, 'shuffled', s['shuffle'])):
                        if boom is not None and (k, j) == boom:
                            raise Boom()
                        yield x
                db.write(force=force, **{t['url']: rows(t, k) for k, t in enumerate(g['tables'])})
            else:
                db.write_from_tg(_force=force)
        return f

    if how != 'direct':
        o = w.victim(lambda: store(g))
        if not o.ok:
            w.fail('error', 'writing the tables failed: %r\n%s' % (o, o.tb))
    saved = w.save()
    o = w.victim(load(False))
    if not o.ok:
        w.fail('error', 'the load failed without any fault: %r\n%s' % (o, o.tb))
    complete = snapshot(dbp)
    o = w.victim(lambda: dbmodel.read_db(database()))
    if not o.ok or o.value != dbmodel.db_expected(g, trans, how == 'direct'):
        w.fail('incomplete', 'a load without any fault is not complete: %r' % o)
    size = dbp.stat().st_size
    w.restore(saved)
    force = s['force'] or s['old'] or how == 'cli'
    old = {}
    if s['old']:
        with contextlib.closing(sqlite3.connect(str(dbp))) as c:
            c.execute('CREATE TABLE `%s` (x)' % dbmodel.name(trans, g['tables'][0]['url']))
            c.executemany('INSERT INTO `%s` VALUES (?)' % dbmodel.name(trans, g['tables'][0]['url']), [('old',)] * 3000)
            c.commit()
        old = snapshot(dbp)
    elif s['exists']:
        dbp.write_bytes(b'')
        force = True
    saved = w.save()
    base = w.victim(load(force))
    if not base.ok or snapshot(dbp) != complete:
        w.fail('error', 'the load failed without any fault: %r\n%s' % (base, base.tb))
    allowed = [{}, complete] + ([old] if old else [])

    def check(ctx, done=False, busy=True):
        try:
            got = snapshot(dbp)
        except Broken as e:
            w.fail('unreadable', 'the database is not readable: %s; %s' % (e, ctx))
        if got is None:
            w.probe('observer_busy')
            if not busy:
                w.fail('locked', 'the database stays locked; ' + ctx)
            return
        if got not in allowed or done and got != complete:
            w.fail('partial', 'visible rows per table %s, complete would be %s; %s' % (
                {k: len(v) for k, v in got.items()}, {k: len(v) for k, v in complete.items()}, ctx))
        w.probe('seen_complete' if got == complete else 'seen_old' if got and got == old else 'seen_none')

    def retry(ctx, repair=False):
        if repair:
            store(g)
        o = w.victim(load(True))
        if not o.ok:
            w.fail('retry', 'loading again with force failed: %r; %s\n%s' % (o, ctx, o.tb))
        check('after loading again with force; ' + ctx, done=True, busy=False)
        if intact(dbp) != 'ok':
            w.fail('unreadable', 'damaged after loading again: %s; %s' % (intact(dbp), ctx))
        o = w.victim(lambda: dbmodel.read_db(database()))
        if not o.ok or o.value != dbmodel.db_expected(g, trans, how == 'direct'):
            w.fail('retry', 'loading again with force does not give the complete data: %r; %s' % (o, ctx))
        w.probe('retries')

    for n, plan in enumerate(s['plans']):
        w.restore(saved)
        kind = plan['type']
        opts, counts = {}, base.counts
        if 'budget' in plan:
            opts = dict(budget=int(plan['budget'] * size * 2.2), refill=plan['refill'])
        fn, expect = load(force), None
        if kind == 'bad':
            v = dbmodel.violate(random.Random(plan['seed']), g)
            if not v or v[0] == 'fk' and any(f.get('self') for t in v[2]['tables'] for f in t['fks']):
                w.probe('no_violation')
                continue
            if how != 'direct':
                o = w.victim(lambda: store(v[2]))
                if not o.ok:
                    continue
            fn, expect = load(force, v[2]), 'exc'
        if kind == 'raise':
            rows = [(k, j) for k, t in enumerate(g['tables']) for j in range(len(t['rows']))]
            if how != 'direct' or not rows:
                continue
            fn, expect = load(force, boom=rows[int(plan['at'] * len(rows))]), 'exc'
        faults = place(plan['faults'], counts)
        if faults is None:
            w.probe('unplaced')
            continue
        ctx = 'load (%s, force=%s, old=%s) under %s' % (how, force, s['old'], {**plan, 'faults': faults})
        if kind == 'observe':
            seen = [0]

            def look(k, cls, path):
                seen[0] += 1
                if (seen[0] + plan['skip']) % (1 + sum(counts.values()) // 150) == 0 or cls in ('LOCK', 'UNLINK', 'TRUNC', 'FSYNC'):
                    check('observed before %s of %s (call %d); %s' % (cls, path.split('/')[-1], k, ctx))
            opts.update(on_pause=look, pauses=[{'cls': 'ANY', 'at': 1, 'times': 10**9}])
        conn = []
        if kind == 'hold':
            start = int(plan['from'] * sum(counts.values()))

            def hold(k, cls, path):
                if k == start and dbp.exists() and not conn:
                    c = sqlite3.connect(str(dbp), timeout=0, isolation_level=None)
                    try:
                        c.execute('BEGIN')
                        c.execute('SELECT count(*) FROM sqlite_master').fetchall()
                        conn.append(c)
                        w.probe('holders')
                    except sqlite3.OperationalError:
                        c.close()
                if k == start + plan['for'] and conn:
                    conn.pop().close()
            opts.update(on_pause=hold, pauses=[{'cls': 'ANY', 'at': 1, 'times': 10**9}])
        if kind == 'power':
            disk = power.Disk(w.root)
            opts['journal'] = 1
        o = w.victim(fn, faults, **opts)
        while conn:
            conn.pop().close()
        ctx += ', outcome %r' % o
        w.probe('outcome_' + o.status)
        w.record(kind, o.status, o.exc[:1])
        if o.status == 'hang':
            w.fail('hang', ctx)
        if kind not in ('fault', 'power'):
            w.nontrivial += 1
        if expect and o.ok:
            w.fail('accepted', 'an invalid or failing source was loaded without complaint; ' + ctx)
        if not expect and o.status == 'exc' and not o.fired and not (kind == 'hold' and plan['for'] > 1 and 'locked' in o.msg):
            w.fail('error', 'the load failed without reason: %s\n%s' % (ctx, o.tb))
        if kind == 'power':
            disk.load(w.fs.journal())
            r = random.Random(plan['seed'])
            for j in range(plan['n']):
                k = r.randint(0, disk.n)
                disk.put(disk.state(r, k))
                w.nontrivial += 1
                w.probe('power_losses')
                cut = 'power lost after %d of %d disk operations; %s' % (k, disk.n, ctx)
                if j % 4 == 0:
                    retry(cut)
                    continue
                check(cut, busy=False)
                if intact(dbp) != 'ok':
                    w.fail('unreadable', 'damaged: %s; %s' % (intact(dbp), cut))
            continue
        repair = kind == 'bad' and how != 'direct'
        if n % 2 and not o.ok:
            retry(ctx, repair)
            continue
        check(ctx, done=o.ok, busy=False)
        if intact(dbp) != 'ok':
            w.fail('unreadable', 'damaged: %s; %s' % (intact(dbp), ctx))
        if not o.ok:
            retry(ctx, repair)
        if w.sample is None and o.fired:
            w.sample = {'tables': [t['url'] for t in g['tables']], 'how': how, 'plan': plan, 'placed': faults, 'outcome': repr(o)[:200]}
