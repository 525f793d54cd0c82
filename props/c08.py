"""C08: a completed database load holds exactly the data."""
import random

from sim import dbmodel, gen, lib, model
from sim.world import place

RUNS = {'quick': 700, 'thorough': 25000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: real loads into real SQLite files over a simulated system-call layer (seeded errno, full disk, lock '
             'conflicts, short counts, interrupts), compared with a reference model of the related tables')
NOTE = ('Seeded search over schemas, data and fault positions. Documented limits of the backend are not generated ('
        'bounds of durations, decimals beyond double precision, lists of one empty string).')
RULE = ('A scenario is a group of 1-4 related tables with valid data, a name translation, a way to load it and 4-7 fault plans, plus loads of the '
        'same data with exactly one constraint violated. Non-trivial: a planned fault fired, a row violated a constraint, or the keys of the row '
        'dicts were reordered or omitted.')
COMPONENTS = {'real': ['csvw.db', 'csvw.metadata', 'SQLite (via sqlite3)', 'kernel tmpfs'],
              'stub': ['outcome of every file call, lock and sleep, clock (simfs.c)']}
ASSUMPTIONS = ['SQLite itself is trusted']


def plans(r, n):
    res = []
    for _ in range(n):
        x = r.random()
        if x < .35:
            cls = r.choice(['WRITE', 'READ', 'LOCK', 'LOCK', 'FSYNC', 'OPENW', 'OPENR', 'STAT', 'TRUNC', 'UNLINK', 'CLOSE'])
            res.append({'faults': [{'kind': 'ERRNO', 'cls': cls,
                                    'arg': r.choice(['EIO', 'EIO', 'ENOSPC', 'EACCES', 'EINTR'] + (['EAGAIN'] if cls == 'LOCK' else [])), 'frac': round(r.random() * .999, 4),
                                    'times': r.choice([1, 1, 1, 2, 5, 1000])}]})
        elif x < .55:
            res.append({'faults': [], 'budget': round(r.random(), 3), 'refill': r.choice([-1, 1, 2, 3])})
        elif x < .7:
            res.append({'faults': gen.legal_plan(r)})
        elif x < .85:
            res.append({'faults': gen.sigint_plan(r)})
        else:
            res.append({'faults': [{'kind': 'ERRNO', 'cls': 'LOCK', 'arg': r.choice(['EAGAIN', 'EACCES']), 'frac': round(r.random() * .999, 4),
                                    'times': r.choice([1, 3, 10, 100000])}], 'lock': True})
    return res


def generate(r, i, tier):
    g = dbmodel.group(r, nrows=r.choice([60, 200, 200, 1100]) if r.random() < .09 else None)
    s = {'g': g, 'trans': r.choice(dbmodel.TRANS), 'how': r.choice(['tg', 'tg', 'direct', 'direct', 'memory', 'cli']), 'plans': plans(r, r.randint(4, 7)),
         'shuffle': r.randint(0, 10**6), 'keep_self': r.random() < .2, 'extra': r.random() < .15, 'gen': r.random() < .3, 'twice': r.random() < .2}
    if s['how'] in ('direct', 'memory') and r.random() < .4:
        # rows passed directly may have empty items in lists of strings
        for t in g['tables']:
            for j, c in enumerate(t['columns']):
                if c.get('separator') and c.get('datatype', 'string') == 'string' and not dbmodel.is_m2m(t, c) and not t.get('hoist'):
                    for row in t['rows']:
                        if row[j] and r.random() < .5:
                            row[j].insert(r.randint(0, len(row[j])), '')
    bad = []
    for _ in range(3):
        v = dbmodel.violate(r, g)
        if v:
            bad.append(v)
    s['bad'] = bad
    if s['how'] == 'cli':
        s['trans'] = 'none'
    return s


def execute(s, w):
    g, trans, how = s['g'], s['trans'], s['how']
    md = lib.put_md(w, g)
    direct = how in ('direct', 'memory')
    dbp = w.data / 'x.sqlite'

    # self-referential keys can only be enforced where the rows are in order
    def ordered(g):
        for t in g['tables']:
            for f in t['fks']:
                if f.get('self') and not f.get('list'):
                    i, k = [[c['name'] for c in t['columns']].index(x) for x in (f['cols'][0], f['refcols'][0])]
                    seen = set()
                    for row in t['rows']:
                        seen.add(repr(row[k]))
                        if row[i] is not None and repr(row[i]) not in seen:
                            return False
        return True
    keep = s['keep_self'] and how != 'cli' and ordered(g)

    def store(g):
        from csvw import TableGroup
        tg = TableGroup.from_file(md)
        for t in g['tables']:
            tg.tabledict[t['url']].write(lib.items(t))

    def database(fname=dbp):
        from csvw import TableGroup
        from csvw.db import Database
        tg = TableGroup.from_file(md)
        return Database(tg, fname=fname, translate=dbmodel.translator(trans), drop_self_referential_fks=not keep)

    def rows(g):
        rng = random.Random(s['shuffle'])
        res = {}
        for t in g['tables']:
            out = []
            for row in t['rows']:
                d = model.row_dict(t, row, order=rng if rng.random() < .6 else None, drop_none=rng.random() < .5)
                for c, x in zip(t['columns'], row):
                    if x is None and c['name'] in t['pk']:
                        d[c['name']] = None
                    if x == [] and rng.random() < .3 and dbmodel.is_m2m(t, c):
                        d.pop(c['name'], None)
                if s['extra'] and rng.random() < .5:
                    d['unknown column'] = 'x'
                out.append(d)
            res[t['url']] = (x for x in out) if s['gen'] else out
        return res

    def load(g):
        def f():
            if how == 'cli':
                from csvw.__main__ import csvw2sqlite
                import argparse
                csvw2sqlite(argparse.Namespace(url=str(md), output=str(dbp)), test=True)
                return
            db = database(None if how == 'memory' else dbp)
            if direct:
                db.write(_skip_extra=s['extra'], **rows(g))
            else:
                db.write_from_tg()
            if how == 'memory':
                return dbmodel.read_db(db)
            if s['twice']:
                assert dbmodel.read_db(db) == dbmodel.read_db(db), 'reading twice differs'
        return f

    def expected(g):
        want = dbmodel.db_expected(g, trans, direct)
        return want

    def content(g, ctx, value=None):
        if how == 'memory':
            got = value
        else:
            o = w.victim(lambda: dbmodel.read_db(database()))
            if not o.ok:
                w.fail('unreadable', 'the database cannot be read: %r; %s\n%s' % (o, ctx, o.tb))
            got = o.value
            c = dbmodel.sql_counts(dbp, g, trans)
            if c['ok'] != 'ok' or (c['fk'] and (keep or not any(f.get('self') for t in g['tables'] for f in t['fks']))):
                w.fail('corrupt', 'SQLite finds the database damaged: %s; %s' % (c, ctx))
            if c['counts'] != dbmodel.expected_counts(g, trans):
                w.fail('rows', 'row counts in the database %s, expected %s; %s' % (c['counts'], dbmodel.expected_counts(g, trans), ctx))
        want = expected(g)
        if got != want:
            w.fail('rows', 'the database does not hold the data (read != loaded): %s; %s' % (lib.first_diff(got, want), ctx))

    if not direct:
        o = w.victim(lambda: store(g))
        if not o.ok:
            w.fail('error', 'writing the tables failed: %r\n%s' % (o, o.tb))
    saved = w.save()
    base = w.victim(load(g))
    if not base.ok:
        w.fail('rejected', 'valid data was rejected: %r\n%s\n%s' % (base, base.out[-800:], base.tb))
    content(g, 'after %s' % how, base.value)
    w.probe('loaded_rows', sum(len(t['rows']) for t in g['tables']))
    if direct:
        w.nontrivial += 1
    size = dbp.stat().st_size if dbp.exists() else 0
    for plan in s['plans'] if how != 'memory' else []:
        w.restore(saved)
        faults = place(plan['faults'], base.counts)
        if faults is None:
            w.probe('unplaced')
            continue
        opts = dict(budget=int(plan['budget'] * size * 2), refill=plan['refill']) if 'budget' in plan else {}
        o = w.victim(load(g), faults, **opts)
        ctx = 'load (%s) under %s, outcome %r' % (how, {**plan, 'faults': faults}, o)
        w.probe('outcome_' + o.status)
        if o.status == 'hang':
            w.fail('hang', ctx)
        if o.ok:
            content(g, ctx)
        elif not o.fired or faults and gen.is_legal(faults):
            w.fail('error', 'the load failed without reason: %s\n%s' % (ctx, o.tb))
        if w.sample is None and o.fired:
            w.sample = {'tables': [model.table_json(t) for t in g['tables']][:2], 'plan': plan, 'placed': faults, 'outcome': repr(o)[:200]}
        w.record(o.status, o.exc[:1])
    for kind, tname, bad in s['bad']:
        selfref = kind == 'fk' and not keep and any(
            f.get('self') and not f.get('list') for t in bad['tables'] if t['url'] == tname for f in t['fks'])
        w.restore(saved)
        if not direct:
            o = w.victim(lambda: store(bad))
            if not o.ok:
                continue
        o = w.victim(load(bad))
        w.probe('violation_' + kind + '_' + o.status)
        w.nontrivial += 1
        if o.ok and not selfref:
            w.fail('stored', 'data violating a constraint (%s of %s) was loaded without complaint' % (kind, tname))
