"""C06: histories of describing, writing, saving, copying and reopening table groups."""
import copy
import json
import random

from sim import gen, lib, model
from sim.world import place

RUNS = {'quick': 450, 'thorough': 20000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: seeded histories of operations on table groups, each session in its own process, with crashes and '
             'errors at seeded system calls; oracle: a reference model of the files and descriptions')
NOTE = ('Seeded search over histories and fault positions. A session under a fault holds one operation, so that its two permitted outcomes are '
        'known. Replacing an existing metadata file is not claimed to be atomic (the code does not promise it).')
RULE = ('A scenario is a history of 1-5 sessions (fresh process: open or build a group, then 1-3 of write, save, copy, edit, table write, read), '
        'verified by a further fresh process after each session, with 3-6 fault plans for each single-operation session. Non-trivial: a planned '
        'fault fired.')
COMPONENTS = {'real': ['csvw.metadata', 'csvw.dsv', 'Python io/csv/json/shutil', 'kernel tmpfs'],
              'stub': ['outcome of every file call, clock (simfs.c)']}
ASSUMPTIONS = ['process crash: bytes handed to the kernel survive', 'an existing metadata file may be torn by a crash while it is replaced']

DIRS = ['', 'A', 'B', 'C d']


def newtable(r, k, gd):
    t = model.table(r, model.url(r, k, ['t%d.csv', 't %d.csv', 'sub/t%d.csv', 't%d.txt']), group_dialect=gd, own_dialect=.35, titles=True,
                    nrows=r.choice([0, 1, 2, 3, 6]) if r.random() < .93 else r.choice([150, 150, 1100]))
    if r.random() < .04:
        # a table which is listed, but whose columns are not described
        t.update(columns=[], rows=[])
    elif r.random() < .5:
        model.decorate(r, t)
    if r.random() < .4:
        t['extra'] = {r.choice(['dc:source', 'dc:title', 'schema:name']): r.choice([gen.cell(r), ['a', 'b'], {'@value': gen.cell(r), '@language': 'en'}])}
    if r.random() < .2:
        t.setdefault('extra', {})['notes'] = [{'x': gen.cell(r)}]
    if r.random() < .1:
        t.setdefault('extra', {})['suppressOutput'] = True
    return t


def generate(r, i, tier):
    gd = model.dialect(r)
    n = r.choice([1, 1, 2, 2, 3])
    g = {'dialect': gd, 'tables': [newtable(r, k, gd) for k in range(n)], 'props': {}}
    if r.random() < .7:
        g['props'] = {'dc:title': gen.cell(r), 'dc:identifier': 'http://example.org/' + gen.ident(r), 'notes': ['n']}
    if r.random() < .2 and n > 1:
        fk(r, g)
    sessions = [{'open': None, 'ops': [{'op': 'write', 'dir': r.choice(DIRS), 'name': 'md.json', 'tables': 'all', 'vary': 0}]}]
    if r.random() < .25:
        sessions[0]['ops'][0]['tables'] = 'some'
    nk = n
    for _ in range(r.randint(1, 4)):
        ops = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            op = r.choice(['write', 'write', 'save', 'save', 'copy', 'copy', 'table', 'table', 'prop', 'read', 'addtable', 'addcol', 'dialect', 'delprop'])
            o = {'op': op, 'dir': r.choice(DIRS), 'name': r.choice(['md.json', 'md.json', 'x-metadata.json', 'Wörterbuch.json'])}
            if op in ('write', 'table', 'addcol', 'dialect'):
                o['vary'] = r.randint(0, 5)
                o['tables'] = r.choice(['all', 'some'])
                o['which'] = r.randint(0, 3)
            if op == 'addtable':
                o['table'] = newtable(r, nk, gd)
                nk += 1
            if op == 'addcol':
                o['col'] = {'name': 'new%d' % r.randint(0, 99), 'datatype': r.choice(['string', 'integer'])}
            if op == 'dialect':
                o['dialect'] = r.choice([{}, {'delimiter': ';'}, {'delimiter': '\t', 'quoteChar': "'"}, {'encoding': 'utf-16'}, {'header': False}])
            if op == 'prop':
                o['key'] = r.choice(['dc:title', 'dc:description', 'schema:x'])
                o['value'] = r.choice([gen.cell(r), [1, 'b'], {'@value': 'v'}])
                o['on'] = r.choice([-1, -1, 0, 1])
            if op == 'save':
                o['full'] = r.random() < .25
            ops.append(o)
        plans = []
        for _ in range(r.randint(3, 6)):
            x = r.random()
            if x < .5:
                plans.append({'faults': gen.crash_plan(r)})
            elif x < .75:
                plans.append({'faults': gen.error_plan(r)})
            elif x < .85:
                plans.append({'faults': gen.legal_plan(r)})
            else:
                plans.append({'faults': [], 'budget': round(r.random(), 3)})
        sessions.append({'open': r.randint(0, 5), 'ops': ops, 'plans': plans})
    sessions[0]['plans'] = sessions[-1]['plans']
    if r.random() < .25:
        # copying again to the same place, after a change which leaves the size of the data as it was
        d = r.choice(DIRS[1:])
        first = sessions[0]['ops'][0]
        first.update(dir='', tables='all')
        again = [{'op': 'copy', 'dir': d, 'name': 'md.json'}]
        sessions[1:1] = [{'open': 'md.json', 'ops': again, 'plans': sessions[0]['plans']},
                         {'open': 'md.json', 'ops': [{'op': 'table', 'dir': '', 'name': 'md.json', 'vary': -r.randint(1, 3), 'tables': 'all', 'which': r.randint(0, 3)}], 'plans': sessions[0]['plans'][:2]},
                         {'open': 'md.json', 'ops': again, 'plans': sessions[0]['plans']}]
    ops = [o for x in sessions for o in x['ops']]
    for t in g['tables'] + [o['table'] for o in ops if 'table' in o]:
        # (what is said for a whole group would apply to tables which are added)
        t['hoist'] = [] if any(o['op'] == 'addcol' for o in ops) else [[k, 'table' if l == 'group' else l] for k, l in t.get('hoist', ())]
    return {'g': g, 'sessions': sessions, 'seed': r.randint(0, 10**6), 'single': n == 1 and r.random() < .3}


def fk(r, g):
    a, b = g['tables'][0], g['tables'][1]
    if a['columns'] and b['columns'] and a['columns'][0].get('name') and b['columns'][0].get('name'):
        a['fks'] = [{'cols': [a['columns'][0]['name']], 'ref': b['url'], 'refcols': [b['columns'][0]['name']]}]


def varied(t, vary):
    """Other rows for the table: a permutation/selection of its rows."""
    rows = t['rows']
    if not vary or not rows:
        return rows
    if vary < 0:
        return [copy.deepcopy(x) for x in rows[vary:] + rows[:vary]]
    rng = random.Random(vary)
    return [copy.deepcopy(rng.choice(rows)) for _ in range(rng.randint(0, len(rows) + 1))]


def execute(s, w):
    from csvw import TableGroup, Table
    from csvw.metadata import Column, Dialect
    single = s.get('single')
    cls = Table if single else TableGroup

    for d in DIRS:
        (w.data / d / 'sub').mkdir(parents=True, exist_ok=True)
    # the model: metadata files and data files on disk
    disk = {'md': {}, 'data': {}}

    def doc_of(g):
        if single:
            res = {'@context': 'http://www.w3.org/ns/csvw'}
            res.update(model.hoist(g['tables'][0], model.table_json(g['tables'][0])))
            res.setdefault('dialect', g['dialect'] or {})
            for k, v in (g.get('props') or {}).items():
                res[k] = v
            return res
        return model.group_json(g)

    class Session:
        """The model of one process: description in memory and its location."""
        def __init__(self, g, loc):
            self.g, self.loc = copy.deepcopy(g), loc
            self.targets = set()  # the files the operations write

    def base_of(sess):
        return None if sess.loc is None else sess.loc.rsplit('/', 1)[0] if '/' in sess.loc else ''

    def p(d, name):
        return (d + '/' if d else '') + name

    def plan_op(op, sess, disk):
        """-> (function doing it on the real object, new model disk); updates the session's model. None: not applicable."""
        g = sess.g
        disk = copy.deepcopy(disk)
        kind = op['op']
        tables = g['tables']

        def put(where, t, rows):
            t2 = copy.deepcopy(t)
            t2['rows'] = rows
            sess.targets.add(p(where, t['url']))
            disk['data'][p(where, t['url'])] = lib.norm(model.expected_rows(t2)), eff(g, t)
            return lib.items(t2)

        def eff(g, t):
            return model.effective(g, t)
        if kind == 'write':
            path = p(op['dir'], op['name'])
            sess.targets.add(path)
            chosen = tables if op['tables'] == 'all' else tables[:1]
            if single:
                items = put(op['dir'], tables[0], varied(tables[0], op['vary']))
                disk['md'][path] = copy.deepcopy(g)

                def f(obj):
                    n = obj.write(items, base=str(w.data / op['dir']))
                    assert n == len(items)
                    obj.to_file(w.data / path)
                return f, disk
            items = {t['url']: put(op['dir'], t, varied(t, op['vary'])) for t in chosen}
            disk['md'][path] = copy.deepcopy(g)
            return lambda obj: obj.write(w.data / path, **items), disk
        if kind == 'save':
            path = p(op['dir'], op['name'])
            sess.targets.add(path)
            disk['md'][path] = copy.deepcopy(g)
            return lambda obj: obj.to_file(w.data / path, omit_defaults=not op.get('full')), disk
        if sess.loc is None:
            return
        base = base_of(sess)
        if kind == 'copy':
            if single or base == op['dir'] or any(p(base, t['url']) not in disk['data'] for t in tables):
                return
            path = p(op['dir'], sess.loc.split('/')[-1])
            sess.targets.add(path)
            for t in tables:
                sess.targets.add(p(op['dir'], t['url']))
                disk['data'][p(op['dir'], t['url'])] = disk['data'][p(base, t['url'])]
            disk['md'][path] = copy.deepcopy(g)
            sess.loc = path
            return lambda obj: obj.copy(w.data / op['dir']), disk
        k = op.get('which', 0) % len(tables)
        tabs = (lambda obj: [obj]) if single else (lambda obj: obj.tables)
        if kind == 'table':
            items = put(base, tables[k], varied(tables[k], op['vary']))
            return lambda obj: tabs(obj)[k].write(x for x in items), disk
        if kind == 'read':
            if any(p(base, t['url']) not in disk['data'] for t in tables):
                return
            if any(model.effective(g, t) != disk['data'][p(base, t['url'])][1] for t in tables) or any(
                    stale(t, disk['data'][p(base, t['url'])][0]) for t in tables):
                return
            want = {t['url']: disk['data'][p(base, t['url'])][0] for t in tables}

            def f(obj):
                got = lib.norm({t.local_name: [model.canon_row(x) for x in t.iterdicts()] for t in tabs(obj)})
                assert got == want, 'reading in the same process gives other rows: ' + lib.first_diff(got, want)
            return f, disk
        if kind in ('prop', 'delprop'):
            key = op.get('key', 'dc:title')
            if op.get('on', -1) < 0 or single:
                props = g.setdefault('props', {})
                obj_of = (lambda obj: obj)
            else:
                j = op['on'] % len(tables)
                props = tables[j].setdefault('extra', {})
                obj_of = (lambda obj: obj.tables[j])
            if single:
                tables[0].get('extra', {}).pop(key, None)
            if kind == 'prop':
                props[key] = op['value']
                return lambda obj: obj_of(obj).common_props.__setitem__(key, copy.deepcopy(op['value'])), disk
            props.pop(key, None)
            return lambda obj: obj_of(obj).common_props.pop(key, None), disk
        if kind == 'addtable':
            if single or any(t['url'] == op['table']['url'] for t in tables):
                return
            t = copy.deepcopy(op['table'])
            if t.get('dialect') is None:
                t['dialect'] = {}
                t['rows'] = []
            tables.append(t)
            items = put(base, t, t['rows'])
            tdoc = copy.deepcopy(model.hoist(t, model.table_json(t)))

            def f(obj):
                tab = Table.fromvalue(tdoc)
                tab._parent = obj
                obj.tables.append(tab)
                tab.write(items)
            return f, disk
        if kind == 'addcol':
            t = tables[k]
            if any(c.get('name') == op['col']['name'] for c in t['columns']) or t.get('virtual'):
                return
            t['columns'].append(dict(op['col']))
            if model.effective(g, t).get('skipBlankRows'):
                t['rows'] = []
            for row in t['rows']:
                row.append('v' if op['col']['datatype'] == 'string' else 5)
            items = put(base, t, varied(t, op['vary']))

            def f(obj):
                tab = tabs(obj)[k]
                tab.tableSchema.columns.append(Column.fromvalue(dict(op['col'])))
                tab.write(items)
            return f, disk
        if kind == 'dialect':
            t = tables[k]
            if model.effective(g, t).get('encoding') not in (None, 'utf-8') or any(
                    model.effective(g, t).get(x) for x in ('trim', 'skipInitialSpace', 'commentPrefix', 'skipBlankRows')):
                return
            t['dialect'] = dict(op['dialect'])
            model.ascii_dialect_safe(t, t['dialect'])
            items = put(base, t, varied(t, op['vary']))

            def f(obj):
                tabs(obj)[k].dialect = Dialect(**op['dialect'])
                tabs(obj)[k].write(items)
            return f, disk
        raise ValueError(kind)

    def stale(t, rows):
        return bool(rows) and [c[0] for c in rows[0]] != [
            model.header(c, i) for i, c in enumerate(t['columns'] + t.get('virtual', []))]

    def verify(disk, ctx, paths=None):
        """A new process opens what the model says is there."""
        jobs = {path: g for path, g in disk['md'].items() if paths is None or path in paths}

        def look():
            res = {}
            for path in jobs:
                obj = cls.from_file(w.data / path)
                rows = {}
                for t in ([obj] if single else obj.tables):
                    d = path.rsplit('/', 1)[0] if '/' in path else ''
                    if (w.data / d / t.local_name).exists() and (path, t.local_name) in readable:
                        rows[t.local_name] = [model.canon_row(x) for x in t.iterdicts()]
                res[path] = {'doc': obj.asdict(), 'rows': rows, 'raw': json.loads((w.data / path).read_text(encoding='utf-8'))}
            return lib.norm(res)
        readable = {}
        for path, g in jobs.items():
            d = path.rsplit('/', 1)[0] if '/' in path else ''
            for t in g['tables']:
                have = disk['data'].get(p(d, t['url']))
                # data written later with another description of the table cannot be read with this one
                if have is not None and have[1] == model.effective(g, t) and not stale(t, have[0]):
                    readable[path, t['url']] = have[0]
        o = w.victim(look)
        if not o.ok:
            w.fail('unreadable', 'a new process cannot open what was written: %r; %s\n%s' % (o, ctx, o.tb))
        for path, g in jobs.items():
            want = lib.norm(lib.canon_doc(doc_of(g)))
            for what in ('doc', 'raw'):
                if what == 'raw' and path in full:
                    continue
                got = lib.norm(lib.canon_doc(o.value[path][what]))
                if got != want:
                    w.fail('description', 'the description opened from %s is not the one saved there (%s): %s; %s' % (
                        path, what, lib.first_diff(got, want), ctx))
            for t in g['tables']:
                if (path, t['url']) in readable:
                    got = o.value[path]['rows'].get(t['url'])
                    if got != readable[path, t['url']]:
                        w.fail('rows', 'the rows read from %s via %s are not those written: %s; %s' % (
                            t['url'], path, lib.first_diff(got, readable[path, t['url']]), ctx))

    full = set()

    def act(sess_g, loc, fs):
        def run():
            # open or build
            obj = cls.from_file(w.data / loc) if loc is not None else cls.fromvalue(doc_of(sess_g))
            for f in fs:
                f(obj)
                before = lib.norm(obj.asdict())
                after = lib.norm(obj.asdict())
                assert before == after
            return True
        return run

    def files():
        return {k: v for k, v in w.tree(w.data).items()}

    for si, ses in enumerate(s['sessions']):
        if ses['open'] is None:
            g, loc = s['g'], None
        else:
            if not disk['md']:
                continue
            loc = ses['open']
            if not isinstance(loc, str):
                loc = sorted(disk['md'])[loc % len(disk['md'])]
            elif loc not in disk['md']:
                continue
            g = disk['md'][loc]
        sess = Session(g, loc)
        if single and ses['open'] is None:
            sess.loc = loc = 'md.json'
            (w.data / 'md.json').write_text(json.dumps(doc_of(g)), encoding='utf-8')
            disk['md']['md.json'] = copy.deepcopy(g)
        fs, after, done = [], disk, []
        for op in ses['ops']:
            x = plan_op(op, sess, after)
            if x is None:
                continue
            f, after = x
            fs.append(f)
            done.append(op['op'])
            if op['op'] in ('save', 'write', 'copy'):
                path = p(op['dir'], op.get('name')) if op['op'] != 'copy' else sess.loc
                (full.add if op.get('full') else full.discard)(path)
        if not fs:
            continue
        ctx = 'session %d: %s' % (si, done)
        snapshot = w.save('s')
        before = files()
        run = act(g, loc, fs)
        o = w.victim(run)
        if not o.ok:
            w.fail('error', 'an operation failed without any fault: %r; %s\n%s' % (o, ctx, o.tb))
        now = files()
        verify(after, ctx)
        changed = {k for k in set(now) | set(before) if now.get(k) != before.get(k)}
        if changed - sess.targets:
            w.fail('extra', 'files changed which no operation names: %s; %s' % (sorted(changed - sess.targets), ctx))
        if set(before) - set(now):
            w.fail('removed', 'files removed: %s; %s' % (sorted(set(before) - set(now)), ctx))
        if done == ['copy']:
            for k in before:
                if before[k] != now.get(k) and not k.startswith(base_of(sess) + '/' if base_of(sess) else ''):
                    w.fail('original', 'copying changed %s; %s' % (k, ctx))
        good = w.save('good')
        size = sum(len(now[k]) for k in changed)
        if len(done) == 1 and done[0] in ('write', 'copy', 'save', 'table'):
            for plan in ses['plans']:
                w.restore(snapshot)
                faults = place(plan['faults'], o.counts)
                if faults is None:
                    continue
                opts = {'budget': int(plan['budget'] * max(size, 1))} if 'budget' in plan else {}
                f = w.victim(run, faults, **opts)
                fctx = '%s under %s, outcome %r' % (ctx, {**plan, 'faults': faults}, f)
                w.probe('%s_%s' % (done[0], f.status))
                w.record(f.status, f.exc[:1])
                if f.status == 'hang':
                    w.fail('hang', fctx)
                if f.ok:
                    verify(after, fctx)
                    continue
                if f.status == 'exc' and (not f.fired or faults and gen.is_legal(faults)):
                    w.fail('error', 'the operation failed without reason: ' + fctx + f.tb)
                cur = files()
                for k in before:
                    if k not in sess.targets and cur.get(k) != before[k]:
                        w.fail('other', 'a file (%s) which the operation does not write was changed; %s' % (k, fctx))
                if done[0] in ('write', 'copy') and not single:
                    for path in after['md']:
                        if path not in before and path in cur:
                            d = path.rsplit('/', 1)[0] if '/' in path else ''
                            for t in after['md'][path]['tables']:
                                k = p(d, t['url'])
                                if k in now and cur.get(k) != now[k]:
                                    w.fail('order', 'the metadata file %s appeared, but the data of %s is not completely there; %s' % (path, k, fctx))
                            w.probe('metadata_after_data')
                if w.sample is None and f.fired:
                    w.sample = {'history': [[x['op'] for x in y['ops']] for y in s['sessions']], 'session': si, 'plan': plan, 'placed': faults,
                                'outcome': repr(f)[:200]}
                # trying again
                if loc is None or cur.get(loc) == before.get(loc):
                    f = w.victim(run)
                    if not f.ok:
                        w.fail('retry', 'repeating the operation failed: %r; first: %s' % (f, fctx))
                    verify(after, 'repeated after ' + fctx)
            w.restore(good)
        disk = after
