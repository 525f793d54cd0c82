"""C10: key checks agree with the data stored at the time of the check."""
import copy
import decimal
import io
import os
import random
import zipfile

from sim import gen, lib, model
from sim.world import place

RUNS = {'quick': 900, 'thorough': 36000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: seeded histories of writes and edits with checks by short- and long-lived objects in between, and checks under '
             'seeded read faults, against a reference model of the stored keys')
NOTE = ('Seeded search over keys, histories and fault positions. Composite foreign keys with some parts null count as null. Cells are valid for their datatype.')
RULE = ('A scenario is a group of 1-3 tables with primary and foreign keys over small domains (so that violations are common), a history of 2-7 '
        'edits with checks in between, and 5-8 checks under faults. Non-trivial: a fault fired or the data changed between two checks of one object.')
COMPONENTS = {'real': ['csvw.metadata', 'csvw.dsv', 'Python io/csv/zipfile', 'kernel tmpfs'], 'stub': ['outcome of every file call, clock (simfs.c)']}
ASSUMPTIONS = []
DOMAINS = {
    'string': ['a', 'A', 'b', 'ä', 'a b', 'x,y', 'q"', '1', '01', 'null', "o'c", 'a;', '中', '0', '-'],
    'integer': [0, 1, -1, -2, 7, 10, 100, 2**61 - 1, 12345678901234567890],
    'decimal': ['0', '1.5', '-2', '-1', '10', '0.1', '100.25', '10.00000000000000000001'],
    'boolean': [True, False],
    'date': ['2020-01-01T00:00:00', '2020-02-29T00:00:00', '1999-12-31T00:00:00'],
}
TYPES = ['string', 'string', 'string', 'string', 'integer', 'integer', 'decimal', 'date', 'boolean']


def val(r, t, big):
    if big and t == 'string':
        return 'k%d' % r.randint(0, 10**6)
    if big and t == 'integer':
        return r.randint(0, 10**6)
    return r.choice(DOMAINS[t])


def generate(r, i, tier):
    gd = {} if r.random() < .6 else {k: v for k, v in model.dialect(r).items() if k in ('delimiter', 'quoteChar', 'lineTerminators', 'header', 'encoding')
                                     and v not in ('latin-1', 'cp1252')}
    tables = []
    n = r.choice([1, 2, 2, 3])
    for k in range(n):
        cols = [{'name': 'k%d' % j, 'datatype': r.choice(TYPES)} for j in range(r.choice([1, 2, 2, 3]))]
        pk = r.choice([[]] + [[cols[0]['name']]] * 4 + [[c['name'] for c in cols]] * 3)
        if r.random() < .3:
            pk = pk[::-1]
        tables.append({'url': model.url(r, k, ['t%d.csv', 'x %d.csv', 'sub/t%d.csv']), 'columns': cols, 'pk': pk, 'fks': []})
    for k, t in enumerate(tables):
        for _ in range(r.choice([0, 1, 1, 2])):
            ref = r.choice(tables)
            target = r.sample([c for c in ref['columns'] if c['name'].startswith('k')], r.choice([1, 1, 1, 2, 3]) if len(ref['columns']) > 2 else 1) \
                if len([c for c in ref['columns'] if c['name'].startswith('k')]) >= 3 else [r.choice([c for c in ref['columns'] if c['name'].startswith('k')])]
            names = []
            lst = len(target) == 1 and r.random() < .35
            for c in target:
                col = {'name': 'f%d' % len(t['columns']), 'datatype': c['datatype']}
                if lst:
                    col['separator'] = '|'
                t['columns'].append(col)
                names.append(col['name'])
            t['fks'].append({'cols': names, 'ref': ref['url'], 'refcols': [c['name'] for c in target], 'list': lst})
        t['columns'].append({'name': 'v'})
        if r.random() < .3:
            r.shuffle(t['columns'])
    g = {'dialect': gd, 'tables': tables}
    big = r.random() < .08
    for t in tables:
        t['rows'] = []
    for t in tables:
        t['rows'] = rows(r, g, t, r.choice([0, 1, 2, 3, 4, 6]) if not big else r.choice([400, 400, 1100]), .05 if not big else 0)
    ops = []
    for _ in range(r.randint(2, 7)):
        ops.append({'op': r.choice(['write', 'raw', 'raw', 'add', 'filter', 'group', 'same', 'zip', 'none', 'swap']), 'which': r.randint(0, 2), 'seed': r.randint(0, 10**6),
                    'n': r.choice([0, 1, 2, 3, 5]), 'bad': r.choice([0, 0, .1, .3]), 'check': r.choice(['long', 'long', 'fresh', 'both']), 'log': r.random() < .4})
    plans = []
    for _ in range(r.randint(5, 8)):
        x = r.random()
        if x < .55:
            plans.append({'type': 'err', 'faults': [{'kind': 'ERRNO', 'cls': r.choice(['READ', 'READ', 'READ', 'OPENR', 'STAT']), 'arg': r.choice(['EIO', 'EIO', 'ESTALE', 'EACCES']),
                                                     'frac': round(r.random() * .999, 4), 'times': r.choice([1, 100000])}], 'warm': r.random() < .4})
        elif x < .7:
            plans.append({'type': 'legal', 'faults': gen.legal_plan(r), 'warm': r.random() < .3})
        elif x < .8:
            plans.append({'type': 'missing', 'faults': [], 'warm': r.random() < .4})
        elif x < .9:
            plans.append({'type': 'zip', 'faults': [], 'how': r.choice(['flip', 'cut', 'empty', 'other']), 'warm': r.random() < .4})
        else:
            plans.append({'type': 'int', 'faults': gen.sigint_plan(r), 'warm': False})
        plans[-1].update(which=r.randint(0, 2), seed=r.randint(0, 10**6), log=r.random() < .4, check=r.choice(['pk', 'fk', 'fk']), strict=r.random() < .1)
    return {'g': g, 'ops': ops, 'plans': plans, 'big': big}


def rows(r, g, t, n, bad):
    """Rows for t which mostly satisfy the keys, given the other tables."""
    big = n > 100
    out, seen = [], set()
    fk = {c: (f, j) for f in t['fks'] for j, c in enumerate(f['cols'])}
    by = {x['url']: x for x in g['tables']}
    # the referenced keys which are complete
    pools = []
    for f in t['fks']:
        ref = by[f['ref']]
        ci = [col(ref, k) for k in f['refcols']]
        pools.append((ci, [[y[q] for q in ci] for y in (ref['rows'] if ref is not t else []) if all(y[q] is not None for q in ci)]))
    pki = [col(t, k) for k in t['pk']]
    for k in range(n):
        for _ in range(6 if big else 30):
            row, chosen = [None] * len(t['columns']), {}
            for i, c in enumerate(t['columns']):
                if c['name'] == 'v':
                    row[i] = 'v%d' % r.randint(0, 9)
                elif c['name'] not in fk:
                    row[i] = None if r.random() < .06 and not big else val(r, c['datatype'], big)
            for f, (ci, pool) in zip(t['fks'], pools):
                cols = [col(t, x) for x in f['cols']]
                if f['list']:
                    v = [r.choice(pool)[0] for _ in range(r.choice([0, 1, 2, 3]))] if pool else []
                    if r.random() < bad / 3:
                        v.insert(r.randint(0, len(v)), val(r, t['columns'][cols[0]]['datatype'], big))
                    row[cols[0]] = v
                else:
                    v = r.choice(pool) if pool and r.random() < .8 else None
                    for j, i in enumerate(cols):
                        row[i] = v[j] if v else None
                        if v and r.random() < bad / 3:
                            row[i] = val(r, t['columns'][i]['datatype'], big)
            key = repr([canon(t['columns'][i], row[i]) for i in pki])
            if key not in seen or not t['pk'] or r.random() < bad:
                break
        else:
            continue
        seen.add(key)
        out.append(row)
        for f, (ci, pool) in zip(t['fks'], pools):
            if f['ref'] == t['url'] and all(row[q] is not None for q in ci):
                pool.append([row[q] for q in ci])
    return out


def canon(c, x):
    if x is not None and c.get('datatype') == 'decimal':
        return decimal.Decimal(x).normalize() + 0
    return x


def col(t, name):
    return [c['name'] for c in t['columns']].index(name)


def pk_ok(t):
    if not t['pk']:
        return True
    keys = [tuple(canon(t['columns'][col(t, k)], row[col(t, k)]) for k in t['pk']) for row in t['rows']]
    return len(set(keys)) == len(keys)


def fk_ok(g):
    by = {t['url']: t for t in g['tables']}
    for t in g['tables']:
        for f in t['fks']:
            ref = by[f['ref']]
            keys = {tuple(canon(ref['columns'][col(ref, k)], row[col(ref, k)]) for k in f['refcols']) for row in ref['rows']}
            for row in t['rows']:
                vals = [row[col(t, k)] for k in f['cols']]
                if f['list']:
                    if any((canon(t['columns'][col(t, f['cols'][0])], x),) not in keys for x in vals[0] or []):
                        return False
                elif not any(v is None for v in vals):
                    if tuple(canon(t['columns'][col(t, k)], v) for k, v in zip(f['cols'], vals)) not in keys:
                        return False
    return True


def raw(t, d, r):
    """Bytes of the table, with several ways to write the same value."""
    def one(c, x):
        s = model.render1(c, x)
        y = r.random()
        if c.get('datatype') == 'integer' and y < .2:
            s = ('-' if x < 0 else '') + '0' + str(abs(x))
        elif c.get('datatype') == 'decimal' and y < .3:
            s = s + ('0' if '.' in s else '.0')
        elif c.get('datatype') == 'boolean' and y < .3:
            s = '1' if x else '0'
        return s

    def cell(c, x):
        if c.get('separator'):
            return c['separator'].join(one(c, y) for y in x or [])
        return '' if x is None else one(c, x)
    lines = [[cell(c, x) for c, x in zip(t['columns'], row)] for row in t['rows']]
    if lib.has_header(d):
        lines = [[c['name'] for c in t['columns']]] + lines
    return gen.serialise(lines, lib.delimiter(d), lib.quote(d), r.choice(['\n', '\r\n']), quoteall=lib.delimiter(d) == ' ').encode(lib.encoding(d))


def zipped(name, b):
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w', zipfile.ZIP_DEFLATED) as z:
        z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), b)
    return f.getvalue()


def damaged(path, name, intact):
    try:
        with zipfile.ZipFile(str(path)) as z, zipfile.ZipFile(io.BytesIO(intact)) as z0:
            return z.read(name) != z0.read(name)
    except Exception:
        return True


def verdict(fn):
    try:
        return bool(fn())
    except (ValueError, KeyError):
        return False


class Log:
    def __getattr__(self, name):
        return lambda *a, **k: None


def execute(s, w):
    g, d = copy.deepcopy(s['g']), s['g']['dialect']
    md = lib.put_md(w, g)
    (w.data / 'sub').mkdir(exist_ok=True)
    tables = g['tables']
    plain_dialect = not d

    def put(t, zip_=False, seed=0, keep_stat=False):
        p = w.data / t['url']
        st = os.stat(p) if p.exists() else None
        b = raw(t, d, random.Random(seed))
        z = p.with_name(p.name + '.zip')
        if zip_:
            z.write_bytes(zipped(p.name, b))
            if p.exists():
                p.unlink()
        else:
            p.write_bytes(b)
            if z.exists():
                z.unlink()
            if keep_stat and st:
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
    for t in tables:
        put(t)
    saved = w.save()

    def apply(op, tg, t):
        """One step of the history on the disk and in the model (runs in the simulated process)."""
        from csvw.dsv import add_rows, filter_rows_as_dict
        r = random.Random(op['seed'])
        kind = op['op']
        p = w.data / t['url']
        if kind in ('add', 'filter') and (not plain_dialect or not p.exists()):
            kind = 'raw'
        if kind == 'none':
            return
        if kind == 'add':
            new = rows(r, g, t, op['n'], op['bad'])
            tmp = dict(t, rows=new)
            lines = gen.parse(raw(tmp, dict(d, header=False), r).decode('utf-8'))
            add_rows(str(p), *lines)
            t['rows'].extend(new)
        elif kind == 'filter':
            drop = {'v%d' % r.randint(0, 9) for _ in range(4)}
            filter_rows_as_dict(str(p), lambda row: row['v'] not in drop)
            t['rows'] = [row for row in t['rows'] if row[col(t, 'v')] not in drop]
        elif kind == 'swap':
            # the same bytes in another order, with the time stamp of the old file
            if len(t['rows']) > 1:
                i, j = r.sample(range(len(t['rows'])), 2)
                ci = r.randrange(len(t['columns']))
                t['rows'][i] = list(t['rows'][i])
                t['rows'][i][ci] = t['rows'][j][ci]
            put(t, seed=op['seed'], keep_stat=True)
        else:
            t['rows'] = rows(r, g, t, op['n'] + len(t['rows']) * r.choice([0, 1]) if not s['big'] else 400, op['bad'])
            if kind == 'write':
                z = p.with_name(p.name + '.zip')
                zip_ = r.random() < .3
                tg.tabledict[t['url']].write(lib.items(t), _zipped=zip_)
                if not zip_ and z.exists():
                    z.unlink()
            elif kind == 'group':
                tg.write(md, **{x['url']: lib.items(x) for x in tables})
                for x in tables:
                    z = w.data / (x['url'] + '.zip')
                    if z.exists():
                        z.unlink()
            else:
                put(t, zip_=kind == 'zip', seed=op['seed'], keep_stat=kind == 'same')

    def check(tg, kind, t, log=False, strict=False):
        kw = {'log': Log()} if log else {}
        if kind == 'pk':
            return verdict(lambda: tg.tabledict[t['url']].check_primary_key(**kw))
        return verdict(lambda: tg.check_referential_integrity(strict=strict, **kw))

    def history():
        from csvw import TableGroup
        long = TableGroup.from_file(md)
        res = []

        def checks(op):
            for who in {'long': [long], 'fresh': [TableGroup.from_file(md)], 'both': [long, TableGroup.from_file(md)]}[op['check']]:
                for t in tables:
                    res.append(('pk', t['url'], check(who, 'pk', t, op['log']), pk_ok(t)))
                res.append(('fk', '', check(who, 'fk', None, op['log']), fk_ok(g)))
        checks({'check': 'long', 'log': False})
        for op in s['ops']:
            apply(op, long, tables[op['which'] % len(tables)])
            checks(op)
        return res
    o = w.victim(history)
    if not o.ok:
        w.fail('error', 'the history failed: %r\n%s' % (o, o.tb))
    per = len(tables) + 1
    for k, (kind, name, got, want) in enumerate(o.value):
        w.probe('%s_%s' % (kind, want))
        if got != want:
            w.fail('verdict', '%s check %s reports %s, but the data stored at that time is %s (check %d, history %s)' % (
                {'pk': 'primary key', 'fk': 'referential integrity'}[kind], name, got, 'valid' if want else 'invalid', k,
                [x['op'] for x in s['ops'][:k // per + 1]]))
    w.nontrivial += len(s['ops'])
    w.record([x[2] for x in o.value])

    # checks under faults, on the initial data
    involved = [t for t in tables if t['fks'] or any(f['ref'] == t['url'] for x in tables for f in x['fks'])]
    for plan in s['plans']:
        w.restore(saved)
        pool = [t for t in tables if t['pk']] if plan['check'] == 'pk' else involved
        if not pool:
            w.probe('no_key')
            continue
        t = pool[plan['which'] % len(pool)]
        want = pk_ok(orig(s, t)) if plan['check'] == 'pk' else fk_ok(s['g'])
        r = random.Random(plan['seed'])
        kind = plan['type']
        if kind == 'zip':
            put(orig(s, t), zip_=True)
            intact = (w.data / (t['url'] + '.zip')).read_bytes()

        def spoil():
            p = w.data / t['url']
            z = p.with_name(p.name + '.zip')
            if kind == 'missing':
                p.unlink()
            elif kind == 'zip':
                b = bytearray(z.read_bytes())
                if plan['how'] == 'flip':
                    # (bits which do not change the content are not damage)
                    k = 30 + len(p.name.encode()) + 1 + random.Random(plan['seed']).randint(0, 5)
                    b[k] ^= 0xff
                elif plan['how'] == 'cut':
                    del b[int(len(b) * random.Random(plan['seed']).random() * .95):]
                elif plan['how'] == 'empty':
                    b = bytearray()
                else:
                    b = bytearray(zipped('other.csv', b'x'))
                z.write_bytes(bytes(b))

        def run(spoilt=True):
            def f():
                from csvw import TableGroup
                tg = TableGroup.from_file(md)
                if plan['warm']:
                    fs = w.fs
                    fs.enable(0)
                    check(tg, plan['check'], t)
                    if spoilt:
                        spoil()
                    fs.enable(1)
                elif spoilt:
                    spoil()
                return check(tg, plan['check'], t, plan['log'], plan['strict'])
            return f
        base = w.victim(run(False))
        if not base.ok or base.value != want and not plan['strict']:
            w.fail('verdict', 'the %s check of %s gives %r, the data is %s' % (plan['check'], t['url'], base, 'valid' if want else 'invalid'))
        if base.value and not want:
            w.fail('verdict', 'the strict %s check succeeds although the data is invalid' % plan['check'])
        faults = place(plan['faults'], base.counts)
        if faults is None:
            w.probe('unplaced')
            continue
        o = w.victim(run(), faults)
        ctx = '%s check of %s (data %s) with %s, outcome %r' % (plan['check'], t['url'], 'valid' if want else 'invalid', {**plan, 'faults': faults}, o)
        w.probe('fault_%s_%s' % (kind, o.value if o.ok else o.status))
        w.record(o.status, o.exc[:1], o.value if o.ok else None)
        if o.status == 'hang':
            w.fail('hang', ctx)
        hit = [path for slot, cls, path, fk, a, b, res in w.fs.log() if fk == 'ERRNO' and path.endswith(('.csv', '.zip'))]
        if kind == 'legal':
            if not o.ok or o.value != base.value:
                w.fail('verdict', 'short reads or EINTR change the verdict: ' + ctx)
        elif o.ok and o.value:
            if not want:
                w.fail('approved', 'invalid data is approved: ' + ctx)
            if kind == 'missing' or kind == 'zip' and damaged(w.data / (t['url'] + '.zip'), (w.data / t['url']).name, intact):
                w.fail('approved', 'the data cannot be read, but the check succeeds: ' + ctx)
            if kind == 'err' and hit and faults[0]['cls'] in ('READ', 'OPENR') and faults[0]['times'] > 1:
                w.fail('approved', 'reading the data fails, but the check succeeds: ' + ctx)
        if kind in ('missing', 'zip'):
            w.nontrivial += 1
        if w.sample is None and o.fired:
            w.sample = {'tables': [model.table_json(x) for x in s['g']['tables']][:2], 'plan': plan, 'placed': faults, 'outcome': repr(o)[:200]}


def orig(s, t):
    return [x for x in s['g']['tables'] if x['url'] == t['url']][0]
