"""C01: what a write has acknowledged is completely there and is read back exactly."""
import csv
import decimal
import io

from sim import gen, lib, model
from sim.world import place, short

RUNS = {'quick': 1200, 'thorough': 30000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: real writes and reads over a simulated system-call layer (seeded short counts, EINTR, errno, full '
             'disk) with a reference model of the rows as oracle')
NOTE = ('Seeded search over inputs and fault placements, not exhaustive. Documented limits of the format are not generated (empty strings '
        'and null markers as values, list items containing the separator, leading or trailing blanks with trim). Trusts the kernel\'s tmpfs, '
        'the shim\'s interception of libc and the reference row model.')
RULE = ('A scenario is a described table group (datatypes, list columns, dialect, encoding, rows) or a plain delimited file, a way to '
        'write it and 5-8 fault plans; every write under a plan and every read back is one simulated execution in its own process. '
        'Non-trivial: a planned fault (errno, full disk, short count, EINTR) fired in the execution.')
COMPONENTS = {'real': ['csvw.metadata', 'csvw.datatypes', 'csvw.dsv', 'csvw.dsv_dialects', 'Python io/csv/zipfile', 'kernel tmpfs'],
              'stub': ['outcome of every file call, clock, getrandom (simfs.c)']}
ASSUMPTIONS = ['write errors which the kernel reports only after close (delayed write-back) are out of reach of any program that does '
               'not fsync, and the library does not promise to']

WRITER_DIALECTS = [
    ({}, None), ({}, None), ({'delimiter': '\t'}, None), ({'delimiter': ';', 'encoding': 'latin-1'}, None), ({'encoding': 'utf-16'}, None),
    ({'quotechar': "'"}, None), ({'lineterminator': '\n'}, None), ({'quoting': csv.QUOTE_ALL}, None), ({'dialect': 'excel-tab'}, None),
    ({'encoding': 'cp1252'}, None), ({'dialect': 'unix'}, None), ({'delimiter': '|', 'quoting': csv.QUOTE_ALL, 'lineterminator': '\n'}, None),
    ({}, {'delimiter': '|'}), ({}, {'delimiter': '\t', 'quoteChar': "'", 'lineTerminators': ['\n']}), ({}, {'encoding': 'latin-1'}),
    ({}, {'encoding': 'utf-16-le', 'delimiter': ';'}), ({}, {'encoding': 'utf-8-sig'}), ({}, {'delimiter': ' '}),
]


def plans(r, n):
    res = []
    for _ in range(n):
        t = r.random()
        if t < .4:
            res.append({'faults': gen.error_plan(r)})
        elif t < .65:
            res.append({'faults': gen.legal_plan(r), 'on': r.choice(['write', 'read'])})
        elif t < .85:
            res.append({'faults': [], 'budget': round(r.random() * .999, 3), 'refill': r.choice([-1, -1, -1, 1, 2])})
        else:
            res.append({'faults': [{'kind': 'ERRNO', 'cls': r.choice(['CLOSE', 'WRITE']), 'arg': r.choice(['EIO', 'ENOSPC', 'EDQUOT']),
                                    'frac': r.choice([0.999, 0.999, 0.5, round(r.random(), 3)])}]})
    return res


def generate(r, i, tier):
    if r.random() < .25:
        kw, dialect = r.choice(WRITER_DIALECTS)
        latin = (dialect or kw).get('encoding') in ('latin-1', 'cp1252')
        n = r.randint(1, 5)
        rows = [['%s%d' % (gen.ident(r, 3), k) for k in range(n)]]
        for _ in range(r.choice([0, 1, 2, 5, 10, 10, 150])):
            rows.append(['v' + gen.text(r, chars='latin' if latin else 'uni', maxlen=25, cr=True) if r.random() < .85 else
                         r.choice(['', ' ', '0', '  x ']) for _ in range(n)])
        alien = r.random() < .15
        if alien:
            # (characters which the encoding may not have: refused or preserved)
            if r.random() < .6:
                dialect, kw = r.choice([({'encoding': 'latin-1'}, {}), ({'encoding': 'ascii'}, {}), (None, {'encoding': 'ascii'}), (None, {'encoding': 'cp1252'})])
            x = r.choice(rows[1:] or rows)
            x[r.randrange(n)] += r.choice(['日', '\u0151', '\U0001f600', '\ud800', 'ä', '€'])
        return {'alien': alien, 'mode': 'writer', 'kw': kw, 'dialect': dialect, 'rows': rows,
                'how': r.choice(['row', 'rows', 'dicts', 'gen']), 'read': r.choice(['plain', 'lineno', 'dict', 'namedtuple', 'iterrows', 'handle']),
                'memory': r.random() < .2 and not alien, 'old': r.random() < .3, 'aspath': r.random() < .5, 'plans': plans(r, r.randint(3, 5))}
    gd = model.dialect(r)
    mode = r.choice(['table', 'table', 'zip', 'mem', 'group', 'group', 'groupzip', 'fname', 'base'])
    nt = r.choice([1, 1, 2, 3]) if mode in ('group', 'groupzip') else 1
    tables = [model.table(r, model.url(r, k, ['t%d.csv', 'table %d.csv', 'sub.dir.%d.csv', 'T%d.csv']), group_dialect=gd, titles=True,
                          nrows=r.choice([100, 400, 400, 1100]) if r.random() < .07 else None,
                          prefix=r.choice(['', '', 'x y ', 'ä'])) for k in range(nt)]
    alien = r.random() < .1 and mode != 'mem'
    if alien:
        alien = False
        gd['encoding'] = r.choice(['latin-1', 'latin-1', 'ascii', 'cp1252'])
        for t in tables:
            for c in range(len(t['columns'])):
                if model.base_of(t['columns'][c].get('datatype')) in ('string', 'any') and not isinstance(t['columns'][c].get('datatype'), dict):
                    for row in t['rows']:
                        if isinstance(row[c], str) and not alien:
                            row[c] += r.choice(['日', '\u0151', '\U0001f600', '\ud800', 'ä', '€']) + r.choice(['', 'x'])
                            alien = True
        if not alien:
            gd.pop('encoding')
    return {'alien': alien, 'floats': r.random() < .25, 'mode': mode, 'g': {'dialect': gd, 'tables': tables}, 'form': r.choice(['dict', 'dict', 'list', 'tuple', 'shuffled', 'sparse', 'mixed']),
            'gen': r.random() < .3, 'old': r.random() < .35, 'shuffle': r.randint(0, 10**6), 'strict': r.random() < .3, 'again': r.random() < .3,
            'plans': plans(r, r.randint(5, 8))}


def execute(s, w):
    if s['mode'] == 'writer':
        return execute_writer(s, w)
    from csvw import TableGroup
    g = s['g']
    mode = s['mode']
    md = lib.put_md(w, g)
    want = lib.expected_group(g)
    zipped = mode in ('zip', 'groupzip')
    if mode == 'base':
        (w.data / 'base').mkdir()
    where = w.data / 'base' if mode == 'base' else w.data
    if s['old']:
        for t in g['tables']:
            (where / t['url']).write_bytes(b'old,content\r\n' * 3000)
            if zipped:
                (where / (t['url'] + '.zip')).write_bytes(b'not a zip archive' * 100)
    saved = w.save()

    def rows(t):
        res = lib.items(t, s['form'], s['shuffle'])
        if s.get('floats'):
            # floating point numbers are welcome in columns of decimals
            plain = [model.header(c, k) for k, c in enumerate(t['columns']) if c.get('datatype') == 'decimal']
            for n, x in enumerate(res):
                if isinstance(x, dict):
                    for k in plain:
                        x[k] = floats(x[k]) if k in x else None
                else:
                    res[n] = type(x)(floats(v) if c.get('datatype') == 'decimal' else v for c, v in zip(t['columns'], x))
        return (x for x in res) if s['gen'] else res

    def write():
        tg = TableGroup.from_file(md)
        td = {t.local_name: t for t in tg.tables}
        if mode in ('group', 'groupzip'):
            tg.write(md, strict=s['strict'], _zipped=zipped, **{t['url']: rows(t) for t in g['tables']})
            return [len(t['rows']) for t in g['tables']]
        res = []
        for t in g['tables']:
            tab = td[t['url']]
            kw = {'strict': True} if s['strict'] else {}
            if mode == 'fname':
                kw['fname'] = w.data / t['url']
            if mode == 'base':
                kw['base'] = str(where)
            res.append(tab.write(rows(t), fname=None) if mode == 'mem' else tab.write(rows(t), _zipped=zipped, **kw))
        return res

    def read():
        if mode == 'base':
            tg = TableGroup.from_file(md)
            return lib.norm({t.local_name: [model.canon_row(x) for x in t.iterdicts(fname=where / t.local_name)] for t in tg.tables})
        if s['again']:
            # twice over the same objects, one after the other
            tg = TableGroup.from_file(md)
            a, b = [lib.norm({k: [model.canon_row(x) for x in v] for k, v in tg.read().items()}) for _ in range(2)]
            assert a == b, 'reading twice gives different rows'
            return b
        return lib.read_group(md)

    def store(value):
        if mode == 'mem':
            for t, b in zip(g['tables'], value):
                (w.data / t['url']).write_bytes(b.decode('utf-8').encode(lib.encoding(model.effective(g, t))))

    def readback(ctx, **kw):
        o = w.victim(read, **kw)
        if not o.ok:
            w.fail('unreadable', '%s returned normally, but the data cannot be read: %r\n%s' % (ctx, o, o.tb))
        if o.value != want:
            w.fail('altered', '%s returned normally, but reading gives other rows (read != written): %s' % (
                ctx, lib.first_diff(o.value, want)))
        return o

    base = w.victim(write)
    if s.get('alien') and base.status == 'exc':
        w.probe('refused')
        return
    if not base.ok:
        w.fail('error', 'writing representable data failed without any fault: %r\n%s' % (base, base.tb))
    if mode != 'mem' and base.value != [len(t['rows']) for t in g['tables']]:
        w.fail('count', 'reported row counts %r, rows written %r' % (base.value, [len(t['rows']) for t in g['tables']]))
    store(base.value)
    rbase = readback('write')
    tree = w.tree(where)
    done = w.save('done')
    if not zipped:
        for t in g['tables']:
            d = model.effective(g, t)
            text = (where / t['url']).read_bytes().decode(lib.encoding(d))
            got = gen.parse(text, lib.delimiter(d), lib.quote(d))
            head = [model.header(c, k) for k, c in enumerate(t['columns'])]
            if lib.has_header(d):
                if not got or got[0] != head:
                    w.fail('header', 'header written for %s is %r, expected %r' % (t['url'], got[:1], head))
                got = got[1:]
            if len(got) != len(t['rows']) or any(len(x) != len(head) for x in got):
                w.fail('shape', '%d records in the file, %d rows written' % (len(got), len(t['rows'])))
            for x, y in zip(got, t['rows']):
                for c, a, b in zip(t['columns'], x, y):
                    if isinstance(b, str) and model.base_of(c.get('datatype')) == 'string' and a != b:
                        w.fail('altered', 'cell %r is stored as %r' % (b, a))
    for plan in s['plans']:
        if plan.get('on') == 'read':
            # the complete files of the fault-free write, read through an uncooperative kernel
            faults = place(plan['faults'], rbase.counts)
            if faults is not None:
                w.restore(done)
                readback('write', faults=faults)
            continue
        w.restore(saved)
        faults = place(plan['faults'], base.counts)
        if faults is None:
            w.probe('unplaced')
            continue
        opts = {}
        if 'budget' in plan:
            opts = dict(budget=int(plan['budget'] * max(1, sum(len(b) for b in tree.values()))), refill=plan['refill'])
        o = w.victim(write, faults, **opts)
        w.probe('outcome_' + o.status)
        ctx = 'write under plan %s' % {**plan, 'faults': faults}
        if o.status == 'hang':
            w.fail('hang', ctx + ' does not return')
        if o.ok:
            if mode != 'mem' and o.value != base.value:
                w.fail('count', ctx + ' reported %r rows' % o.value)
            store(o.value)
            readback(ctx + ' (fired %s)' % o.fired)
        elif faults and gen.is_legal(faults):
            w.fail('legal', ctx + ' failed although only short counts or EINTR happened: %r' % o)
        elif not o.fired:
            w.fail('error', ctx + ' failed although no fault fired: %r\n%s' % (o, o.tb))
        if w.sample is None and o.fired:
            w.sample = {'mode': mode, 'table': model.table_json(g['tables'][0]), 'plan': plan, 'placed': faults, 'outcome': repr(o)[:200]}
        w.record(o.status, o.exc[:1])


def floats(v):
    """Floats instead of decimals where they stand for the same number."""
    if isinstance(v, list):
        return [floats(x) for x in v]
    if isinstance(v, decimal.Decimal) and v.is_finite() and decimal.Decimal(repr(float(v))) == v:
        return float(v)
    return v


def execute_writer(s, w):
    import csvw
    from csvw import dsv
    path = w.data / 'data.csv'
    if s['old']:
        path.write_bytes(b'old content\n' * 5000)
    saved = w.save()
    want = [list(x) for x in s['rows']]
    f = path if s['aspath'] else str(path)

    def kwargs():
        kw = dict(s['kw'])
        if s['dialect'] is not None:
            kw['dialect'] = csvw.Dialect(**s['dialect'])
        return kw

    def write():
        with csvw.UnicodeWriter(None if s['memory'] else f, **kwargs()) as writer:
            if s['how'] == 'row':
                for row in s['rows']:
                    writer.writerow(row)
            elif s['how'] == 'rows':
                writer.writerows(s['rows'])
            elif s['how'] == 'gen':
                writer.writerows(tuple(x) for x in s['rows'])
            else:
                if len(s['rows']) == 1:
                    writer.writerow(s['rows'][0])
                writer.writerows(dict(zip(s['rows'][0], x)) for x in s['rows'][1:])
            return writer.read() if s['memory'] else None

    def read():
        kw = kwargs()
        how = s['read']
        if how == 'plain':
            with dsv.UnicodeReader(f, **kw) as reader:
                return list(reader)
        if how == 'iterrows':
            enc = kw.pop('encoding', 'utf-8')
            return list(dsv.iterrows(f, encoding=enc, **kw))
        if how == 'lineno':
            with dsv.UnicodeReaderWithLineNumber(f, **kw) as reader:
                return [row for _, row in reader]
        if how == 'handle':
            enc = (s['dialect'] or s['kw']).get('encoding', 'utf-8')
            with io.open(str(path), 'rt', encoding=enc, newline='') as fp, dsv.UnicodeReader(fp, **kw) as reader:
                return list(reader)
        if how == 'dict':
            with dsv.UnicodeDictReader(f, **kw) as reader:
                return [list(reader.fieldnames)] + [list(d.values()) for d in reader]
        with dsv.NamedTupleReader(f, **kw) as reader:
            return [list(reader.fieldnames)] + [list(d) for d in reader]

    def store(value):
        if s['memory']:
            path.write_bytes(value.decode('utf-8').encode((s['dialect'] or s['kw']).get('encoding', 'utf-8')))

    def readback(ctx, **kw):
        o = w.victim(read, **kw)
        if not o.ok:
            w.fail('unreadable', '%s returned normally, but reading fails: %r\n%s' % (ctx, o, o.tb))
        got = [list(x) for x in o.value]
        if s['read'] == 'handle' and got and got[0]:
            got[0][0] = got[0][0].lstrip('\ufeff')
        if got != want:
            w.fail('altered', '%s returned normally, but reading gives other rows (read != written): %s' % (ctx, lib.first_diff(got, want)))
        return o

    base = w.victim(write)
    if s.get('alien') and base.status == 'exc':
        w.probe('refused')
        return
    if not base.ok:
        w.fail('error', 'UnicodeWriter failed without any fault: %r\n%s' % (base, base.tb))
    store(base.value)
    rbase = readback('UnicodeWriter')
    size = path.stat().st_size
    done = w.save('done')
    for plan in s['plans']:
        if plan.get('on') == 'read':
            faults = place(plan['faults'], rbase.counts)
            if faults is not None:
                w.restore(done)
                readback('UnicodeWriter', faults=faults)
            continue
        w.restore(saved)
        faults = place(plan['faults'], base.counts)
        if faults is None:
            continue
        opts = {}
        if 'budget' in plan:
            opts = dict(budget=int(plan['budget'] * max(1, size)), refill=plan['refill'])
        o = w.victim(write, faults, **opts)
        w.probe('writer_' + o.status)
        ctx = 'UnicodeWriter under plan %s' % {**plan, 'faults': faults}
        if o.status == 'hang':
            w.fail('hang', ctx + ' does not return')
        if o.ok:
            store(o.value)
            readback(ctx + ' (fired %s)' % o.fired)
        elif faults and gen.is_legal(faults):
            w.fail('legal', ctx + ' failed although only short counts or EINTR happened: %r' % o)
        elif not o.fired:
            w.fail('error', ctx + ' failed although no fault fired: %r\n%s' % (o, o.tb))
        w.record(o.status, o.exc[:1])
