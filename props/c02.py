"""C02: reads never pass off partial or damaged data as complete."""
import json
import random
import zipfile

from sim import gen, lib, model, net
from sim.world import place, short

RUNS = {'quick': 600, 'thorough': 20000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: real reads from a simulated disk (seeded errno at a read), from damaged archives and over simulated '
             'TCP/HTTP (refused, reset, truncated, error status); oracle: the known rows')
NOTE = ('Seeded search over data, sources and fault positions. Files that were already truncated when stored (other than within a character), and HTTP bodies without declared '
        'length which are cut off, cannot be told from complete ones and are not injected.')
RULE = ('A scenario is a described table (or plain delimited file or metadata document), a source and 8-14 fault plans, each one simulated '
        'execution of a read in its own process. Non-trivial: a planned fault fired (errno, corrupted or truncated archive, a file stored with an incomplete or invalid character, connection '
        'failure, truncated transfer, error status, short read, EINTR).')
COMPONENTS = {'real': ['csvw.metadata', 'csvw.dsv', 'requests/urllib3/http.client', 'Python io/csv/zipfile', 'kernel tmpfs'],
              'stub': ['outcome of file calls, clock (simfs.c)', 'TCP and the HTTP server (sim/net.py)']}
ASSUMPTIONS = ['the checksum of an archive member can only be verified at its end: rows yielded before a damaged archive is reported are '
               'not constrained']

HOST = 'http://data.example.org'


def spoil(data, plan, enc):
    """The data as stored with an incomplete character at the end, or with bytes which do not belong to the encoding."""
    enc = enc.lower().replace('_', '-')
    if enc in ('utf-8', 'utf8', 'utf-8-sig'):
        if plan['stored'] == 'bad':
            k = int(plan['at'] * len(data))
            return data[:k] + b'\xff' + data[k:]
        leads = [k for k, b in enumerate(data) if b >= 0xc2 and k > 2]
        if leads:
            return data[:leads[int(plan['at'] * len(leads))] + 1]
    elif enc.startswith(('utf-16', 'utf16')) and len(data) > 4:
        return data[:2 + 2 * int(plan['at'] * (len(data) // 2 - 1)) + 1]


def generate(r, i, tier):
    src = r.choice(['file', 'file', 'zip', 'zip', 'http', 'http', 'http', 'reader', 'metadata'])
    gd = model.dialect(r)
    big = r.random() < .3
    t = model.table(r, 't.csv', group_dialect=gd, kinds=model.RAW, ncols=r.randint(1, 4), own_dialect=0,
                    nrows=r.randint(200, 900) if big else r.choice([0, 1, 2, 5, 20, 60]))
    plans = []
    for _ in range(r.randint(8, 14)):
        x = r.random()
        if src != 'metadata' and r.random() < .12:
            plans.append({'stored': r.choice(['cut', 'cut', 'bad']), 'at': round(r.random(), 5)})
        elif src == 'http':
            plans.append({'net': [net.fault(r, 2)], 'delivery': net.delivery(r)})
        elif src == 'zip' and x < .6:
            plans.append({'damage': r.choice(['flip', 'flip', 'truncate', 'zero', 'swap', 'append']), 'at': round(r.random(), 5), 'bit': r.randint(0, 7)})
        elif x < .85:
            plans.append({'faults': [{'kind': 'ERRNO', 'cls': r.choice(['READ', 'READ', 'READ', 'OPENR', 'STAT', 'CLOSE']),
                                      'arg': r.choice(['EIO', 'EIO', 'ESTALE', 'EACCES', 'ENOMEM', 'EMFILE']), 'frac': round(r.random() * .999, 4),
                                      'times': r.choice([1, 1, 2, 1000])}]})
        else:
            plans.append({'faults': gen.legal_plan(r)})
    readers = ['plain', 'lineno', 'iterrows', 'handle'] + (['dict', 'namedtuple'] if lib.has_header(gd) else [])
    return {'src': src, 'g': {'dialect': gd, 'tables': [t], 'props': {'dc:title': gen.cell(r), 'dc:x': {'@value': gen.cell(r)}}}, 'plans': plans,
            'method': r.choice(['deflated', 'deflated', 'stored', 'bzip2', 'lzma']), 'meta': r.random() < .5, 'log': r.random() < .2, 'lax': r.random() < .2,
            'how': r.choice(['from_url', 'absolute', 'CSVW', 'read', 'schema']), 'reader': r.choice(readers)}


def execute(s, w):
    g = s['g']
    t = g['tables'][0]
    d = g['dialect']
    data = lib.raw(t, d)
    want = lib.norm(model.expected_rows(t))
    md = lib.put_md(w, g)
    src = s['src']
    if src == 'metadata':
        return metadata(s, w, md)
    def store(data):
        method = {'stored': zipfile.ZIP_STORED, 'deflated': zipfile.ZIP_DEFLATED, 'bzip2': zipfile.ZIP_BZIP2, 'lzma': zipfile.ZIP_LZMA}[s['method']]
        if src == 'zip':
            with zipfile.ZipFile(str(w.data / 't.csv.zip'), 'w', compression=method) as z:
                z.writestr(zipfile.ZipInfo('t.csv', (2020, 1, 1, 0, 0, 0)), data, compress_type=method)
        elif src != 'http':
            (w.data / 't.csv').write_bytes(data)
    store(data)
    saved = w.save()

    def rows(it, f=model.canon_row):
        res = []
        try:
            for row in it():
                res.append(f(row))
        except Exception as e:
            return {'rows': lib.norm(res), 'exc': '%s: %s' % (type(e).__name__, e)}
        return {'rows': lib.norm(res), 'exc': None}

    class Log:
        def __getattr__(self, name):
            return lambda *a, **kw: None

    def table(tg):
        tab = tg.tables[0]
        kw = {}
        if s['log']:
            kw['log'] = Log()
        if s['lax']:
            kw['strict'] = False
        if s['meta']:
            return rows(lambda: (x for _, _, x in tab.iterdicts(with_metadata=True, **kw)))
        return rows(lambda: tab.iterdicts(**kw))

    if src == 'reader':
        import csvw
        from csvw import dsv

        def read():
            kw = {'dialect': csvw.Dialect(**d)}
            path = w.data / 't.csv'
            how = s['reader']

            def it():
                if how == 'iterrows':
                    yield from dsv.iterrows(path, **kw)
                elif how == 'handle':
                    enc = lib.encoding(d)
                    with open(str(path), encoding='utf-8-sig' if enc == 'utf-8' else enc, newline='') as fp:
                        with dsv.UnicodeReader(fp, **kw) as reader:
                            yield from reader
                else:
                    with {'plain': dsv.UnicodeReader, 'lineno': dsv.UnicodeReaderWithLineNumber, 'dict': dsv.UnicodeDictReader,
                          'namedtuple': dsv.NamedTupleReader}[how](path, **kw) as reader:
                        yield from reader
            return rows(it, lambda x: list(x.items()) if isinstance(x, dict) else list(x))
    elif src == 'http':
        read = None
    else:
        def read():
            from csvw import TableGroup
            tg = TableGroup.from_file(md)
            if s['how'] == 'read':
                return rows(lambda: tg.read()['t.csv'])
            return table(tg)

    def check(o, ctx, prefix=True):
        if o.status == 'hang':
            w.fail('hang', ctx + ' does not end')
        if not o.ok:
            w.probe('raised')
            return False
        v = o.value
        if v['exc'] is None:
            w.probe('complete')
            if v['rows'] != want:
                w.fail('nofault' if ctx == 'without any fault' else 'incomplete', '%s: the iteration ended normally with %d of %d rows: %s' % (
                    ctx, len(v['rows']), len(want), lib.first_diff(v['rows'], want)))
            return True
        w.probe('failed_in_iteration')
        if prefix and v['rows'] != want[:len(v['rows'])]:
            w.fail('made-up', '%s: rows before the failure (%s) are not the real ones: %s' % (
                ctx, v['exc'], lib.first_diff(v['rows'], want[:len(v['rows'])])))
        return False

    if src == 'http':
        return http(s, w, data, want, check, table, rows)
    base = w.victim(read)
    if src == 'reader':
        if not base.ok or base.value['exc']:
            w.fail('error', 'reading failed without any fault: %r' % base)
        want = base.value['rows']
        if len(want) != len(t['rows']) + (s['reader'] not in ('dict', 'namedtuple') and lib.has_header(d)):
            w.fail('incomplete', 'without any fault %d rows were read from a file with %d' % (len(want), len(t['rows'])))
    elif not check(base, 'without any fault'):
        w.fail('error', 'reading failed without any fault: %r %s' % (base, base.tb))
    for plan in s['plans']:
        w.restore(saved)
        if 'stored' in plan:
            b = spoil(data, plan, lib.encoding(d))
            if b is None:
                w.probe('unplaced')
                continue
            store(b)
            o = w.victim(read)
            w.nontrivial += 1
            w.fired['STORED_' + plan['stored'].upper()] += 1
            check(o, 'stored with bytes which are no characters (%s)' % plan)
            w.record(plan, o.status)
            continue
        if 'damage' in plan:
            p = w.data / 't.csv.zip'
            b = bytearray(p.read_bytes())
            k = min(len(b) - 1, int(plan['at'] * len(b)))
            if plan['damage'] == 'flip':
                b[k] ^= 1 << plan['bit']
            elif plan['damage'] == 'truncate':
                b = b[:k]
            elif plan['damage'] == 'zero':
                b[k:k + 50] = bytes(len(b[k:k + 50]))
            elif plan['damage'] == 'swap':
                b = b[:k] + b[k + 1:]
            else:
                b = b[:k] + b'\0' * 10 + b[k:]
            p.write_bytes(bytes(b))
            o = w.victim(read)
            w.nontrivial += 1
            w.fired['ARCHIVE_' + plan['damage'].upper()] += 1
            check(o, 'archive damaged by %s' % plan, prefix=False)
            w.record(plan, o.status)
            continue
        faults = place(plan['faults'], base.counts)
        if faults is None:
            w.probe('unplaced')
            continue
        o = w.victim(read, faults)
        ok = check(o, '%s under %s' % (src, faults))
        if not ok and gen.is_legal(faults):
            w.fail('legal', 'reading failed although only short reads or EINTR happened (%s): %r %s' % (faults, o, o.value))
        if w.sample is None and o.fired and not gen.is_legal(faults):
            w.sample = {'source': src, 'plan': plan, 'placed': faults, 'outcome': short(o.value or repr(o), 150)}


def http(s, w, data, want, check, table, rows):
    doc = model.group_json(s['g'])
    url, mdurl = HOST + '/x/t.csv', HOST + '/x/md.json'
    how = s['how']
    routes = {url: data}
    if how == 'schema':
        routes[HOST + '/x/schema.json'] = json.dumps(doc['tables'][0]['tableSchema']).encode('utf8')
        doc['tables'][0]['tableSchema'] = 'schema.json'
    if how == 'absolute':
        doc['tables'][0]['url'] = url
        (w.data / 'remote.json').write_text(json.dumps(doc), encoding='utf-8')
    else:
        routes[mdurl] = json.dumps(doc).encode('utf8')

    def read():
        from csvw import TableGroup, CSVW
        if how == 'absolute':
            return table(TableGroup.from_file(w.data / 'remote.json'))
        if how == 'CSVW' and not any(c.get('name', '').startswith('_') for c in s['g']['tables'][0]['columns']):
            return table(CSVW(mdurl))
        if how == 'read':
            tg = TableGroup.from_url(mdurl)
            return rows(lambda: tg.read()['t.csv'])
        return table(TableGroup.from_url(mdurl))

    def network(plan):
        dl = plan['delivery']
        f = [dict(x) for x in plan['net']]
        for x in f:
            x['req'] = 1 + (x['req'] - 1) % nreq
        return net.Net({k: net.resp(v, framing=dl['framing'], encoding=dl['encoding'],
                                    ctype='text/csv' if k == url else 'application/json') for k, v in routes.items()}, f, dl['seed'], dl['pieces'])

    nreq = 1
    base = w.victim(read, net=network({'delivery': {'framing': 'length', 'encoding': None, 'seed': 1, 'pieces': 'big'}, 'net': []}))
    if not check(base, 'without any fault'):
        w.fail('error', 'reading over HTTP failed without any fault: %r %s' % (base, base.value))
    nreq = len(base.netlog)
    for plan in s['plans']:
        if 'stored' in plan:
            b = spoil(data, plan, lib.encoding(s['g']['dialect']))
            if b is None:
                w.probe('unplaced')
                continue
            routes[url] = b
            o = w.victim(read, net=network({'delivery': {'framing': 'length', 'encoding': None, 'seed': 1, 'pieces': 'big'}, 'net': []}))
            routes[url] = data
            w.nontrivial += 1
            w.fired['STORED_' + plan['stored'].upper()] += 1
            check(o, 'HTTP (%s), stored with bytes which are no characters (%s)' % (how, plan))
            w.record(plan, o.status)
            continue
        if plan['delivery']['framing'] == 'close' and any(f['kind'] == 'trunc' for f in plan['net']):
            plan = dict(plan, delivery=dict(plan['delivery'], framing='length'))
        o = w.victim(read, net=network(plan))
        ok = check(o, 'HTTP (%s) under %s' % (how, plan))
        if not ok and not o.fired:
            w.fail('error', 'reading over HTTP failed although no fault fired: %r %s %s' % (o, o.value, plan))
        if w.sample is None and o.fired:
            w.sample = {'source': 'http', 'plan': plan, 'requests': o.netlog, 'outcome': short(o.value or repr(o), 200)}
        w.record(o.status, o.netlog)


def metadata(s, w, md):
    doc = json.loads(md.read_text(encoding='utf-8'))
    mdurl = HOST + '/md.json'

    def read(remote):
        def f():
            from csvw import TableGroup, CSVW
            src = mdurl if remote else md
            tg = {'from_url': lambda: TableGroup.from_url(src) if remote else TableGroup.from_file(str(src)),
                  'absolute': lambda: TableGroup.from_file(src), 'CSVW': lambda: CSVW(str(src)).t,
                  'read': lambda: CSVW(str(src), md_url=str(src)).tablegroup, 'schema': lambda: TableGroup.from_file(src)}[s['how']]()
            return lib.norm({'d': tg.asdict(omit_defaults=False), 'cols': [c.header for t in tg.tables for c in t.tableSchema.columns]})
        return f

    def network(plan, nreq=1):
        dl = plan['delivery']
        return net.Net({mdurl: net.resp(json.dumps(doc).encode('utf8'), framing=dl['framing'], encoding=dl['encoding'], ctype='application/json')},
                       [dict(x, req=1) for x in plan['net']], dl['seed'], dl['pieces'])
    base = w.victim(read(False))
    rbase = w.victim(read(True), net=network({'delivery': {'framing': 'length', 'encoding': None, 'seed': 1, 'pieces': 'big'}, 'net': []}))
    for o in (base, rbase):
        if not o.ok:
            w.fail('error', 'reading metadata failed without any fault: %r\n%s' % (o, o.tb))
    rng = random.Random(len(json.dumps(doc)))
    for plan in s['plans']:
        if 'faults' in plan:
            faults = place(plan['faults'], base.counts)
            if faults is not None:
                o = w.victim(read(False), faults)
                if o.ok and o.value != base.value:
                    w.fail('incomplete', 'metadata read under %s is another description: %s' % (faults, lib.first_diff(o.value, base.value)))
                if not o.ok and gen.is_legal(faults):
                    w.fail('legal', 'reading metadata failed although only short reads or EINTR happened: %r' % o)
        p = {'net': [net.fault(rng, 1)], 'delivery': net.delivery(rng)}
        if p['delivery']['framing'] == 'close':
            p['delivery']['framing'] = 'chunked'
        o = w.victim(read(True), net=network(p))
        if o.ok and o.value != rbase.value:
            w.fail('incomplete', 'metadata read over HTTP under %s is another description: %s' % (p, lib.first_diff(o.value, rbase.value)))
        if not o.ok and not o.fired:
            w.fail('error', 'reading metadata over HTTP failed although no fault fired: %r' % o)
        w.record(o.status, o.netlog)
