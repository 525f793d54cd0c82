"""C03: the same bytes give the same rows, line numbers and comments from every source."""
import io
import random
import warnings
import zipfile

from sim import gen, lib, model, net
from sim.world import place, short

RUNS = {'quick': 700, 'thorough': 20000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: the same bytes read by the real code from a simulated disk (short reads, EINTR), from an archive and '
             'over simulated TCP/HTTP with seeded delivery; differential oracle')
NOTE = ('Seeded search over byte contents, dialects, archive layouts and deliveries. The oracle is differential (every source must agree with '
        'the local file under an uneventful kernel), plus an independent parser for plain dialects. HTTP is plain http:// (no TLS).')
RULE = ('A scenario is a byte content with a dialect and a description (or a row reader and its options), read from 6-9 sources/deliveries, '
        'each one simulated execution in its own process. Non-trivial: the delivery differs from one complete piece (network pieces, '
        'chunked/compressed/redirected transfer, archive, short reads, EINTR, handle or lines instead of a path).')
COMPONENTS = {'real': ['csvw.metadata', 'csvw.dsv', 'requests/urllib3/http.client', 'Python io/csv/zipfile', 'kernel tmpfs'],
              'stub': ['outcome of file reads, clock (simfs.c)', 'TCP and the HTTP server (sim/net.py)']}
ASSUMPTIONS = ['an HTTP body without declared length which is cut off cannot be told from a complete one; not injected']

HOST = 'http://example.org'


def content(r, d, names):
    """Text lines in the dialect, with everything that may differ between sources."""
    delim, quote = lib.delimiter(d), lib.quote(d)
    chars = 'latin' if d.get('encoding') in ('latin-1', 'cp1252') else 'uni'
    n = len(names)
    rows = []
    for _ in range(d.get('skipRows', 0)):
        rows.append([gen.cell(r, chars, newlines=False)])
    if d.get('header', True):
        head = list(names)
        if r.random() < .15:
            r.shuffle(head)
        if r.random() < .1:
            head.append('extra')
        rows.append(['skip%d' % k for k in range(d.get('skipColumns', 0))] + head)
    for k in range(r.choice([0, 1, 2, 3, 6, 12, 12, r.choice([300, 300, 1100]) if r.random() < .25 else 30])):
        t = r.random()
        if t < .08:
            rows.append([])
        elif t < .16 and d.get('commentPrefix'):
            rows.append([d['commentPrefix'] + gen.text(r, chars=chars, special=0)])
        elif t < .2:
            rows.append([''] * n)
        else:
            row = ['s'] * d.get('skipColumns', 0) + [str(k)] + [gen.cell(r, chars, cr=True, maxlen=r.choice([3, 12, 40])) for _ in range(n - 1)]
            if r.random() < .05:
                row = row[:r.randint(1, len(row))] if r.random() < .5 else row + ['more']
            if r.random() < .08 and len(row) > 1:
                # the same cell of several lines twice
                row[-1] = row[r.randrange(len(row))] = r.choice(['a\nb', 'a\r\nb', 'x\n\ny'])
            if r.random() < .1:
                row[-1] = r.choice([' lead', 'trail ', '\u00a0x', '', ' '])
            rows.append(row)
    term = r.choice(['\r\n', '\r\n', '\n', '\n', '\r', 'mixed'])
    out = []
    for row in rows:
        s = gen.serialise([row], delim, quote, '') if row else ''
        if not d.get('doubleQuote', True):
            s = s.replace(quote * 2, '\\' + quote)
        if r.random() < .01 and chars == 'uni' and out:
            s = '\ufeff' + s
        out.append(s)
        out.append(term if term != 'mixed' else r.choice(['\r\n', '\n', '\r']))
    if out and r.random() < .2:
        out.pop()
    text = ''.join(out)
    if r.random() < .04:
        text += quote + 'unterminated'
    return text


def generate(r, i, tier):
    d = model.dialect(r, plain=.3)
    d.pop('lineTerminators', None)
    if r.random() < .25:
        d['commentPrefix'] = r.choice(['#', '%', '//', 'C'])
    if r.random() < .15:
        d['skipRows'] = r.randint(1, 3)
    if r.random() < .1:
        d['skipColumns'] = 1
    if r.random() < .1:
        d['doubleQuote'] = False
    if r.random() < .2:
        d['skipBlankRows'] = True
    n = r.randint(1, 4)
    names = ['id'] + [r.choice(['n', 'ä', 'col ', 'x,y', 'q"']) + str(k) for k in range(n - 1)]
    if d.get('encoding') in ('latin-1', 'cp1252', None):
        pass
    text = content(r, d, names)
    data = text.encode(lib.encoding(d), 'replace')
    t = r.random()
    if t < .12 and lib.encoding(d) in ('utf-8', 'utf-8-sig'):
        data = (b'' if data.startswith(b'\xef\xbb\xbf') else b'\xef\xbb\xbf') + data
    elif t < .17:
        k = r.randint(0, len(data))
        data = data[:k] + bytes([r.choice([0xff, 0xfe, 0x80, 0xc3, 0])]) + data[k:]
    elif t < .2:
        data = b''
    cols = [{'name': 'id', 'datatype': r.choice(['string', 'string', 'integer'])}] + [
        {'name': x} if r.random() < .7 else {'name': x, 'separator': ';'} for x in names[1:]]
    if r.random() < .1:
        cols.append({'name': 'v', 'virtual': True, 'valueUrl': 'http://example.org/v/{id}'})
    extra = {}
    name = r.choice(['t.csv', 't.csv', 'data file.csv', 'ä.csv', 'archive.csv', 'CSV'])
    if r.random() < .3:
        return {'kind': 'reader', 'data': data.hex(), 'd': d, 'cls': r.choice(['plain', 'lineno', 'dict', 'namedtuple', 'iterrows', 'iterrows-dicts',
                'iterrows-nt']), 'kw': r.random() < .4, 'seed': r.randint(0, 10**6), 'fieldnames': r.random() < .15,
                'plan': gen.legal_plan(r)}
    sources = [{'src': 'file', 'plan': gen.legal_plan(r)}]
    for _ in range(r.randint(1, 2)):
        sources.append({'src': 'zip', 'method': r.choice(['stored', 'deflated', 'deflated', 'bzip2', 'lzma']), 'before': r.random() < .5,
                        'after': r.random() < .4, 'sub': r.random() < .25, 'plan': gen.legal_plan(r) if r.random() < .6 else []})
    for _ in range(r.randint(2, 4)):
        sources.append(dict(net.delivery(r), src='http', redirect=r.choice([0, 0, 0, 1, 2]), code=r.choice([301, 302, 303, 307, 308]),
                            ctype=r.choice([None, 'text/csv', 'text/csv; charset=utf-8', 'text/csv; charset=iso-8859-1', 'text/plain',
                                            'application/octet-stream', 'text/csv; header=absent']),
                            slow=r.random() < .2, how=r.choice(['from_url', 'from_file', 'CSVW', 'absolute'])))
    return {'kind': 'table', 'data': data.hex(), 'd': d, 'name': name, 'columns': cols, 'sources': sources, 'strict': r.random() < .7,
            'own': r.random() < .5, 'pieces': 1}


def execute(s, w):
    if s['kind'] == 'reader':
        return execute_reader(s, w)
    from urllib.parse import quote as q
    data = bytes.fromhex(s['data'])
    t = {'url': s['name'], 'columns': s['columns'], 'rows': []}
    g = {'tables': [t], 'dialect': s['d']}
    if s['own']:
        t['dialect'] = s['d']
        g = {'tables': [t]}
    md = lib.put_md(w, g)
    saved = w.save()

    def rows(tg):
        table = tg.tables[0]
        res, exc = [], None
        try:
            for _, lineno, row in table.iterdicts(with_metadata=True, strict=s['strict']):
                res.append([lineno, model.canon_row(row)])
        except Exception as e:
            exc = type(e).__name__
        return lib.norm({'rows': res, 'exc': exc, 'comments': None if exc else [list(c) for c in table._comments]})

    def local():
        from csvw import TableGroup
        return rows(TableGroup.from_file(md))

    (w.data / s['name']).write_bytes(data)
    base = w.victim(local)
    if not base.ok:
        w.fail('error', 'reading a local file raised outside of the iteration: %r\n%s' % (base, base.tb))
    ref = base.value
    w.probe('ref_' + (ref['exc'] or 'ok'))

    def compare(o, ctx):
        if not o.ok:
            w.fail('differs', '%s: raised %r, reading the local file gives %s\n%s' % (ctx, o, short(ref), o.tb))
        v = o.value
        if (v['exc'] is None) != (ref['exc'] is None):
            w.fail('differs', '%s: %s, but from the local file: %s' % (
                ctx, v['exc'] or 'reads normally', ref['exc'] or 'reads normally'))
        if v['exc'] is not None:
            a, b = sorted([v['rows'], ref['rows']], key=len)
            if b[:len(a)] != a:
                w.fail('differs', '%s: other rows before the error: %s' % (ctx, lib.first_diff(v['rows'], ref['rows'])))
            return
        if v != ref:
            w.fail('differs', '%s: not as from the local file: %s' % (ctx, lib.first_diff(v, ref)))

    twin = other_bom(data, s['d'])
    if twin is not None:
        (w.data / s['name']).write_bytes(twin)
        compare(w.victim(local), 'the same data %s byte-order mark' % ('with a' if len(twin) > len(data) else 'without'))
    for src in s['sources']:
        w.restore(saved)
        if src['src'] == 'file':
            (w.data / s['name']).write_bytes(data)
            faults = place(src['plan'], base.counts)
            if faults is None:
                continue
            compare(w.victim(local, faults), 'local file with short or interrupted reads %s' % faults)
        elif src['src'] == 'zip':
            method = {'stored': zipfile.ZIP_STORED, 'deflated': zipfile.ZIP_DEFLATED, 'bzip2': zipfile.ZIP_BZIP2, 'lzma': zipfile.ZIP_LZMA}[src['method']]
            with zipfile.ZipFile(str(w.data / (s['name'] + '.zip')), 'w', compression=method) as z:
                for when in ('before', 'member', 'after'):
                    if when == 'member':
                        z.writestr(zipfile.ZipInfo(('sub/' if src['sub'] else '') + s['name'], (2020, 1, 1, 0, 0, 0)), data, compress_type=method)
                    elif src[when]:
                        for n in ['a' + s['name'], '__MACOSX/._' + s['name'], s['name'] + '.bak', 'dir/', s['name'].upper() + 'x', 'README.txt']:
                            z.writestr(zipfile.ZipInfo(when + n if when == 'after' else n, (2020, 1, 1, 0, 0, 0)),
                                       b'' if n.endswith('/') else b'id,other\r\nwrong,wrong\r\n')
            zb = w.victim(local)
            w.nontrivial += 1
            compare(zb, 'zip archive %s' % src)
            if src['plan']:
                faults = place(src['plan'], zb.counts)
                if faults is not None:
                    compare(w.victim(local, faults), 'zip archive %s with %s' % (src, faults))
        else:
            http(s, w, src, data, g, compare, rows, q)
        w.record(src, ref['exc'])


def other_bom(data, d):
    """The same text with a byte-order mark, if it has none, and without otherwise."""
    bom = b'\xef\xbb\xbf'
    if lib.encoding(d) not in ('utf-8', 'utf-8-sig') or data.startswith(bom * 2):
        return None
    return data[3:] if data.startswith(bom) else bom + data


def http(s, w, src, data, g, compare, rows, q):
    import json
    url = HOST + '/dir/' + q(s['name'])
    mdurl = HOST + '/dir/md.json'
    answer = net.resp(data, ctype=src['ctype'], framing=src['framing'], encoding=src['encoding'])
    routes = {}
    if src['redirect']:
        cur = url
        for k in range(src['redirect']):
            nxt = HOST + '/moved%d' % k
            routes[cur] = net.resp(b'id,n\r\nwrong,wrong', src['code'], 'text/csv', headers=[('Location', nxt)])
            cur = nxt
        routes[cur] = answer
    else:
        routes[url] = answer
    doc = model.group_json(g)
    if src['how'] in ('from_file', 'absolute'):
        doc['tables'][0]['url'] = url
    routes[mdurl] = net.resp(json.dumps(doc).encode('utf8'), ctype='application/csvm+json')
    n = net.Net(routes, [{'kind': 'slow', 'req': 1, 'times': 99}] if src['slow'] else [], src['seed'], src['pieces'])
    if src['how'] == 'from_file':
        (w.data / 'remote.json').write_text(json.dumps(doc), encoding='utf8')

    def read():
        from csvw import TableGroup, CSVW
        if src['how'] == 'from_file':
            return rows(TableGroup.from_file(w.data / 'remote.json'))
        if src['how'] == 'CSVW' and not any(' ' in c['name'] for c in s['columns']):  # CSVW ignores names with blanks
            return rows(CSVW(mdurl))
        if src['how'] == 'absolute':
            return rows(TableGroup.from_file(mdurl))
        return rows(TableGroup.from_url(mdurl))

    o = w.victim(read, net=n)
    w.nontrivial += 1
    w.probe('http_' + src['framing'])
    compare(o, 'HTTP %s' % src)
    if w.sample is None:
        w.sample = {'content': repr(data)[:200], 'dialect': s['d'], 'source': src, 'requests': o.netlog}


def execute_reader(s, w):
    import csvw
    from csvw import dsv
    data = bytes.fromhex(s['data'])
    d = s['d']
    path = w.data / 'd.csv'
    path.write_bytes(data)
    enc = lib.encoding(d)

    def make(src):
        kw = {}
        if s['kw']:
            kw = {'delimiter': lib.delimiter(d), 'quotechar': lib.quote(d), 'encoding': enc}
        else:
            kw = {'dialect': csvw.Dialect(**d)}
        cls = s['cls']
        if s['fieldnames'] and cls in ('dict', 'namedtuple'):
            kw['fieldnames'] = ['f%d' % k for k in range(6)]
        if cls.startswith('iterrows'):
            if not s['kw']:
                kw['encoding'] = enc
            return dsv.iterrows(src, dicts=cls == 'iterrows-dicts', namedtuples=cls == 'iterrows-nt', **kw)
        c = {'plain': dsv.UnicodeReader, 'lineno': dsv.UnicodeReaderWithLineNumber, 'dict': dsv.UnicodeDictReader,
             'namedtuple': dsv.NamedTupleReader}[cls](src, **kw)
        return c

    def collect(it):
        res = []
        for row in it:
            if isinstance(row, dict):
                res.append([[str(k), v] for k, v in row.items()])
            elif hasattr(row, '_fields'):
                res.append([[k, v] for k, v in zip(row._fields, row)])
            else:
                res.append(row)
        return res

    def sig_enc():
        return 'utf-8-sig' if enc == 'utf-8' else enc

    def lines():
        text = data.decode(sig_enc())
        out, cur = [], io.StringIO(text, newline='')
        for line in cur:
            out.append(line)
        return out

    def read(how):
        try:
            src = {'path': lambda: path, 'str': lambda: str(path), 'rel': lambda: 'd.csv',
                   'handle': lambda: io.open(str(path), encoding=sig_enc(), newline=''),
                   'stringio': lambda: io.StringIO(data.decode(sig_enc()), newline=''), 'lines': lines,
                   'tuple': lambda: tuple(lines()), 'generator': lambda: (x for x in lines()),
                   'bytes': lambda: [x.encode(enc) for x in lines()]}[how]()
            r = make(src)
            if hasattr(r, '__enter__') and not s['cls'].startswith('iterrows'):
                with r:
                    res = collect(r)
                    comments = [list(c) for c in r.comments]
            else:
                res, comments = collect(r), None
            return lib.norm({'rows': res, 'comments': comments})
        except Exception as e:
            return {'exc': type(e).__name__}

    base = w.victim(lambda: read('path'))
    if not base.ok:
        w.fail('error', repr(base))
    ref = base.value
    w.probe('reader_ref_' + ref.get('exc', 'ok'))
    twin = other_bom(data, d)
    if twin is not None:
        path.write_bytes(twin)
        o = w.victim(lambda: read('path'))
        if o.value != ref:
            w.fail('differs', 'the same data %s byte-order mark: %s' % (
                'with a' if len(twin) > len(data) else 'without', lib.first_diff(o.value, ref) if o.ok else repr(o)))
        path.write_bytes(data)
    hows = ['str', 'rel', 'handle', 'stringio', 'lines', 'tuple', 'generator']
    if enc in ('utf-8', 'latin-1', 'cp1252'):
        hows.append('bytes')
    rng = random.Random(s['seed'])
    rng.shuffle(hows)
    for how in hows[:5]:
        o = w.victim(lambda: read(how))
        w.nontrivial += how not in ('str', 'rel')
        v = o.value
        if not o.ok or ('exc' in v) != ('exc' in ref) or ('exc' not in v and v != ref):
            w.fail('differs', '%s from %s gives %s, from a path %s: %s' % (
                s['cls'], how, short(v, 200), short(ref, 200), lib.first_diff(v, ref) if o.ok else repr(o)))
    faults = place(s['plan'], base.counts)
    if faults is not None:
        o = w.victim(lambda: read('path'), faults)
        if not o.ok or o.value != ref:
            w.fail('differs', '%s with short or interrupted reads %s: %s' % (s['cls'], faults, lib.first_diff(o.value, ref)))
    # plain dialects: against an independent parser
    if 'exc' not in ref and (s['kw'] or not set(d) - {'delimiter', 'quoteChar', 'encoding', 'header'}):
        text = data.decode(sig_enc())
        try:
            want = gen.parse(text, lib.delimiter(d), lib.quote(d))
        except ValueError:
            return
        got = ref['rows']
        if s['cls'] == 'lineno':
            if '\r' not in text.replace('\r\n', ''):
                line = 0
                for k, row in enumerate(want):
                    line += 1 + sum(c.count('\n') for c in row)
                    want[k] = [line, row]
            else:
                got = [x[1] for x in got]
        elif s['cls'] not in ('plain', 'iterrows'):
            if s['fieldnames'] and s['cls'] in ('dict', 'namedtuple'):
                head = ['f%d' % k for k in range(6)]
            elif not want or not want[0]:
                return
            else:
                head = want.pop(0)
            if len(set(head)) < len(head):
                return
            # rows of other lengths are not of interest here
            pairs = [(g, x) for g, x in zip(got, [x for x in want if x]) if len(x) == len(head)]
            if len(got) != len([x for x in want if x]):
                w.fail('wrong', '%d rows, an independent parser finds %d' % (len(got), len([x for x in want if x])))
            nt = s['cls'] in ('namedtuple', 'iterrows-nt')
            got = [[v for _, v in g] if nt else g for g, _ in pairs]
            want = [x if nt else [[k, v] for k, v in zip(head, x)] for _, x in pairs]
        if got != lib.norm(want):
            w.fail('wrong', 'rows differ from those of an independent parser: %s' % lib.first_diff(got, want))
