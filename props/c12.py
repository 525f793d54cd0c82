"""C12: metadata discovery follows the prescribed precedence."""
import json
import pathlib
import random
import warnings
from urllib.parse import urljoin

from sim import gen, lib, net
from sim.world import place

RUNS = {'quick': 900, 'thorough': 40000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: the real discovery code and HTTP stack against a simulated server with seeded sets of candidate documents, '
             'redirects, deliveries and faults, and against a simulated disk; oracle: an executable model of the precedence')
NOTE = ('Seeded search over server contents, histories of lookups in one process, deliveries and faults. A linked document which cannot be retrieved or '
        'parsed may raise or be skipped. header=absent is only combined with the absence of metadata. Candidates answered with an error status count as missing.')
RULE = ('A scenario is a server with 1-3 data files and seeded candidates (Link headers, site-wide locations, default locations; matching, foreign, '
        'malformed, missing), a history of 1-4 lookups with changes in between, and 4-7 lookups under network faults. Non-trivial: a fault fired, or more than one candidate exists.')
COMPONENTS = {'real': ['csvw.metadata', 'csvw.dsv', 'requests/urllib3/http.client', 'kernel tmpfs'],
              'stub': ['TCP and the HTTP server (sim/net.py)', 'outcome of file calls, clock (simfs.c)']}
ASSUMPTIONS = []
JSONT = ['application/csvm+json', 'application/ld+json', 'application/json']
DOCS = ['ok'] * 7 + ['group', 'group', 'group2', 'other', 'other', 'empty', 'notable', 'list', 'nonjson', 'html', 'scalar', 'missing', 'error', 'suffix']


def doc(r, k):
    return {'kind': r.choice(DOCS), 'mark': 'm%d' % k, 'rel': r.choice(['name', 'name', 'absolute', 'path']),
            'status': r.choice([404, 404, 410, 403, 500, 503]), 'redirect': r.choice([0, 0, 0, 301, 302, 303, 307, 308])}


def generate(r, i, tier):
    host = 'http://' + r.choice(['data.example.org', 'data.example.org', 'example.com:8080'])
    files, k = [], 0
    dirs = r.choice([['/'], ['/x/'], ['/x/', '/y/z/'], ['/a/b/c/', '/']])
    for n in range(r.choice([1, 1, 2, 3])):
        f = {'url': host + r.choice(dirs) + r.choice(['t%d.csv', 't%d.csv', 'T-%d.tsv', 'data%d', 'a.b%d.csv', 'x.json%d.csv', 'q%d.csv?v=1', '%C3%BC%20%d.csv']).replace('%d', str(n)), 'links': [], 'absent': False,
             'ncols': r.choice([1, 2, 2, 3]), 'nrows': r.choice([0, 1, 2, 2, 5]), 'redirect': r.choice([0, 0, 0, 0, 302, 301, 307, 308]), 'seed': r.randint(0, 10**6),
             'json': r.random() < .06, 'ctype': r.choice(['text/csv', 'text/csv', 'text/csv; charset=utf-8', 'text/csv; header=present', 'text/csv; header=present; charset=utf-8', 'text/plain', None, 'application/octet-stream'])}
        for _ in range(r.choice([0, 0, 1, 1, 2, 2])):
            k += 1
            f['links'].append({'doc': doc(r, k), 'type': r.choice(JSONT + JSONT + ['text/turtle', 'text/html', None]),
                               'rel': r.choice(['describedby'] * 5 + ['alternate', 'describes']), 'form': r.choice(['relative', 'path', 'absolute', 'absolute']),
                               'name': 'linked%d.json' % k})
        if r.random() < .25:
            f['absent'] = r.choice(['text/csv; header=absent', 'text/csv;header=absent', 'text/csv; charset=utf-8; header=absent', 'text/csv; header=absent; charset=utf-8',  'text/csv; header = absent'])
        f['own'], f['dflt'] = [], None
        k += 1
        if r.random() < .6:
            f['own'] = [doc(r, k)]
        if f['redirect']:
            for x in f['links']:
                x['form'] = r.choice(['path', 'absolute'])
        files.append(f)
    shared = {}
    for f in files:
        d = f['url'].rsplit('/', 1)[0] + '/csv-metadata.json'
        if d not in shared and r.random() < .5:
            k += 1
            shared[d] = doc(r, k)
            # the document references one of the files, or several
            shared[d]['for'] = [g['url'] for g in files if r.random() < .8]
    wk = None
    if r.random() < .4:
        pool = ['{+url}-metadata.json', 'csv-metadata.json', '{+url}.json', '{+url}.meta', '/site/all.json', 'meta/x.json', host + '/abs.json', '{url}', '', '/none.json']
        lines = [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
        wk = {'lines': lines, 'end': r.choice(['', '\n', '\n']), 'nl': r.choice(['\n', '\n', '\n', '\r\n']), 'status': r.choice([200, 200, 200, 200, 404, 500, 403]),
              'redirect': r.choice([0, 0, 0, 302, 301]), 'docs': {}}
        for line in lines:
            for f in files:
                u = expand(line, f['url'])
                if u and u not in shared and u != f['url'] + '-metadata.json' and u not in [g['url'] for g in files] and u not in wk['docs'] and r.random() < .7:
                    k += 1
                    wk['docs'][u] = dict(doc(r, k), **{'for': [f['url']]})
    if r.random() < .15:
        for f in files:
            f['links'], f['own'] = [], []
        shared = {}
    hist = []
    for n in range(r.choice([1, 1, 2, 3, 4])):
        hist.append({'file': r.randint(0, len(files) - 1), 'change': None if not n or r.random() < .5 else r.choice(['drop', 'drop', 'ok', 'other', 'nowk']),
                     'which': r.randint(0, 50), 'api': r.choice(['CSVW', 'CSVW', 'validate', 'json', 'explicit', 'locate'])})
    plans = [{'file': r.randint(0, len(files) - 1), 'net': [net.fault(r, r.randint(1, 9), ['refuse', 'dns', 'unreach', 'reset', 'reset', 'trunc', 'trunc', 'slow', 'status'])],
              'delivery': net.delivery(r)} for _ in range(r.randint(4, 7))]
    local = {'md': r.choice([None, 'ok', 'ok', 'group', 'other-name']), 'nrows': r.choice([0, 1, 3]), 'dir': r.choice(['', 'sub/']), 'abs': r.random() < .5, 'others': r.random() < .5, 'aspath': r.random() < .3,
             'name': r.choice(['t.csv', 't.csv', 'a%b.csv', 't.tsv', 'data.2020.csv', 't', 'Ä ö.csv', 't.csv.txt', 'x.CSV', 't-metadata.csv', '.t.csv', 'csv']),
             'plans': [gen.legal_plan(r), [{'kind': 'ERRNO', 'cls': r.choice(['READ', 'OPENR']), 'arg': 'EIO', 'frac': round(r.random() * .999, 4), 'times': r.choice([1, 1000])}]]}
    return {'host': host, 'files': files, 'shared': shared, 'wk': wk, 'hist': hist, 'plans': plans, 'local': local, 'delivery': net.delivery(r)}


def expand(line, url):
    line = line.strip()
    if '{url}' in line:
        return None  # percent-encoded URL, resolved relative to the data
    return urljoin(url, line.replace('{+url}', url))


def names(d, f):
    return ['%s_%d' % (d['mark'], j) for j in range(f['ncols'])]


def table(d, f, last=None):
    u = f['url'] if d['rel'] == 'absolute' else f['url'].split('/', 3)[3] and '/' + f['url'].split('/', 3)[3] if d['rel'] == 'path' else f['url'].split('/')[-1]
    return {'url': last or u, 'tableSchema': {'columns': [{'name': n} for n in names(d, f)]}}


def body(d, f, files):
    """-> (status, content type, bytes, 'use' | 'warn' | 'skip')"""
    k = d['kind']
    ctx = {'@context': 'http://www.w3.org/ns/csvw'}
    if len(d.get('for', [])) > 1:
        d = dict(d, rel='absolute')
    targets = [g for g in files if g['url'] in d['for']] if 'for' in d else [f]
    other = {'url': 'something-else.csv', 'tableSchema': {'columns': [{'name': 'x'}]}}

    def j(x, how):
        return 200, 'application/json', json.dumps(x).encode('utf8'), how
    if k in ('ok', 'group', 'group2', 'suffix') and (not targets or f not in targets):
        return j(dict(ctx, **other), 'warn')
    if k == 'ok':
        if len(targets) > 1:
            return j(dict(ctx, tables=[table(d, g) for g in targets]), 'use')
        return j(dict(ctx, **table(d, f)), 'use')
    if k == 'group':
        return j(dict(ctx, tables=[table(d, g) for g in targets]), 'use')
    if k == 'group2':
        return j(dict(ctx, tables=[other] + [table(d, g) for g in targets]), 'use')
    if k == 'other':
        return j(dict(ctx, **other), 'warn')
    if k == 'suffix':
        return j(dict(ctx, **table(d, f, 'x' + f['url'].split('/')[-1])), 'warn')
    if k == 'empty':
        return j({}, 'warn')
    if k == 'notable':
        return j(dict(ctx, tables=[]), 'warn')
    if k == 'list':
        return j([1, {'url': 'x'}], 'warn')
    if k == 'scalar':
        return j(r'str', 'warn')
    if k == 'nonjson':
        return 200, 'application/json', b'{"@context": "http://www.w3.org/ns/csvw", "url": "', 'skip'
    if k == 'html':
        return 200, 'text/html', b'<html><body>welcome</body></html>', 'skip'
    return d['status'] if k == 'error' else 404, 'text/html', b'<html>%d</html>' % d['status'], 'skip'


def csv(f):
    rng = random.Random(f['seed'])
    if f['json']:
        return rng.choice([b'1\r\n', b'"a"\r\n', b'true', b'null\n', b'-1.5', b'0\r\n']), None
    head = ['h%d' % j for j in range(f['ncols'])]
    rows = [[gen.cell(rng, 'uni') for _ in head] for _ in range(f['nrows'])]
    return gen.serialise(rows if f['absent'] else [head] + rows).encode('utf-8'), (head, rows)


def candidates(s, f, state):
    """The documents in the order of precedence: (where, url, doc)"""
    res = []
    valid = [x for x in f['links'] if x['rel'] == 'describedby' and x['type'] in JSONT]
    if valid:
        res.append(('link', urljoin(f['url'], '/linked/' + valid[-1]['name']) if f['redirect'] or valid[-1]['form'] != 'relative' else urljoin(f['url'], valid[-1]['name']),
                    valid[-1]['doc']))
    wk = s['wk']
    lines = ['{+url}-metadata.json', 'csv-metadata.json']
    if wk and wk['status'] == 200 and not state.get('nowk'):
        lines = wk['lines']
    for line in lines:
        u = expand(line, f['url'])
        if u is None or u in [g['url'] for g in s['files']]:
            continue
        d = s['shared'].get(u) or (wk and wk['docs'].get(u))
        for g in s['files']:
            if u == g['url'] + '-metadata.json' and g['own']:
                d = dict(g['own'][0])
                d.setdefault('for', [g['url']])
        if d:
            res.append(('location', u, d))
    return [(a, u, state['docs'].get(u, d)) for a, u, d in res]


def expected(s, f, state):
    """-> (doc or None, number of documents to warn about, may the lookup raise?)"""
    warn, raises = 0, False
    for where, u, d in candidates(s, f, state):
        how = body(d, f, s['files'])[3]
        if how == 'use':
            return d, warn, raises
        if how == 'warn':
            warn += 1
        elif where == 'link':
            raises = True
    return None, warn, raises


def routes(s, state, dl):
    res = {}

    def add(url, r, redirect, f):
        if redirect:
            target = s['host'] + '/moved/' + url.split('/', 3)[3]
            res[target] = r
            res[url] = net.resp(b'moved', redirect, 'text/html', headers=[('Location', target if redirect % 2 else '/' + target.split('/', 3)[3])])
        else:
            res[url] = r
    for f in s['files']:
        res[urljoin(f['url'], 'something-else.csv')] = net.resp(b'x\r\n1\r\n', ctype='text/csv')
        hs = []
        for x in f['links']:
            path = '/linked/' + x['name']
            t = {'relative': x['name'], 'path': path, 'absolute': s['host'] + path}[x['form']]
            hs.append('<%s>; rel="%s"%s' % (t, x['rel'], '; type="%s"' % x['type'] if x['type'] else ''))
            u = urljoin(f['url'], t)
            d = state['docs'].get(u, x['doc'])
            st, ct, b, _ = body(d, f, s['files'])
            add(u, net.resp(b, st, ct, framing=dl['framing'], encoding=dl['encoding']), d['redirect'], f)
        headers = [('Link', ', '.join(hs))] if hs and s['delivery']['seed'] % 2 else [('Link', h) for h in hs]
        add(f['url'], net.resp(csv(f)[0], 200, f['absent'] or f['ctype'], headers=headers, framing=dl['framing'], encoding=dl['encoding']), f['redirect'], f)
    docs = dict(s['shared'])
    for f in s['files']:
        if f['own']:
            docs[f['url'] + '-metadata.json'] = dict(f['own'][0], **{'for': [f['url']]})
    if s['wk']:
        docs.update(s['wk']['docs'])
        wk = s['wk']
        if not state.get('nowk'):
            add(s['host'] + '/.well-known/csvm', net.resp((wk['nl'].join(wk['lines']) + wk['end']).encode('utf8'), wk['status'], 'text/plain'), wk['redirect'], None)
    for u, d in docs.items():
        d = state['docs'].get(u, d)
        f = [f for f in s['files'] if f['url'] in d['for']]
        st, ct, b, _ = body(d, f[0] if f else s['files'][0], s['files'])
        add(u, net.resp(b, st, ct, framing=dl['framing'], encoding=dl['encoding']), d['redirect'], f)
    return res


def lookup(s, f, api):
    """In the simulated process: the description found, as column names and rows."""
    from csvw import CSVW
    last = f['url'].split('/')[-1]
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        if api == 'locate':
            md, no_header = CSVW.locate_metadata(f['url'])
            tabs = [t for t in md.get('tables', [md]) if t['url'].split('/')[-1] == last]
            assert tabs, 'the description does not reference the data: %r' % md
            cols = [c['name'] for c in tabs[0].get('tableSchema', {}).get('columns', [])]
            return {'cols': cols, 'rows': None, 'warnings': len([x for x in rec if issubclass(x.category, UserWarning)]), 'absent': bool(no_header)}
        obj = CSVW(f['url'], validate=api == 'validate')
    nwarn = len(obj.warnings) if api == 'validate' else len([x for x in rec if issubclass(x.category, UserWarning)])
    tab = [t for t in obj.tables if t.url.string.split('/')[-1] == last]
    assert tab, 'the description does not reference the data: %r' % [t.url.string for t in obj.tables]
    cols = [c.name for c in tab[0].tableSchema.columns]
    if api == 'json':
        res = [t for t in obj.to_json()['tables'] if t['url'].split('/')[-1] == last][0]
        rows = [row['describes'][0] for row in res['row']]
        rows = [[[k.split('#')[-1] if '://' in k else k, v] for k, v in row.items()] for row in rows]
    else:
        rows = [[[k, v] for k, v in row.items()] for row in tab[0].iterdicts(strict=False)]
    return {'cols': cols, 'rows': rows, 'warnings': nwarn}


def judge_lookup(w, s, f, state, api, got, ctx):
    d, warn, raises = expected(s, f, state)
    data, parsed = csv(f)
    if isinstance(got, str):
        if not raises:
            w.fail('error', 'looking up the description of %s failed: %s; expected %s; %s' % (f['url'], got, d, ctx))
        return
    want = names(d, f) if d else []
    if f['json']:
        # a data file which happens to be valid JSON is still data
        if d and got['cols'] != want:
            w.fail('precedence', 'the description of %s has the columns %s instead of %s (%s); %s' % (f['url'], got['cols'], want, d, ctx))
        return
    if got['cols'] != want:
        w.fail('precedence', 'the description of %s has the columns %s instead of %s (%s); %s' % (f['url'], got['cols'], want or 'none', d, ctx))
    head, rows = parsed
    if got['rows'] is not None:
        if d and f['absent']:
            return  # the description takes a header for granted
        if d:
            keys = want
        else:
            keys = ['_col.%d' % (j + 1) for j in range(f['ncols'])] if f['absent'] else head
        exp = [[[k, v] for k, v in zip(keys, row)] for row in rows]
        if lib.norm(got['rows']) != lib.norm(exp):
            w.fail('rows', 'the rows of %s are read differently: %s; %s' % (f['url'], lib.first_diff(lib.norm(got['rows']), lib.norm(exp)), ctx))
    elif not d and got['absent'] != bool(f['absent']):
        w.fail('absent', 'header=absent is %s, but was taken for %s; %s' % (f['absent'], got['absent'], ctx))
    if warn and not got['warnings']:
        w.fail('silent', '%d documents which do not reference %s were skipped without warning; %s' % (warn, f['url'], ctx))


def execute(s, w):
    state = {'docs': {}}
    nstates = [{'docs': {}}]
    # the states of the server during the history
    for h in s['hist']:
        st = {'docs': dict(nstates[-1]['docs']), 'nowk': nstates[-1].get('nowk')}
        f = s['files'][h['file'] % len(s['files'])]
        if h['change']:
            cand = candidates(s, f, st)
            if h['change'] == 'nowk':
                st['nowk'] = True
            elif cand:
                a, u, d = cand[h['which'] % len(cand)]
                st['docs'][u] = dict(d, kind={'drop': 'missing', 'ok': 'ok', 'other': 'other'}[h['change']], mark=d['mark'] + 'x')
        nstates.append(st)
    base = net.Net({}, (), s['delivery']['seed'], s['delivery']['pieces'])

    def history():
        res = []
        for h, st in zip(s['hist'], nstates[1:]):
            f = s['files'][h['file'] % len(s['files'])]
            base.routes = {k: [v] for k, v in routes(s, st, s['delivery']).items()}
            try:
                if h['api'] == 'explicit':
                    res.append(explicit(s, f, base))
                else:
                    res.append(lookup(s, f, h['api']))
            except Exception as e:
                res.append('%s: %s' % (type(e).__name__, e))
        return res
    o = w.victim(history, net=base)
    if not o.ok:
        w.fail('error', 'the history failed: %r\n%s' % (o, o.tb))
    for n, (h, st, got) in enumerate(zip(s['hist'], nstates[1:], o.value)):
        f = s['files'][h['file'] % len(s['files'])]
        ctx = 'lookup %d of %s, requests %s' % (n, [(x['file'], x['api'], x['change']) for x in s['hist']], [x[:3] for x in o.netlog][-14:])
        if h['api'] == 'explicit':
            if isinstance(got, str) or got['cols'] != ['explicit_%d' % j for j in range(f['ncols'])]:
                w.fail('explicit', 'metadata passed explicitly are not used: %s; %s' % (got, ctx))
            continue
        c = candidates(s, f, st)
        if len(c) > 1:
            w.nontrivial += 1
        d = expected(s, f, st)[0]
        w.probe('used_%s' % next((a for a, u, x in c if d and x['mark'] == d['mark']), 'none'))
        judge_lookup(w, s, f, st, h['api'], got, ctx)
        w.record(got)
    # under faults
    for plan in s['plans']:
        f = s['files'][plan['file'] % len(s['files'])]
        dl = plan['delivery']
        if dl['framing'] == 'close' and plan['net'][0]['kind'] == 'trunc':
            dl = dict(dl, framing='chunked')
        # documents delimited by the end of the connection only, cut off, cannot be told from complete ones
        fl = [dict(x) for x in plan['net']]
        nt = net.Net(routes(s, state, dl), fl, dl['seed'], dl['pieces'])
        o = w.victim(lambda: lookup(s, f, 'CSVW'), net=nt)
        ctx = 'under %s; requests %s' % (fl, [x[:3] for x in o.netlog])
        w.record(o.status, o.netlog)
        bad = [x for x in o.netlog if isinstance(x[2], str)]
        status = any(k == 'NET_STATUS' for k in o.fired)
        if status:
            # an error status for a candidate means that it is missing, for the data that they cannot be had
            w.probe('status')
            if o.ok and o.netlog[0][0] == 'GET' and o.netlog[0][1] == f['url'] and o.netlog[0][2] >= 400:
                w.fail('status', 'the data cannot be had, but the lookup succeeds: ' + ctx)
            continue
        if o.ok:
            judge_lookup(w, s, f, state, 'CSVW', o.value, ctx)
        elif not bad:
            judge_lookup(w, s, f, state, 'CSVW', '%s: %s' % (o.exc[0], o.msg), ctx)
        if w.sample is None and o.fired:
            w.sample = {'file': f['url'], 'fault': fl, 'requests': o.netlog, 'outcome': repr(o)[:200]}
    local(s, w)


def explicit(s, f, nt):
    from csvw import CSVW
    d = {'mark': 'explicit', 'rel': 'name', 'kind': 'ok'}
    u = s['host'] + '/explicit.json'
    nt.routes[u] = [net.resp(json.dumps(dict({'@context': 'http://www.w3.org/ns/csvw'}, **table(d, f))).encode(), ctype='application/json')]
    obj = CSVW(f['url'], md_url=u)
    return {'cols': [c.name for c in obj.tables[0].tableSchema.columns]}


def local(s, w):
    x = s['local']
    base = w.data / x['dir']
    base.mkdir(exist_ok=True)
    f = {'url': x['name'], 'ncols': 2, 'nrows': x['nrows'], 'absent': False, 'seed': 5, 'json': False}
    data, (head, rows) = csv(f)
    (base / f['url']).write_bytes(data)
    d = {'mark': 'local', 'rel': 'name', 'kind': 'ok'}
    ctx = {'@context': 'http://www.w3.org/ns/csvw'}
    if x['md'] == 'other-name':
        (base / 't.json').write_text(json.dumps(dict(ctx, **table(d, f))))
    elif x['md']:
        t = table(d, f)
        (base / (f['url'] + '-metadata.json')).write_text(json.dumps(dict(ctx, **t) if x['md'] == 'ok' else dict(ctx, tables=[t])))
    if x['others']:
        (base / 'u.csv-metadata.json').write_text(json.dumps(dict(ctx, **table(dict(d, mark='u'), f))))
        for n in ('csv-metadata.json', 'metadata.json', f['url'].split('.')[0] + '-metadata.json'):
            if n == f['url'] + '-metadata.json':
                continue
            (base / n).write_text(json.dumps(dict(ctx, **table(dict(d, mark='v'), f))))
    path = str(base / f['url']) if x['abs'] else x['dir'] + f['url']
    keys = names(d, f) if x['md'] in ('ok', 'group') else head
    want = [[[k, v] for k, v in zip(keys, row)] for row in rows]

    def look():
        from csvw import CSVW
        obj = CSVW(pathlib.Path(path) if x['aspath'] else path)
        return [[[k, v] for k, v in row.items()] for row in obj.tables[0].iterdicts(strict=False)]
    o = w.victim(look)
    if not o.ok or lib.norm(o.value) != lib.norm(want):
        w.fail('local', 'the local file %s is not read with the right description: %r instead of %s' % (path, o, want))
    for p in x['plans']:
        faults = place(p, o.counts)
        if faults is None:
            continue
        q = w.victim(look, faults)
        if q.ok and lib.norm(q.value) != lib.norm(want):
            w.fail('local', 'the local file %s is not read with the right description under %s: %r instead of %s' % (path, faults, q, want))
        if not q.ok and gen.is_legal(p):
            w.fail('legal', 'short reads or EINTR break the lookup: %r' % q)
