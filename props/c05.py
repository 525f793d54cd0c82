"""C05: writing a table zipped never loses the data."""
import io
import zipfile

from sim import gen, lib, model
from sim.world import place

RUNS = {'quick': 300, 'thorough': 16000}
LEVEL = 'fault_enumeration'
TECHNIQUE = ('deterministic simulation: seeded crash/error/interrupt placement in the system calls of real zipped writes, with an observer '
             'process reading the table between the system calls')
NOTE = ('Seeded search over crash and fault positions, not exhaustive. Completeness of an archive is judged by the standard zipfile module '
        '(checksums included) and by what a plain write of the same rows produces.')
RULE = ('A scenario is a described table (or several), a state of the directory (nothing, old CSV, old archive, both) and 8-12 plans; every plan '
        'is one simulated execution of the zipped write. Non-trivial: a crash, errno, full disk, short count, EINTR, SIGINT or exception from '
        'the row iterator fired, or an observer looked at the files at system-call boundaries.')
COMPONENTS = {'real': ['csvw.metadata', 'csvw.dsv', 'Python io/csv/zipfile', 'kernel tmpfs'],
              'stub': ['outcome of every file call, clock, getrandom (simfs.c)']}
ASSUMPTIONS = ['process crash: bytes handed to the kernel survive; power loss is not modelled (the code promises no fsync)']


def generate(r, i, tier):
    gd = model.dialect(r)
    nt = r.choice([1, 1, 1, 2, 3])
    tables = [model.table(r, model.url(r, k, ['t%d.csv', 'table %d.csv', 'x.y%d.tsv', 'T%d.txt']), group_dialect=gd,
                          nrows=r.choice([60, 300, 300, 1100]) if r.random() < .13 else None) for k in range(nt)]
    plans = []
    for _ in range(r.randint(8, 12)):
        x = r.random()
        if x < .45:
            plans.append({'faults': gen.crash_plan(r)})
        elif x < .65:
            plans.append({'faults': gen.error_plan(r)})
        elif x < .72:
            plans.append({'faults': gen.legal_plan(r)})
        elif x < .8:
            plans.append({'faults': gen.sigint_plan(r)})
        elif x < .88:
            plans.append({'faults': [], 'budget': round(r.random() * 1.6, 3), 'refill': r.choice([-1, -1, 2])})
        elif x < .93:
            plans.append({'faults': [], 'raise_at': r.randint(0, 10)})
        else:
            plans.append({'faults': [], 'observe': True})
    sub = r.random() < .2
    if sub:
        for t in tables:
            t['url'] = 'sub/' + t['url']
    return {'g': {'dialect': gd, 'tables': tables}, 'old': r.choice(['none', 'none', 'csv', 'zip', 'zip', 'both']), 'plans': plans,
            'group': r.random() < (.8 if nt > 1 else .4), 'fname': r.random() < .3, 'alias': r.random() < .3}


def member(path):
    """Content of a complete archive with exactly one member, or None."""
    try:
        with zipfile.ZipFile(str(path)) as z:
            if len(z.infolist()) != 1 or z.testzip() is not None:
                return
            return z.namelist()[0], z.read(z.namelist()[0])
    except Exception:
        return


def execute(s, w):
    from csvw import TableGroup
    g = s['g']
    # the file of each table: at its URL, or where the caller wants it
    files = {t['url']: t['url'] if s['group'] or not s['fname'] or not s['alias'] else '%d-%s' % (k, t['url'].split('/')[-1])
             for k, t in enumerate(g['tables'])}
    names = list(files.values())
    tname = {f: u for u, f in files.items()}
    (w.data / 'sub').mkdir()
    md = lib.put_md(w, g)
    ref = lib.put_md(w, g, 'ref.json')  # the metadata file itself is not what this property is about
    want = lib.expected_group(g)
    blank = w.save('blank')

    class Boom(Exception):
        pass

    def write(zipped=True, raise_at=None):
        def rows(t):
            for k, row in enumerate(lib.items(t)):
                if raise_at is not None and k == raise_at % max(1, len(t['rows'])):
                    raise Boom()
                yield row
        tg = TableGroup.from_file(md)
        if s['group']:
            return tg.write(md, _zipped=zipped, **{t['url']: rows(t) for t in g['tables']})
        td = {t.local_name: t for t in tg.tables}
        for t in g['tables']:
            kw = {'fname': str(w.data / files[t['url']])} if s['fname'] else {}
            td[t['url']].write(rows(t), _zipped=zipped, **kw)

    # what an ordinary write produces
    o = w.victim(lambda: write(False))
    if not o.ok:
        w.fail('error', 'plain write failed without any fault: %r\n%s' % (o, o.tb))
    new = {n: (w.data / n).read_bytes() for n in names}
    w.restore(blank)
    oldzip = io.BytesIO()
    with zipfile.ZipFile(oldzip, 'w') as z:
        z.writestr(zipfile.ZipInfo('other.csv', (2020, 1, 1, 0, 0, 0)), b'x\r\n' * 50)
    for n in names:
        if s['old'] in ('csv', 'both'):
            (w.data / n).write_bytes(b'old\r\n1\r\n' * 20)
        if s['old'] in ('zip', 'both'):
            (w.data / (n + '.zip')).write_bytes(oldzip.getvalue())
    (w.data / 'neighbour.csv').write_bytes(b'a,b\r\n')
    (w.data / 'neighbour.csv.zip').write_bytes(oldzip.getvalue())
    saved = w.save()
    before = w.tree(w.data)

    def rows_of(name):
        tg = TableGroup.from_file(ref)
        return lib.norm([model.canon_row(x) for x in tg.tabledict[tname[name]].iterdicts(fname=w.data / name if name != tname[name] else None)])

    def check(ctx, created, done=False, observer=False):
        """The invariants of the state on disk. `created`: tables whose plain file this write has created."""
        for n in names:
            p, z = w.data / n, w.data / (n + '.zip')
            zb = z.read_bytes() if z.exists() else None
            touched = zb is not None and zb != before.get(n + '.zip')
            complete = touched and member(z) == (n.split('/')[-1], new[n])
            if not p.exists() and n in created and not complete:
                w.fail('lost', 'the CSV file %s is gone, but the archive is not complete; %s' % (n, ctx))
            if touched:
                try:
                    got = rows_of(n)
                except Exception as e:
                    w.fail('unreadable', 'the archive of %s is being written, but the table cannot be read: %r; %s' % (n, e, ctx))
                if got != want[tname[n]]:
                    w.fail('wrong', 'the archive of %s is being written, but reading gives other rows than written: %s; %s' % (
                        n, lib.first_diff(got, want[tname[n]]), ctx))
            if done:
                if p.exists():
                    w.fail('plain', 'the plain file %s is left behind; %s' % (n, ctx))
                if not complete:
                    w.fail('incomplete', 'the archive of %s does not hold exactly the data under the file name: %r; %s' % (
                        n, (member(z) or ['damaged'])[0], ctx))
        now = w.tree(w.data)
        for n in before:
            if n.startswith('neighbour') and now.get(n) != before[n]:
                w.fail('neighbour', 'another file (%s) was changed; %s' % (n, ctx))
        if done:
            extra = set(now) - set(before) - {n + '.zip' for n in names}
            if extra:
                w.fail('extra', 'files left behind: %s; %s' % (sorted(extra), ctx))

    def created(o):
        """Tables whose plain file was opened for writing by the execution (from the log of system calls)."""
        return {n for n in names for slot, cls, path, kind, a, b, res in w.fs.log()
                if cls == 'OPENW' and path.endswith('/' + n) and slot == 1 and kind not in ('ERRNO', 'EINTR', 'CRASH_BEFORE')}

    base = w.victim(write)
    if not base.ok:
        w.fail('error', 'zipped write failed without any fault: %r\n%s' % (base, base.tb))
    check('after a zipped write', created(base), done=True)
    size = sum(len(b) for b in w.tree(w.data).values())
    for plan in s['plans']:
        w.restore(saved)
        faults = place(plan['faults'], base.counts)
        if faults is None:
            w.probe('unplaced')
            continue
        opts = {}
        if 'budget' in plan:
            opts = dict(budget=int(plan['budget'] * size), refill=plan['refill'])
        if plan.get('observe'):
            seen = [0, set()]

            def look(n, cls, path):
                for x in names:
                    if (w.data / x).exists() and (w.data / x).read_bytes() != before.get(x):
                        seen[1].add(x)
                seen[0] += 1
                if seen[0] < 60 or seen[0] % 37 == 0 or cls in ('UNLINK', 'RENAME'):
                    check('observed before %s of %s (call %d)' % (cls, path, n), seen[1])
            opts.update(on_pause=look, pauses=[{'cls': 'ANY', 'at': 1, 'times': 10**9}])
        o = w.victim(lambda: write(raise_at=plan.get('raise_at')), faults, **opts)
        w.probe('outcome_' + o.status)
        ctx = 'plan %s, outcome %r' % ({**plan, 'faults': faults}, o)
        if plan.get('observe') or plan.get('raise_at') is not None:
            w.nontrivial += 1
            w.probe('observations', o.npause)
        if o.status == 'hang':
            w.fail('hang', 'the write does not return; ' + ctx)
        check(ctx, created(o), done=o.ok and not (plan.get('raise_at') is not None and any(t['rows'] for t in g['tables'])))
        if o.ok and plan.get('raise_at') is not None and any(t['rows'] for t in g['tables']):
            w.fail('swallowed', 'the exception of the row iterator is swallowed; ' + ctx)
        if o.status == 'exc' and faults and gen.is_legal(faults):
            w.fail('legal', 'the write failed although only short counts or EINTR happened; ' + ctx)
        if o.status == 'exc' and not o.fired and plan.get('raise_at') is None:
            w.fail('error', 'the write failed although no fault fired; %s\n%s' % (ctx, o.tb))
        if o.status == 'exc' and o.fired or o.status == 'crash':
            # trying again repairs everything
            md.write_bytes(ref.read_bytes())
            w.probe('retries')
            if True:
                o2 = w.victim(write)
                if not o2.ok:
                    w.fail('retry', 'writing again after %s failed: %r' % (ctx, o2))
                check('after repeating the write which failed before (%s)' % ctx, created(o2), done=False)
                for n in names:
                    if (w.data / n).exists() or member(w.data / (n + '.zip')) != (n.split('/')[-1], new[n]):
                        w.fail('retry', 'writing again does not leave exactly the archive of %s; first attempt: %s' % (n, ctx))
        if w.sample is None and o.fired:
            w.sample = {'tables': names, 'old': s['old'], 'plan': plan, 'placed': faults, 'outcome': repr(o)[:200]}
        w.record(o.status, o.exc[:1], sorted(w.tree(w.data, content=False)))
