"""C04: in-place rewriting of a delimited file is atomic and computes what it says."""
import json
import pathlib
import zlib

from sim.world import Violation, place, short
from sim import gen

RUNS = {'quick': 320, 'thorough': 20000}
LEVEL = 'fault_enumeration'
TECHNIQUE = 'deterministic simulation: seeded crash/error/interrupt placement in the system calls of real executions, with an observer process'
NOTE = ('Seeded search, not exhaustive: each scenario places faults at seeded positions among the system calls the operation really '
        'makes. Trusts the kernel\'s tmpfs and rename(2), the shim\'s interception of libc, and the reference CSV parser.')
RULE = ('A scenario is a delimited file (dialect, encoding, rows), 1-3 in-place operations on it and 6-10 fault plans; every '
        'plan is one simulated execution of the operations in a forked process. Non-trivial: a planned fault (crash before/'
        'in/after a call, errno, short count, EINTR, SIGINT, full disk, callback exception, EXDEV) fired inside an '
        'operation, or an observer read the file at a system-call boundary of a running operation.')
COMPONENTS = {'real': ['csvw.dsv', 'Python io/csv/tempfile/shutil', 'kernel tmpfs'],
              'stub': ['outcome of every file call, clock, getrandom (simfs.c)', 'second device (EXDEV)']}
ASSUMPTIONS = ['process crash: bytes handed to the kernel survive; power loss is not modelled here (the code promises no fsync)']

DIALECTS = [
    ({}, 'utf-8', ',', '"'), ({}, 'utf-8', ',', '"'), ({'delimiter': '\t'}, 'utf-8', '\t', '"'),
    ({'delimiter': ';', 'encoding': 'latin-1'}, 'latin-1', ';', '"'),
    ({'encoding': 'utf-16'}, 'utf-16', ',', '"'),
    ({'quotechar': "'"}, 'utf-8', ',', "'"),
    ({'lineterminator': '\n'}, 'utf-8', ',', '"'),
    ({'dialect': {'delimiter': '|', 'encoding': 'utf-8'}}, 'utf-8', '|', '"'),
    ({'dialect': {'delimiter': '\t', 'quoteChar': "'", 'lineTerminators': ['\n']}}, 'utf-8', '\t', "'"),
    ({'dialect': {'encoding': 'latin-1'}}, 'latin-1', ',', '"'),
]


def generate(r, i, tier):
    kw, enc, delim, quote = r.choice(DIALECTS)
    chars = 'latin' if enc == 'latin-1' else 'uni'
    ncols = r.randint(1, 4)
    big = r.random() < .25
    nrows = r.choice([r.randint(60, 400), r.randint(60, 400), 1100]) if big else r.randint(0, 12)
    header = ['c%d' % k for k in range(ncols)]

    def row(k):
        return ['%d-%s' % (k, gen.cell(r, chars, maxlen=8))] + [
            gen.cell(r, chars, maxlen=30 if big else 10) if r.random() < .9 else 'q' for _ in range(ncols - 1)]
    rows = [header] + [row(k) for k in range(nrows)]
    for x in rows[1:]:
        if r.random() < .1:
            k = r.randrange(ncols)
            x[k] = r.choice([' %s', '%s ', '\t%s', '%s\u00a0' if chars == 'uni' else ' %s ']) % x[k]
    if r.random() < .25:
        # rows which do not have as many cells as the header
        for x in rows[1:]:
            if r.random() < .3:
                x[:] = x[:-1] if r.random() < .6 and ncols > 1 else x + ['more']
    if r.random() < .08:
        # tiny files
        rows = r.choice([[['a']], [['a'], ['b']], [['a'], ['1']], [['']], [['a', '']], [['x'], ['']], [['a'], [' ']]])
    exists = r.random() < .92
    blank = r.random() < .3
    if blank:
        for k in range(r.randint(1, 3)):
            rows.insert(r.randint(1, len(rows)), [])
    ops = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        plain = kw == {}
        op = r.choice(['rewrite', 'rewrite'] + ([] if blank else ['filter']) + (['add', 'add'] if plain else []))
        if not exists and not ops:
            op = 'add'
            kw, enc, delim, quote = {}, 'utf-8', ',', '"'
        if op == 'rewrite':
            ops.append({'op': 'rewrite', 'mode': r.choice(['id', 'drop', 'edit', 'addcol', 'swap', 'none', 'inplace'] + (['blank'] if blank else [])),
                        'mod': r.randint(2, 5)})
        elif op == 'filter':
            ops.append({'op': 'filter', 'mod': r.randint(1, 5)})
        else:
            ops.append({'op': 'add', 'rows': [row(1000 + k) for k in range(r.choice([0, 1, 1, 2, 5, 120 if big else 3]))] + ([[]] if blank else [])})
    plans = []
    for _ in range(r.randint(6, 10)):
        t = r.random()
        if t < .4:
            plans.append({'faults': gen.crash_plan(r)})
        elif t < .6:
            plans.append({'faults': gen.error_plan(r)})
        elif t < .7:
            plans.append({'faults': gen.legal_plan(r)})
        elif t < .78:
            plans.append({'faults': gen.sigint_plan(r)})
        elif t < .86:
            plans.append({'faults': [], 'budget': round(r.random(), 3)})
        elif t < .93:
            plans.append({'faults': [], 'raise_at': r.randint(0, max(1, nrows)), 'exc': r.choice(['ValueError', 'KeyboardInterrupt', 'GeneratorExit', 'StopIteration'])})
        else:
            plans.append({'faults': [], 'observe': True})
        plans[-1]['xdev'] = int(r.random() < .4)
    return {'kw': kw, 'enc': enc, 'delim': delim, 'quote': quote, 'rows': rows, 'exists': exists, 'ops': ops,
            'plans': plans, 'aspath': r.random() < .5, 'neighbours': r.random() < .7, 'bom': enc == 'utf-8' and r.random() < .1,
            'rel': r.random() < .2}


def kwargs(kw):
    import csvw
    kw = dict(kw)
    if isinstance(kw.get('dialect'), dict):
        kw['dialect'] = csvw.Dialect(**kw['dialect'])
    return kw


def visitor(op, raise_at=None, exc=None):
    mode, mod = op['mode'], op['mod']

    def f(i, row):
        if raise_at is not None and i == raise_at:
            raise {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'GeneratorExit': GeneratorExit,
                   'StopIteration': StopIteration}[exc]('visitor')
        if mode == 'blank':
            return [] if i % mod == 1 else row
        if mode == 'id' or not row and mode != 'none':
            return row
        if mode == 'drop':
            return None if i % mod == 1 else row
        if mode == 'edit':
            return row[:-1] + ['E%d,"%s' % (i, row[-1])]
        if mode == 'addcol':
            return row + ['new%d' % i]
        if mode == 'swap':
            return list(reversed(row))
        if mode == 'inplace':
            row[0] = 'R' + row[0]
            return row
        return None
    return f


def keep(op):
    return lambda d: zlib.crc32(json.dumps(list(d.items())).encode()) % (op['mod'] + 1) != 0


def model(op, rows):
    """What the operation must compute; rows is None if the file does not exist."""
    if op['op'] == 'add':
        return (rows or []) + [list(x) for x in op['rows']], None
    if op['op'] == 'filter':
        k = keep(op)
        new = rows[:1] + [x for x in rows[1:] if k(dict(zip(rows[0], x)))]
        return new, len(rows) - len(new)
    v = visitor(op)
    new = [v(i, list(x)) for i, x in enumerate(rows)]
    return [x for x in new if x is not None], None


def execute(s, w):
    import csvw
    from csvw.dsv import rewrite, add_rows, filter_rows_as_dict
    path = w.data / 'data.csv'
    kw, enc = s['kw'], s['enc']
    neigh = {}
    rows0 = [list(x) for x in s['rows']] if s['exists'] else None
    term = {'lineterminator': '\n'}.get('lineterminator') if 'lineterminator' in kw else '\r\n'
    if rows0 is not None:
        data = gen.serialise(rows0, s['delim'], s['quote'], term)
        path.write_bytes(data.encode('utf-8-sig' if s['bom'] else enc))
    if s['neighbours']:
        for n in ['data.csv.bak', 'data.csv~', 'data.csv.tmp', '.data.csv.tmp', 'data.csv.new', 'data.tmp', 'tmp', 'data', 'other.csv', '.data.csv.swp']:
            (w.data / n).write_bytes(b'precious ' + n.encode())
            neigh[n] = b'precious ' + n.encode()
    saved = w.save()
    fname = 'data.csv' if s['rel'] else str(path)
    if s['aspath']:
        fname = pathlib.Path(fname)

    def call(op, plan):
        if op['op'] == 'add':
            return add_rows(fname, *[list(x) for x in op['rows']])
        if op['op'] == 'filter':
            k = keep(op)
            n = [0]

            def pred(d):
                n[0] += 1
                if plan.get('raise_at') is not None and n[0] == plan['raise_at']:
                    raise {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt,
                           'GeneratorExit': GeneratorExit, 'StopIteration': StopIteration}[plan['exc']]('visitor')
                return k(d)
            return filter_rows_as_dict(fname, pred, **kwargs(kw))
        return rewrite(fname, visitor(op, plan.get('raise_at'), plan.get('exc')), **kwargs(kw))

    def content():
        try:
            return path.read_bytes()
        except FileNotFoundError:
            return None

    def parsed(b):
        if b is None:
            return None
        text = b.decode('utf-8-sig' if enc == 'utf-8' else enc)
        return gen.parse(text, s['delim'], s['quote'])

    def check_neigh(when):
        for n, b in neigh.items():
            p = w.data / n
            if not p.exists() or p.read_bytes() != b:
                w.fail('neighbour', 'file %s next to the rewritten one was %s %s' % (n, 'changed' if p.exists() else 'removed', when))

    for pi, plan in enumerate([{'faults': []}] + s['plans']):
        w.restore(saved)
        rows = rows0
        for oi, op in enumerate(s['ops']):
            if rows is None and op['op'] != 'add':
                break
            old = content()
            want, ret = model(op, rows)
            opsaved = w.save('op')
            # fault-free run of this operation from this state: the content it must arrive at
            base = w.victim(lambda: call(op, {}), xdev=plan.get('xdev', 0), count=False)
            if not base.ok:
                w.fail('error', 'operation %s on an existing readable file failed without any fault: %r\n%s' % (
                    short(op), base, base.tb))
            new = content()
            got = parsed(new)
            if got != want:
                w.fail('wrong', 'operation %s: rows afterwards %s, expected %s' % (short(op), short(got), short(want)))
            if op['op'] == 'filter' and base.value != ret:
                w.fail('count', 'filter_rows_as_dict returned %r, %r rows were removed' % (base.value, ret))
            check_neigh('after a successful operation')
            if pi == 0:
                w.evals += 1
                w.states.add(base.digest)
                rows = want
                continue
            w.restore(opsaved)
            faults = place(plan['faults'], base.counts)
            if faults is None:
                w.probe('unplaced')
                faults = []
            opts = dict(xdev=plan.get('xdev', 0))
            if 'budget' in plan:
                opts['budget'] = int(plan['budget'] * max(1, len(new or b'')))
            if plan.get('observe'):
                seen = []

                def look(n, cls, p):
                    c = content()
                    if c != old and c != new:
                        w.fail('observer', 'a reader between two system calls (before %s %s, call %d) of %s sees neither the old '
                               'nor the new content: %s' % (cls, p, n, op['op'], short(c)))
                    if seen and seen[-1] == new != old and c != new:
                        w.fail('observer', 'file went back from new to old content')
                    seen.append(c)
                    check_neigh('during the operation')
                opts.update(on_pause=look, pauses=[{'cls': 'ANY', 'at': 1, 'times': 10**9}])
            o = w.victim(lambda: call(op, plan), faults, **opts)
            if plan.get('observe'):
                w.nontrivial += 1
                w.probe('observations', o.npause)
            if plan.get('xdev'):
                w.probe('xdev')
            if o.status == 'hang':
                w.fail('hang', '%s does not return under %s' % (short(op), plan))
            now = content()
            w.probe('outcome_' + o.status + ('_new' if now == new else '_old' if now == old else '_bad'))
            ctx = 'operation %s, plan %s, outcome %r' % (short(op, 150), {**plan, 'faults': faults}, o)
            if now != new and now != old:
                w.fail('torn', 'the file holds neither its old nor its new content: %s; old %s, new %s; %s' % (
                    short(now, 200), short(old, 100), short(new, 100), ctx))
            if o.ok and now != new and not (plan.get('raise_at') is not None):
                w.fail('lost', 'the operation returned normally, but the file holds the old content; ' + ctx)
            if o.ok and plan.get('raise_at') is not None and now != new:
                w.fail('lost', 'the callback raised, the operation returned normally with the old content; ' + ctx)
            if o.status == 'exc' and not o.fired and plan.get('raise_at') is None and not plan.get('observe'):
                w.fail('error', 'the operation failed although no fault fired; ' + ctx + o.tb)
            if plan.get('observe') and not o.ok:
                w.fail('error', 'the operation failed under observation only; ' + ctx + o.tb)
            if o.status == 'exc' and faults and gen.is_legal(faults):
                w.fail('legal', 'the operation failed although only short counts or EINTR happened; ' + ctx)
            check_neigh('; ' + ctx)
            w.record(o.status, o.exc[:1], now == new)
            if w.sample is None and o.fired:
                w.sample = {'operation': {k: v for k, v in op.items() if k != 'rows'}, 'plan': plan, 'placed': faults, 'outcome': repr(o)[:200],
                            'file': 'new' if now == new else 'old'}
            rows = want if now == new else rows
