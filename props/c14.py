"""C14: concurrent and interleaved use of different tables is independent."""
import io
import itertools
import json
import os
import pathlib
import random
import zipfile

from sim import dbmodel, gen, lib, model, sched
from sim.world import place

RUNS = {'quick': 260, 'thorough': 9000}
LEVEL = 'exploration'
TECHNIQUE = ('deterministic simulation: seeded interleavings of real threads (a scheduler decides at every line or bytecode instruction of the library '
             'which thread runs) and of iterators in one thread, compared with the same tasks run alone')
NOTE = ('Seeded search over schedules. Threads are preempted between lines or bytecode instructions of csvw itself; the libraries below it run '
        'without preemption. Validation (which uses the process-wide warnings.catch_warnings) is not run in threads.')
RULE = ('A scenario is 1-3 table groups and 2-5 tasks (readers, writers, in-place edits, database loads, conversions, key checks, datatype '
        'conversions), run alone and then together under 4-6 schedules: threads with 1-6 placed preemptions, threads with random preemption, '
        'iterators interleaved in one thread, one of them inside the row source or callback of another. Non-trivial: at least one preemption.')
COMPONENTS = {'real': ['csvw (all modules)', 'Python threads and generators', 'SQLite', 'kernel tmpfs'],
              'stub': ['thread scheduling (sys.settrace hand-over)', 'clock, outcome of file calls (simfs.c)']}
ASSUMPTIONS = ['preemption inside C extensions and the standard library does not matter']

KINDS = ['iter', 'iter', 'iter', 'iter', 'twice', 'nest', 'other', 'other', 'close', 'reader', 'reader', 'write', 'write', 'groupwrite', 'unicodewriter', 'edit', 'edit', 'db', 'json', 'json',
         'rejson', 'rejson', 'markdown', 'describe', 'keys', 'datatype', 'error', 'check']
DT = [({'base': 'decimal', 'format': {'pattern': '#,##0.00', 'groupChar': '.', 'decimalChar': ','}}, ['1.000,50', '0,25', '1,000.50']), ('integer', ['1', 'x', '-5']),
      ({'base': 'decimal', 'format': {'pattern': '#,##0.00'}}, ['1,000.50', '0.25', '1.000,50']), ({'base': 'integer', 'format': {'groupChar': ' '}}, ['1 000', '10']),
      ({'base': 'date', 'format': 'd.M.yyyy'}, ['1.2.2024', '31.12.1999', '2024-01-01']), ({'base': 'date', 'format': 'MM/dd/yyyy'}, ['01/02/2024']), ('datetime', ['2024-02-29T10:00:00']),
      ({'base': 'time', 'format': 'HH:mm'}, ['10:00', '25:00']), ({'base': 'boolean', 'format': 'J|N'}, ['J', 'N', 'true']), ('boolean', ['true', 'J', '0']), ({'base': 'string', 'format': '[a-c]+'}, ['abc', 'x']),
      ({'base': 'string', 'minLength': 2, 'maxLength': 3}, ['ab', 'a', 'abcd']), ({'base': 'integer', 'minimum': 2, 'maximum': 5}, ['2', '1', '6']), ('json', ['{"a": [1]}', '{']), ('duration', ['P1Y2M', 'x']),
      ('base64Binary', ['YWJj', '?']), ('anyURI', ['http://example.org/ä']), ('float', ['1.5', 'NaN'])]


def generate(r, i, tier):
    groups = []
    for gi in range(r.choice([1, 1, 2, 3])):
        if r.random() < .3:
            g = dbmodel.group(r, ntables=r.choice([1, 2, 3]), nrows=r.choice([1, 2, 4]))
            g['dbable'] = True
        else:
            gd = model.dialect(r, plain=.4)
            g = {'dialect': gd, 'tables': [model.table(r, model.url(r, k, ['t%d.csv'] * 3), group_dialect=gd, own_dialect=.3, titles=True, nrows=r.choice([0, 1, 2, 3, 5, 9]) if r.random() < .97 else r.choice([60, 300])) for k in range(r.choice([1, 2, 3]))]}
            for t in g['tables']:
                if r.random() < .3:
                    model.decorate(r, t)
        g['zip'] = [r.random() < .25 for _ in g['tables']]
        g['comments'] = [[gen.ident(r) for _ in range(r.choice([0, 0, 1, 2]))] for _ in g['tables']]
        groups.append(g)
    tasks = []
    focus = r.choice([None, None, 'iter', 'write', 'reader', 'json', 'edit'])
    for _ in range(r.choice([2, 2, 3, 3, 4, 5])):
        k = focus if focus and r.random() < .6 else r.choice(KINDS)
        t = {'kind': k, 'g': r.randint(0, len(groups) - 1), 't': r.randint(0, 3), 'seed': r.randint(0, 10**6), 'shared': r.random() < .5, 'var': r.randint(0, 7)}
        if k in ('db', 'check', 'keys'):
            ok = [j for j, g in enumerate(groups) if g.get('dbable')]
            if not ok:
                t['kind'] = k = 'iter'
            else:
                t['g'] = r.choice(ok)
        if k in ('reader', 'edit', 'unicodewriter', 'rejson'):
            t['rows'] = [[gen.cell(r, 'uni', maxlen=6) for _ in range(2)] for _ in range(r.choice([1, 2, 4, 8]))]
            t['comments'] = [gen.ident(r) for _ in range(r.choice([0, 1, 2]))]
            t['delim'] = r.choice([',', ';', '\t', '|'])
        if k == 'reader':
            t['head'] = r.choice([['c0', 'c1'], ['c1', 'c0'], ['x', 'y'], ['c0', 'c 0'], ['b x', 'a']])
        if k == 'datatype':
            t['dts'] = [r.choice(DT) for _ in range(r.randint(1, 4))]
        tasks.append(t)
    if r.random() < .25:
        # the same work several times, only the data differ
        tasks = [dict(tasks[0], seed=tasks[0]['seed'] + k, t=tasks[0]['t'] + k * r.randint(0, 1)) for k in range(len(tasks))]
    plans = []
    for _ in range(r.randint(4, 6)):
        x = r.random()
        if x < .35:
            plans.append({'mode': 'switch', 'opcodes': r.random() < .3, 'points': [[r.randint(0, len(tasks) - 1), round(r.random(), 4), r.randint(0, len(tasks) - 1)] for _ in range(r.choice([1, 2, 2, 3, 6]))]})
        elif x < .6:
            plans.append({'mode': 'every', 'opcodes': r.random() < .3, 'every': r.choice([2, 5, 20, 60, 300]), 'seed': r.randint(0, 10**6)})
        else:
            plans.append({'mode': 'gen', 'seed': r.randint(0, 10**6), 'pump': r.choice([0, .3, .7, 1])})
        if r.random() < .2:
            plans[-1]['faults'] = gen.legal_plan(r)
        elif r.random() < .15:
            plans[-1]['faults'] = [{'kind': 'ERRNO', 'cls': r.choice(['READ', 'WRITE', 'OPENR', 'OPENW']), 'arg': 'EIO', 'frac': round(r.random(), 4), 'times': 1}]
    return {'groups': groups, 'tasks': tasks, 'plans': plans}


def valid(s):
    try:
        return all(a['g'] < len(s['groups']) for a in s['tasks']) and all(len(g['zip']) == len(g['comments']) == len(g['tables']) > 0 for g in s['groups'])
    except KeyError:
        return False


def execute(s, w):
    groups, tasks = s['groups'], s['tasks']

    def gdir(j):
        return w.data / ('g%d' % j)

    def has_comments(j, k):
        g = groups[j]
        t = g['tables'][k]
        d = model.effective(g, t)
        return bool(d.get('commentPrefix')) and g['comments'][k] and lib.encoding(d).startswith('utf-8')

    def prepare():
        from csvw import TableGroup
        for j, g in enumerate(groups):
            tg = TableGroup.from_file(gdir(j) / 'md.json')
            for k, t in enumerate(g['tables']):
                tg.tabledict[t['url']].write(lib.items(t))
                p = gdir(j) / t['url']
                if has_comments(j, k):
                    d = model.effective(g, t)
                    pre = ''.join('%s%s\r\n' % (d['commentPrefix'], c) for c in g['comments'][k])
                    data = p.read_bytes()
                    bom = b'\xef\xbb\xbf' if data.startswith(b'\xef\xbb\xbf') else b''
                    p.write_bytes(bom + pre.encode('utf-8') + data[len(bom):])
                if g['zip'][k]:
                    with zipfile.ZipFile(str(p) + '.zip', 'w') as z:
                        z.write(str(p), arcname=p.name)
                    p.unlink()

    def dialect(a):
        import csvw
        return csvw.Dialect(delimiter=a['delim'], commentPrefix='#', header=True)

    def text(a, rows):
        return ''.join('#%s\r\n' % c for c in a['comments']) + gen.serialise([a.get('head', ['c0', 'c1'])] + rows, a['delim'])

    # -- the tasks: generators, so that they can be interleaved in one thread -------------------------
    def group(objs, a):
        from csvw import TableGroup
        if a['shared']:
            return objs[a['g']]
        return TableGroup.from_file(gdir(a['g']) / 'md.json')

    def pick(g, a):
        return a['t'] % len(g['tables'])

    def table(objs, a):
        return group(objs, a).tables[pick(groups[a['g']], a)]

    def row3(x):
        return [pathlib.Path(str(x[0])).name, x[1], model.canon_row(x[2])]

    def t_iter(n, a, objs, pump):
        out = []
        for x in table(objs, a).iterdicts(with_metadata=True, strict=a['var'] % 2 == 0):
            # Rows which are kept are not touched by what comes later.
            out.append(x if a['var'] >= 4 else row3(x))
            yield
        return [row3(x) for x in out] if a['var'] >= 4 else out

    def spoil(row):
        """Rows belong to those who asked for them: changes do not show up anywhere else."""
        for k, v in list(row.items()):
            if isinstance(v, (list, dict)):
                v.clear()
            elif len(str(k)) % 2:
                row[k] = 'changed'
            else:
                del row[k]
        row['another key'] = 'x'

    def t_twice(n, a, objs, pump):
        t = table(objs, a)
        out = []
        for k in range(2):
            rows = []
            for x in t.iterdicts(with_metadata=True) if a['var'] < 4 else t:
                rows.append(row3(x if a['var'] < 4 else ('', len(rows) + 1, x)))
                if not k and a['var'] % 2:
                    spoil(x[2] if a['var'] < 4 else x)
                yield
            out.append(rows)
        if out[0] != out[1]:
            raise AssertionError('iterating twice over the same table gives different rows: ' + lib.first_diff(out[1], out[0]))
        return out

    def t_nest(n, a, objs, pump):
        t = table(objs, a)
        out, inner = [], []
        for x in itertools.islice(t.iterdicts(with_metadata=True), 4):
            out.append(row3(x))
            rows = []
            for y in t.iterdicts(with_metadata=True):
                rows.append(row3(y))
                yield
            inner.append(rows)
        if any(x != inner[0] for x in inner) or inner and inner[0][:len(out)] != out:
            raise AssertionError('nested iterations over the same table give different rows: %r' % inner)
        return out

    def t_other(n, a, objs, pump):
        """The table object reads another file, with the columns in another order."""
        from csvw import TableGroup
        g = groups[a['g']]
        t = g['tables'][pick(g, a)]
        d = model.effective(g, t)
        tab = table(objs, a)
        if not d.get('header', True) or d.get('headerRowCount') == 0:
            return [row3(x) for x in tab.iterdicts(with_metadata=True)]
        new = TableGroup.from_file(gdir(a['g']) / 'md.json').tabledict[t['url']]
        cols = new.tableSchema.columns
        cols[:] = [c for c in cols if not c.virtual][::-1] + [c for c in cols if c.virtual]
        yield
        new.write(lib.items(t), fname=w.data / ('o%d.csv' % n))
        yield
        out = []
        for x in tab.iterdicts(with_metadata=True, fname=w.data / ('o%d.csv' % n)):
            out.append(row3(x))
            yield
        got = sorted(json.dumps(sorted(x[2].items() if isinstance(x[2], dict) else x[2]), default=repr) for x in out)
        want = sorted(json.dumps(sorted(y[2].items() if isinstance(y[2], dict) else y[2]), default=repr) for y in map(row3, tab.iterdicts(with_metadata=True)))
        prefix = d.get('commentPrefix', '#')
        if prefix and any(x.startswith(prefix) for x in (w.data / ('o%d.csv' % n)).read_text(lib.ENC.get(d.get('encoding', 'utf-8'), d.get('encoding', 'utf-8'))).splitlines()):
            return out  # data which looks like a comment when it comes first
        if a['var'] % 2 and got != want:
            raise AssertionError('a copy of the file with the columns in another order gives other rows: ' + lib.first_diff(got, want))
        return out

    def t_close(n, a, objs, pump):
        t = table(objs, a)
        it = t.iterdicts(with_metadata=True)
        out = []
        for x in it:
            out.append(row3(x))
            yield
            if len(out) == 1 + a['var'] % 3:
                it.close()
                break
        yield
        return out + [row3(x) for x in t.iterdicts(with_metadata=True)]

    def t_reader(n, a, objs, pump):
        from csvw import dsv
        src = [str(w.data / ('r%d.csv' % n)), w.data / ('r%d.csv' % n), text(a, a['rows']).splitlines(True)][a['var'] % 3]
        cls = [dsv.UnicodeReader, dsv.UnicodeReaderWithLineNumber, dsv.UnicodeDictReader, dsv.NamedTupleReader][a['seed'] % 4]
        out = []
        with cls(src, dialect=dialect(a)) as r:
            for x in r:
                out.append(list(x.items()) if hasattr(x, 'items') else list(x._asdict().items()) if hasattr(x, '_asdict') else [x[0], x[1]] if isinstance(x, tuple) else x)
                yield
            comments = r.comments
        return [out, comments, getattr(r, 'fieldnames', None) if isinstance(r, dsv.UnicodeDictReader) else None]

    def source(items, pump):
        for x in items:
            pump()
            yield x

    def t_write(n, a, objs, pump):
        j = a['g']
        g = groups[j]
        t = g['tables'][pick(g, a)]
        tab = table(objs, a)
        out = w.data / ('w%d' % n)
        items = lib.items(t, 'mixed', a['seed'])
        res = []
        if a['var'] % 4 == 0:
            data = tab.write(source(items, pump), fname=None)
            yield
            return data.hex()
        res.append(tab.write(source(items, pump), base=out, _zipped=a['var'] % 4 == 1))
        yield
        res.append([row3(x) for x in tab.iterdicts(with_metadata=True, fname=out / t['url'])])
        return res

    def t_groupwrite(n, a, objs, pump):
        from csvw import TableGroup
        g = groups[a['g']]
        tg = group(objs, a)
        out = w.data / ('w%d' % n)
        tg.write(out / 'md.json', _zipped=a['var'] % 3 == 0, **{t['url']: source(lib.items(t), pump) for t in g['tables']})
        yield
        new = TableGroup.from_file(out / 'md.json')
        yield
        return {t.local_name: [model.canon_row(x) for x in t] for t in new.tables}

    def t_unicodewriter(n, a, objs, pump):
        from csvw import dsv
        f = None if a['var'] % 2 else w.data / ('u%d.csv' % n)
        with dsv.UnicodeWriter(f, delimiter=a['delim']) as wr:
            wr.writerow(['c0', 'c1'])
            for x in a['rows'][:2]:
                wr.writerow(x)
                yield
            wr.writerows(source(a['rows'][2:], pump))
            yield
            if f is None:
                return wr.read().hex()
        return None

    def t_edit(n, a, objs, pump):
        from csvw import dsv
        f = w.data / ('r%d.csv' % n)
        kw = {'delimiter': a['delim']}

        def visit(i, row):
            pump()
            return None if i % 5 == 3 else row[::-1]

        def keep(d):
            pump()
            return len(d.get('c0', d.get('c1', ''))) % 3 != 0
        res = []
        for step in random.Random(a['seed']).sample(['rewrite', 'filter', 'add'], 2):
            if step == 'rewrite':
                dsv.rewrite(f, visit, **kw)
            elif step == 'filter':
                res.append(dsv.filter_rows_as_dict(f, keep, **kw))
            elif a['delim'] == ',':
                dsv.add_rows(str(f), *a['rows'])
            yield
            res.append(list(dsv.reader(f, **kw)))
            yield
        return res

    def t_db(n, a, objs, pump):
        from csvw.db import Database
        g = groups[a['g']]
        tg = group(objs, a)
        fname = None if a['var'] % 3 == 0 else w.data / ('d%d.sqlite' % n)
        db = Database(tg, fname=fname, translate=dbmodel.translator(dbmodel.TRANS[a['var'] % len(dbmodel.TRANS)]))
        yield
        if a['var'] % 2:
            db.write(**{t['url']: source([model_row(x) for x in tg.tabledict[t['url']]], pump) for t in g['tables']})
        else:
            db.write_from_tg()
        yield
        return dbmodel.read_db(db)

    def model_row(x):
        return x

    def t_json(n, a, objs, pump):
        from csvw import CSVW
        out = []
        for k in range(1 + a['var'] % 2):
            c = CSVW(str(gdir(a['g']) / 'md.json'))
            yield
            out.append(json.dumps(c.to_json(minimal=a['var'] % 4 == 3), default=repr))
            yield
        return out

    def t_rejson(n, a, objs, pump):
        """The data change between two conversions by the same object."""
        from csvw import CSVW
        p = w.data / ('r%d.csv' % n)
        md = w.data / ('k%d.json' % n)
        c = CSVW(str(md))
        out = [json.dumps(c.to_json())]
        yield
        if a['delim'] == ',':
            b = dict(a, comments=[[], ['other'], ['only', 'comments']][a['var'] % 3])
            p.write_bytes((text(b, a['rows'][1:]) if a['var'] < 4 else ''.join('#%s\r\n' % x for x in b['comments'])).encode('utf-8'))
            again = json.dumps(c.to_json())
            yield
            new = json.dumps(CSVW(str(md)).to_json())
            if again != new:
                raise AssertionError('converting again does not give what the file now holds: %s' % lib.first_diff(json.loads(again), json.loads(new)))
            out.append(again)
        return out

    def t_markdown(n, a, objs, pump):
        from csvw.utils import metadata2markdown
        tg = group(objs, a)
        out = [metadata2markdown(tg, link_files=False)]
        yield
        out.append(metadata2markdown(tg, link_files=False))
        return out

    def t_describe(n, a, objs, pump):
        tg = group(objs, a)
        out = [json.dumps(tg.asdict(omit_defaults=a['var'] % 2 == 0))]
        yield
        tg.to_file(w.data / ('m%d.json' % n))
        yield
        out.append((w.data / ('m%d.json' % n)).read_text(encoding='utf-8'))
        return out

    def t_keys(n, a, objs, pump):
        tg = group(objs, a)
        out = []
        for t in tg.tables:
            try:
                out.append(t.check_primary_key())
            except (ValueError, TypeError) as e:
                out.append(type(e).__name__)
            yield
        return out

    def t_check(n, a, objs, pump):
        tg = group(objs, a)
        try:
            yield
            return tg.check_referential_integrity()
        except (ValueError, TypeError) as e:
            return [type(e).__name__]

    def t_datatype(n, a, objs, pump):
        from csvw import Datatype
        out = []
        for spec, vals in a['dts']:
            dt = Datatype.fromvalue(dict(spec) if isinstance(spec, dict) else spec)
            yield
            for v in vals:
                try:
                    x = dt.read(v)
                    out.append([model.canon(x), dt.formatted(x)])
                except (ValueError, KeyError, AssertionError) as e:
                    out.append(type(e).__name__)
                yield
        return out

    def t_error(n, a, objs, pump):
        """Data which cannot be read completely."""
        from csvw import Table
        p = w.data / ('e%d.csv' % n)
        t = Table.fromvalue({'url': 'e%d.csv' % n, 'tableSchema': {'columns': [{'name': 'c0', 'datatype': 'integer'}, {'name': 'c1', 'required': True}]}})
        t._fname = w.data / 'm.json'
        out = []
        try:
            for x in t.iterdicts(with_metadata=True, fname=p):
                out.append(row3(x))
                yield
        except ValueError as e:
            out.append(str(e).replace(str(w.root), '<R>'))
        yield
        log = Log()
        for x in t.iterdicts(with_metadata=True, fname=p, log=log):
            out.append(row3(x))
            yield
        return out, log.msgs

    class Log:
        def __init__(self):
            self.msgs = []

        def warning(self, m, *a):
            self.msgs.append(m.replace(str(w.root), '<R>'))
        error = info = debug = warning

    impl = {k[2:]: f for k, f in list(locals().items()) if k.startswith('t_')}

    def normalised(f):
        """Outcome of a task as JSON; the errors of the library are part of it."""
        try:
            return ['ok', lib.norm(f())]
        except AssertionError as e:
            return ['assert', str(e).replace(str(w.root), '<R>')[:1500]]
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            if tb.tb_frame.f_code.co_filename == __file__ and isinstance(e, (LookupError, NameError, AttributeError)):
                raise
            return ['exc', type(e).__name__, str(e).replace(str(w.root), '<R>')[:800]]

    def exhaust(it):
        while True:
            try:
                next(it)
            except StopIteration as e:
                return e.value

    def objects():
        from csvw import TableGroup
        return {j: TableGroup.from_file(gdir(j) / 'md.json') for j in range(len(groups))}

    def alone(n, opcodes=None):
        def f():
            objs = objects()
            one = (lambda: normalised(lambda: exhaust(impl[tasks[n]['kind']](n, tasks[n], objs, lambda: None))))
            if opcodes is None:
                return [one()]
            sc = sched.Sched(opcodes=opcodes)
            return [x[1] for x in sc.run([one])] + [sc.steps]
        return f

    def together(plan, steps):
        def threads():
            objs = objects()
            sw = [[a, 1 + int(frac * steps[a]), b] for a, frac, b in plan.get('points', []) if a < len(tasks)]
            sc = sched.Sched(sw, every=plan.get('every', 0), seed=plan.get('seed', 0), opcodes=plan['opcodes'])
            fns = [(lambda n=n: normalised(lambda: exhaust(impl[tasks[n]['kind']](n, tasks[n], objs, lambda: None)))) for n in range(len(tasks))]
            res = sc.run(fns)
            return [x[1] if x[0] == 'ok' else ['died', repr(x[1])] for x in res], sc.nswitch, sc.log[:200], sc.watchdog

        def single():
            objs = objects()
            rng = random.Random(plan['seed'])
            gens, res, busy = {}, {}, set()
            log = []

            def step(n):
                busy.add(n)
                log.append(n)
                try:
                    next(gens[n])
                except StopIteration as e:
                    res[n] = normalised(lambda: e.value)
                except Exception as e:
                    def again(e=e):
                        raise e
                    res[n] = normalised(again)
                busy.discard(n)

            def live():
                return [n for n in gens if n not in res and n not in busy]

            def pump():
                # called from inside a task: let other tasks advance meanwhile
                while rng.random() < plan['pump'] and len(busy) < 4:
                    ns = live()
                    if not ns:
                        return
                    step(rng.choice(ns))
                    if rng.random() < .5:
                        return
            for n, a in enumerate(tasks):
                gens[n] = impl[a['kind']](n, a, objs, pump)
            while live():
                n = rng.choice(live())
                for _ in range(rng.choice([1, 1, 1, 2, 5])):
                    if n not in res:
                        step(n)
            switches = sum(1 for x, y in zip(log, log[1:]) if x != y)
            return [res[n] for n in range(len(tasks))], switches, log[:200], 0
        return single if plan['mode'] == 'gen' else threads

    def tree():
        """The files; archives by their content, since they also hold the time at which they were written."""
        res = w.tree(w.data)
        for k, v in res.items():
            if k.endswith('.zip'):
                try:
                    with zipfile.ZipFile(io.BytesIO(v)) as z:
                        res[k] = [(m, z.read(m)) for m in z.namelist()]
                except (zipfile.BadZipFile, EOFError):
                    pass
        return res

    # -- the world --------------------------------------------------------------------------
    for j, g in enumerate(groups):
        gdir(j).mkdir()
        (gdir(j) / 'md.json').write_text(json.dumps(model.group_json(g)), encoding='utf-8')
    for n, a in enumerate(tasks):
        if a['kind'] in ('write', 'groupwrite'):
            (w.data / ('w%d' % n)).mkdir()
        if a['kind'] in ('reader', 'edit', 'rejson'):
            b = a if a['kind'] != 'edit' else dict(a, comments=[])
            (w.data / ('r%d.csv' % n)).write_bytes(text(b if a['kind'] != 'rejson' else dict(b, delim=','), a['rows']).encode('utf-8'))
        if a['kind'] == 'rejson':
            (w.data / ('k%d.json' % n)).write_text(json.dumps({
                '@context': 'http://www.w3.org/ns/csvw', 'url': 'r%d.csv' % n, 'dialect': {'commentPrefix': '#', 'header': a['var'] % 2 == 0},
                'tableSchema': {'columns': [{'name': 'c0', 'titles': 'c0'}, {'name': 'c1', 'titles': 'c1'}]}}), encoding='utf-8')
        if a['kind'] == 'error':
            (w.data / ('e%d.csv' % n)).write_bytes(b'c0,c1\r\n1,a\r\n2,\r\nx,b\r\n3,c\r\ny,d\r\n')
    o = w.victim(prepare, count=False)
    if not o.ok:
        w.fail('prepare', 'writing the tables failed: %r\n%s' % (o, o.tb))
    saved = w.save()
    before = tree()
    want, files, steps = [], [], {}
    modes = {p['opcodes'] for p in s['plans'] if p['mode'] == 'switch'}
    counts = {}
    for n, a in enumerate(tasks):
        w.restore(saved)
        o = w.victim(alone(n))
        if not o.ok:
            w.fail('error', 'task %s failed: %r\n%s' % (a['kind'], o, o.tb))
        for k, v in o.counts.items():
            counts[k] = counts.get(k, 0) + v
        res = o.value[0]
        if res[0] == 'assert':
            w.fail('again', 'task %s alone: %s' % (a['kind'], res[1]))
        if res[0] == 'exc' and a['kind'] not in ('json', 'markdown', 'check', 'keys'):
            w.fail('alone-' + res[1], 'task %s of %s failed alone: %s' % (a['kind'], a, res))
        check_model(s, w, n, a, res)
        want.append(res)
        after = tree()
        files.append({k: v for k, v in after.items() if before.get(k) != v})
        if any(k not in after for k in before):
            w.fail('removed', 'task %s removed %s' % (a['kind'], [k for k in before if k not in after]))
        for m in modes:
            w.restore(saved)
            o = w.victim(alone(n, m), count=False)
            steps[n, m] = o.value[1]
    for plan in s['plans']:
        w.restore(saved)
        faults = place(plan.get('faults', []), counts)
        if faults is None:
            faults = []
        o = w.victim(together(plan, {n: steps.get((n, plan.get('opcodes')), 1) for n in range(len(tasks))}), faults)
        ctx = 'tasks %s; schedule %s' % ([a['kind'] for a in tasks], dict(plan, faults=faults))
        if o.status == 'hang':
            w.fail('hang', ctx)
        errors = any(f['kind'] == 'ERRNO' for f in faults) and o.fired.get('ERRNO')
        if not o.ok:
            if errors:
                continue
            w.fail('error', 'the tasks fail together: %r; %s\n%s' % (o, ctx, o.tb))
        got, switches, log, dog = o.value
        if switches:
            w.nontrivial += 1
        w.probe(plan['mode'])
        w.probe('switches', switches)
        if dog:
            w.probe('watchdog', dog)
        w.state(log)
        w.record(plan['mode'], log, [x[0] for x in got])
        off = [n for n in range(len(tasks)) if got[n] != want[n]]
        if errors and len(off) == 1 and got[off[0]][0] == 'exc':
            w.probe('failed_alone')
            excused = off[0]
        else:
            excused = None
            if off:
                n = off[0]
                w.fail('interference', 'task %d (%s) does not produce what it produces alone: %s; %s; first switches %s' % (
                    n, tasks[n]['kind'], lib.first_diff(got[n], want[n]), ctx, log[:6]))
        after = tree()
        expected = dict(before)
        for n, f in enumerate(files):
            if n != excused:
                expected.update(f)
        for k in sorted(set(expected) | set(after)):
            if expected.get(k) != after.get(k):
                if excused is not None and (k in files[excused] or k not in before or k == 'r%d.csv' % excused):
                    continue
                w.fail('files', 'the file %s is %s than when the tasks run alone; %s' % (k, 'missing' if k not in after else 'another', ctx))
        if o.fds:
            w.fail('leak', 'files left open: %s; %s' % (o.fds, ctx))
        if w.sample is None and switches:
            w.sample = {'tasks': [a['kind'] for a in tasks], 'schedule': plan, 'switches': log[:10], 'outcomes': [x[0] for x in got]}


def check_model(s, w, n, a, res):
    """What the task gives alone agrees with the reference model."""
    g = s['groups'][a['g']]
    if a['kind'] in ('iter', 'twice') and res[0] == 'ok':
        t = g['tables'][a['t'] % len(g['tables'])]
        want = lib.norm(model.expected_rows(t))
        for rows in ([res[1]] if a['kind'] == 'iter' else res[1]):
            got = [x[2] for x in rows]
            if got != want and not (a['kind'] == 'iter' and a['var'] % 2):
                w.fail('rows', 'rows read alone are not those written: %s' % lib.first_diff(got, want))
            nums = [x[1] for x in rows]
            if nums != sorted(set(nums)):
                w.fail('rows', 'line numbers do not increase: %s' % nums)
