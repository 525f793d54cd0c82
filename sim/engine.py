"""Driver: seeded generation of scenarios, worker pool, confirmation, minimisation, replay, evidence."""
import collections
import copy
import glob
import ctypes
import hashlib
import importlib
import json
import os
import random
import selectors
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SO = os.path.join(HERE, 'build', 'libsimfs.so')
CSRC = os.path.join(HERE, 'sim', 'simfs.c')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SOFT_LIMIT = {'quick': 600, 'thorough': 6 * 3600}

CONFIGS = {
    'base': {'PYTHONHASHSEED': '1', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'},
    'hash2': {'PYTHONHASHSEED': '2', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'},
    'hash3': {'PYTHONHASHSEED': '12345', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'},
    'hash4': {'PYTHONHASHSEED': '977', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'},
    'kiritimati': {'PYTHONHASHSEED': '1', 'LANG': 'xx_YY.UTF-8', 'TZ': '<+14>-14'},
    'newyork': {'PYTHONHASHSEED': '1', 'PYTHONCOERCECLOCALE': '0', 'TZ': 'EST5EDT,M3.2.0,M11.1.0'},
    'clocale': {'PYTHONHASHSEED': '1', 'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'TZ': 'UTC'},
    'germany': {'PYTHONHASHSEED': '1', 'LC_ALL': 'C.UTF-8', 'LC_NUMERIC': 'de_DE.UTF-8', 'LANG': 'de_DE.UTF-8',
                'LANGUAGE': 'de', 'TZ': 'CET-1CEST,M3.5.0,M10.5.0/3'},
}


LIBC = ctypes.CDLL(None)


def fixed_layout():
    """No randomised addresses: orders which depend on them repeat. Seeded allocations vary them instead (C15)."""
    LIBC.personality(0x0040000)


def build_shim():
    if os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(CSRC):
        return
    os.makedirs(os.path.dirname(SO), exist_ok=True)
    tmp = SO + '.%d' % os.getpid()
    cc = shutil.which('gcc') or shutil.which('cc') or shutil.which('clang')
    subprocess.check_call([cc, '-O2', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-shared', '-fPIC',
                           '-o', tmp, CSRC, '-ldl'])
    os.replace(tmp, SO)


def rng_for(seed, prop, i):
    return random.Random(int.from_bytes(
        hashlib.sha256('{}|{}|{}'.format(seed, prop, i).encode()).digest()[:16], 'big'))


def scratch_base():
    for d in ('/dev/shm', os.environ.get('TMPDIR') or '/tmp', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 200 << 20:
                    return d
            except OSError:
                pass
    return '/tmp'


class Worker:
    def __init__(self, config, scratch, props):
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'VERIF_REPO', 'LD_LIBRARY_PATH')}
        env.update(CONFIGS[config])
        env.update({'LD_PRELOAD': SO, 'PYTHONDONTWRITEBYTECODE': '1', 'NO_PROXY': '*', 'PYTHONUNBUFFERED': '1'})
        self.config, self.scratch = config, scratch
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'sim', 'worker.py'), scratch, ','.join(props)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE,
                                  preexec_fn=fixed_layout)
        self.buf = b''
        self.job = None
        self.ready = False

    def send(self, job):
        self.job = job
        self.p.stdin.write(json.dumps(job).encode() + b'\n')
        self.p.stdin.flush()

    def receive(self):
        """One message, or None if more input is needed."""
        c = os.read(self.p.stdout.fileno(), 1 << 20)
        if not c:
            raise RuntimeError('worker died (exit %r)' % self.p.wait())
        self.buf += c
        if b'\n' in self.buf:
            line, self.buf = self.buf.split(b'\n', 1)
            return json.loads(line)

    def wait(self):
        while True:
            m = self.receive()
            if m is not None:
                return m

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class Engine:
    strict = False  # scenarios the harness itself stumbles over do not count (as candidates of minimisation)

    def __init__(self, prop, tier, seed, workers=None):
        build_shim()
        self.prop, self.tier, self.seed = prop, tier, seed
        self.nworkers = workers or int(os.environ.get('VERIF_WORKERS') or min(8, os.cpu_count() or 1))
        sys.path.insert(0, HERE)
        self.mod = importlib.import_module('props.' + prop.lower())
        self.base = os.path.join(scratch_base(), 'csvwsim-%d' % os.getpid())
        if os.path.exists(self.base):
            shutil.rmtree(self.base)
        os.makedirs(self.base)
        self.workers = []
        self.nw = 0

    # -- pool -----------------------------------------------------------------------------
    def spawn(self, config):
        w = Worker(config, os.path.join(self.base, 'w%03d' % self.nw), [self.prop])
        self.nw += 1
        self.workers.append(w)
        return w

    def close(self):
        for w in self.workers:
            w.close()
        shutil.rmtree(self.base, ignore_errors=True)

    def configs(self, scn):
        return self.mod.configs(scn) if hasattr(self.mod, 'configs') else ['base']

    def worker(self, config):
        for w in self.workers:
            if w.config == config and w.job is None:
                break
        else:
            w = self.spawn(config)
        if not w.ready:
            w.wait()
            w.ready = True
        return w

    def run_one(self, scn, config):
        w = self.worker(config)
        w.send({'prop': self.prop, 'scn': scn, 'timeout': getattr(self.mod, 'TIMEOUT', 300), 'strict': self.strict})
        res = w.wait()
        w.job = None
        return res

    def run_scenario(self, scn):
        results = [(c, self.run_one(scn, c)) for c in self.configs(scn)]
        return results, self.judge(scn, results)

    def judge(self, scn, results):
        """-> violation dict or None; raises on harness errors."""
        for c, r in results:
            if 'violation' in r:
                return dict(r['violation'], config=c)
            if r.get('hang'):
                return {'cls': 'hang', 'sig': 'hang', 'msg': 'the run made no progress', 'config': c}
            if 'error' in r:
                raise RuntimeError('harness error in %s under %s:\n%s' % (self.prop, c, r['error']))
        if hasattr(self.mod, 'judge') and len(results) > 1:
            v = self.mod.judge(scn, [(c, r) for c, r in results])
            if v:
                return v

    # -- batch ----------------------------------------------------------------------------
    def batch(self, n, known):
        cov = Coverage()
        t0 = time.time()
        limit = float(os.environ.get('VERIF_SOFT_LIMIT') or SOFT_LIMIT[self.tier])
        todo = iter(range(n))
        sel = selectors.DefaultSelector()
        first = self.mod.generate(rng_for(self.seed, self.prop, 0), 0, self.tier)
        groups = self.configs(first)
        ngroups = len(groups)
        per = -(-self.nworkers // ngroups)
        pool = {c: [self.spawn(c) for _ in range(per)] for c in groups}
        for ws in pool.values():
            for w in ws:
                sel.register(w.p.stdout, selectors.EVENT_READ, w)
        queue = {c: collections.deque() for c in groups}
        pending = {}       # index -> (scn, {config: result})
        found, knownhits, errors = [], [], []
        exhausted = False

        def refill():
            nonlocal exhausted
            while not exhausted and len(pending) < self.nworkers * 3 and not found:
                if time.time() - t0 > limit:
                    cov.truncated = True
                    exhausted = True
                    break
                i = next(todo, None)
                if i is None:
                    exhausted = True
                    break
                scn = self.mod.generate(rng_for(self.seed, self.prop, i), i, self.tier)
                scn['_i'] = i
                pending[i] = (scn, {})
                for c in groups:
                    queue[c].append(i)

        def feed():
            refill()
            for c, ws in pool.items():
                for w in ws:
                    if w.ready and w.job is None and queue[c]:
                        i = queue[c].popleft()
                        w.send({'prop': self.prop, 'scn': pending[i][0], 'i': i,
                                'timeout': getattr(self.mod, 'TIMEOUT', 300)})

        try:
            while True:
                feed()
                if not pending or found:
                    break
                for key, _ in sel.select(timeout=5):
                    w = key.data
                    m = w.receive()
                    if m is None:
                        continue
                    if not w.ready:
                        w.ready = True
                        continue
                    i = w.job['i']
                    w.job = None
                    scn, res = pending[i]
                    res[w.config] = m
                    if len(res) == ngroups:
                        del pending[i]
                        results = [(c, res[c]) for c in groups]
                        cov.add(scn, results)
                        try:
                            v = self.judge(scn, results)
                        except RuntimeError as e:
                            errors.append((scn, str(e)))
                            continue
                        if v:
                            if v['sig'] in known:
                                knownhits.append((v, scn))
                            else:
                                found.append((v, scn))
            # drain the jobs still running so that the pool can be reused
            for w in self.workers:
                if not w.ready:
                    w.wait()
                    w.ready = True
                if w.job is not None:
                    w.wait()
                    w.job = None
        finally:
            sel.close()
        cov.wall = time.time() - t0
        return cov, found, knownhits, errors

    # -- confirmation and minimisation ------------------------------------------------------
    def fails(self, scn, cls):
        try:
            _, v = self.run_scenario(scn)
        except RuntimeError:
            return None
        return v if v and v['cls'] == cls else None

    def minimise(self, scn, cls, seconds=60, evals=250):
        t0, n = time.time(), 0
        best = copy.deepcopy(scn)
        progress = True
        self.strict = True
        while progress and n < evals and time.time() - t0 < seconds:
            progress = False
            for cand in candidates(best, getattr(self.mod, 'KEEP', ())):
                if n >= evals or time.time() - t0 > seconds:
                    break
                if not consistent(cand) or not valid(self.mod, cand):
                    continue
                n += 1
                if self.fails(cand, cls):
                    best = cand
                    progress = True
                    break
        self.strict = False
        return best, n

    def determinism(self, k):
        """Run k scenarios in two more fresh interpreters (one with another hash seed) and compare traces."""
        same = diff = 0
        bad = []
        for i in range(k):
            scn = self.mod.generate(rng_for(self.seed, self.prop, i), i, self.tier)
            scn['_i'] = i
            a = self.run_one(scn, 'base')
            b = self.run_one(scn, 'hash2')
            if a.get('trace') == b.get('trace') and a.get('trace'):
                same += 1
            else:
                diff += 1
                bad.append(i)
        return {'compared': k, 'identical': same, 'different': diff, 'indices_different': bad}


# strings with a meaning: shortening them gives another scenario, not a smaller one
FIXED = ('kind', 'bad', 'as', 'fname', 'cls', 'arg', 'op', 'mode', 'type', 'base', 'name', 'how', 'trans', 'src', 'form', 'old', 'reader', 'read', 'url', 'datatype',
         'separator', 'pk', 'cols', 'refcols', 'ref', 'columnReference', 'primaryKey', 'encoding', 'dialect', 'framing', 'pieces', 'ctype', 'damage',
         'dir', 'tables', 'method', 'minimum', 'maximum', 'format', 'trim', 'delimiter', 'quoteChar', 'commentPrefix', 'lineTerminators')


def valid(mod, scn):
    try:
        return not hasattr(mod, 'valid') or mod.valid(scn)
    except (LookupError, TypeError, AttributeError):
        return False    # something is missing


def consistent(x):
    """Do all tables in the scenario still make sense (after removing parts of it)?"""
    if isinstance(x, dict):
        if isinstance(x.get('columns'), list) and isinstance(x.get('rows'), list):
            cols = x['columns']
            if not cols or not all(isinstance(c, dict) and (c.get('name') or c.get('titles')) for c in cols) or not x.get('url'):
                return False
            if not all(isinstance(r, list) and len(r) == len(cols) for r in x['rows']):
                return False
            names = [c.get('name') for c in cols]
            if any(k not in names for k in x.get('pk') or ()):
                return False
            for f in x.get('fks') or ():
                if not isinstance(f, dict) or not f.get('cols') or any(k not in names for k in f['cols']) or len(f['cols']) != len(f.get('refcols', ())):
                    return False
        if isinstance(x.get('tables'), list):
            if not x['tables']:
                return False
            urls = {t.get('url'): t for t in x['tables'] if isinstance(t, dict)}
            for t in urls.values():
                for f in t.get('fks') or ():
                    if isinstance(f, dict) and (f.get('ref') not in urls or any(
                            k not in [c.get('name') for c in urls[f['ref']]['columns']] for k in f.get('refcols', ()))):
                        return False
        return all(consistent(v) for v in x.values())
    if isinstance(x, list):
        return all(consistent(v) for v in x)
    return True


def candidates(scn, keep=()):
    """Smaller scenarios, most aggressive first."""
    paths = []

    def walk(x, path):
        if path and path[0] in keep or (path and path[0] == '_i'):
            return
        paths.append((path, x))
        if isinstance(x, dict):
            for k in x:
                walk(x[k], path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                walk(v, path + (i,))
    walk(scn, ())

    def get(root, path):
        for p in path:
            root = root[p]
        return root

    def replaced(path, v):
        c = copy.deepcopy(scn)
        if not path:
            return v
        get(c, path[:-1])[path[-1]] = v
        return c
    lists = sorted([(p, x) for p, x in paths if isinstance(x, list) and x], key=lambda t: (len(t[0]), -len(t[1])))
    for p, x in lists:
        n = len(x)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                new = x[:start] + x[start + size:]
                yield replaced(p, copy.deepcopy(new))
            size //= 2
    for p, x in paths:
        if isinstance(x, bool):
            if x:
                yield replaced(p, False)
        elif isinstance(x, int) and x not in (0, 1):
            for v in {0, 1, x // 2}:
                if v != x:
                    yield replaced(p, v)
        elif isinstance(x, str) and len(x) > 1 and p and p[-1] not in FIXED and not (
                len(p) > 1 and p[-2] in FIXED):
            yield replaced(p, x[:len(x) // 2])
            yield replaced(p, x[len(x) // 2:])
            yield replaced(p, 'a')
        elif isinstance(x, dict) and p:
            for k in list(x):
                if k in FIXED or k in ('at', 'frac', 'columns', 'rows'):
                    continue
                new = {kk: vv for kk, vv in x.items() if kk != k}
                yield replaced(p, copy.deepcopy(new))


class Coverage:
    def __init__(self):
        self.scenarios = self.evals = self.nontrivial = self.steps = 0
        self.simtime = 0
        self.fired, self.probes = collections.Counter(), collections.Counter()
        self.states = set()
        self.samples = []
        self.truncated = False
        self.wall = 0
        self.shapes = set()

    def add(self, scn, results):
        self.scenarios += 1
        for c, r in results:
            self.evals += r.get('evals', 0)
            self.nontrivial += r.get('nontrivial', 0)
            self.steps += r.get('steps', 0)
            self.simtime += r.get('simtime', 0)
            self.fired.update(r.get('fired', {}))
            self.probes.update(r.get('probes', {}))
            self.states.update(r.get('states', ()))
            if r.get('sample') and len(self.samples) < 4:
                self.samples.append(r['sample'])
        if len(self.samples) < 2:
            self.samples.append({'scenario': scn})


def load_known(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path, encoding='utf8') as fp:
        return {e['sig']: e for e in json.load(fp) if e['property'] == prop and e['status'] == 'known'}


def describe(v):
    return '%s: %s' % (v['cls'], v['msg'])


def write_replay(prop, v, scn, extra):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, violation=v, scenario=scn, **extra)
    name = '%s-%s.json' % (prop, hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w', encoding='utf8') as fp:
        json.dump(body, fp, indent=1, sort_keys=True)
    return os.path.relpath(path, HERE)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--index', type=int, help='run only this scenario of the batch')
    ap.add_argument('--no-min', action='store_true')
    ap.add_argument('--det', type=int)
    a = ap.parse_args(argv)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    eng = Engine(a.prop, tier, seed)
    try:
        if a.replay or a.index is not None:
            if a.replay:
                with open(a.replay, encoding='utf8') as fp:
                    rep = json.load(fp)
                scn = rep['scenario']
            else:
                scn = eng.mod.generate(rng_for(seed, a.prop, a.index), a.index, tier)
                scn['_i'] = a.index
                print(json.dumps(scn, indent=1)[:6000])
            results, v = eng.run_scenario(scn)
            if a.index is not None:
                print(json.dumps(results, indent=1)[:3000])
            if v:
                print(describe(v))
                print('VIOLATION property=%s replay=%s' % (a.prop, a.replay or '(index %d)' % a.index))
                return 1
            print('no violation')
            return 0
        return check(eng, a, tier, seed)
    finally:
        eng.close()


def check(eng, a, tier, seed):
    t0 = time.time()
    known = load_known(a.prop)
    n = a.runs or eng.mod.RUNS[tier]
    for f in glob.glob(os.path.join(HERE, 'evidence', 'replay', a.prop + '-*.json')):
        os.unlink(f)
    cov, found, knownhits, errors = eng.batch(n, known)
    rc = 0
    seen = {}
    for v, scn in knownhits:
        seen.setdefault(v['sig'], v)
    # a listed finding also carries the scenario which shows it: run it
    for sig, e in known.items():
        if sig not in seen and e.get('scenario'):
            _, v = eng.run_scenario(e['scenario'])
            if v and v['sig'] == sig:
                seen[sig] = v
            elif v:
                found.append((v, e['scenario']))
    for sig, v in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, known[sig].get('what') or sig))
    reported = []
    unrepro = []
    for v, scn in found[:3]:
        if v['cls'] in [r['cls'] for r in reported]:
            continue
        conf = None
        for _ in range(2):
            conf = eng.fails(scn, v['cls'])
            if conf:
                break
        if not conf:
            unrepro.append({'violation': v, 'scenario': scn})
            continue
        small, tried = (scn, 0) if a.no_min else eng.minimise(scn, v['cls'])
        final = eng.fails(small, v['cls'])
        if not final:
            small, final = scn, conf
        path = write_replay(a.prop, final, small, dict(seed=seed, tier=tier, index=scn.get('_i'),
                            minimised_from=len(json.dumps(scn)), minimised_to=len(json.dumps(small)),
                            candidates_tried=tried))
        print(describe(final))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        reported.append(final)
        rc = 1
    if unrepro:
        path = write_replay(a.prop, unrepro[0]['violation'], unrepro[0]['scenario'], dict(seed=seed, unreproduced=True))
        print('UNREPRODUCED: %s (%s)' % (describe(unrepro[0]['violation']), path))
        if not rc:
            rc = 2
    if errors and not rc:
        print('HARNESS ERROR in %d scenarios; first:\n%s' % (len(errors), errors[0][1]))
        print(json.dumps(errors[0][0])[:2000])
        rc = 2
    det = {}
    k = a.det if a.det is not None else getattr(eng.mod, 'DET', {'quick': 6, 'thorough': 60})[tier]
    if rc == 0 and k:
        try:
            det = eng.determinism(min(k, n))
        except Exception as e:
            det = {'error': str(e)[:300]}
    wall = time.time() - t0
    ev = evidence(eng, a.prop, tier, seed, cov, det, wall, len(reported), len(seen), len(unrepro))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w', encoding='utf8') as fp:
        json.dump(ev, fp, indent=1)
    print('%s %s seed=%d: %d scenarios, %d simulated executions, %d with a fault or a preemption fired, '
          '%d distinct event logs, %.1fs' % (a.prop, tier, seed, cov.scenarios, cov.evals, cov.nontrivial,
                                             len(cov.states), wall))
    if cov.probes:
        print('  probes: ' + ', '.join('%s=%d' % kv for kv in sorted(cov.probes.items())))
    if cov.fired:
        print('  faults fired: ' + ', '.join('%s=%d' % kv for kv in sorted(cov.fired.items())))
    if det:
        print('  determinism: %s' % json.dumps(det))
    return rc


def evidence(eng, prop, tier, seed, cov, det, wall, nviol, nknown, nunrepro):
    m = eng.mod
    hours = max(cov.wall, 0.001) / 3600
    return dict(
        property=prop, tier=tier, seed=seed, level=getattr(m, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=cov.evals,
            distinct_nontrivial=min(len(cov.states), cov.nontrivial) if cov.nontrivial else 0,
            rule=m.RULE,
            samples=cov.samples[:4],
            scenarios=cov.scenarios,
            executions_with_fault_or_preemption_fired=cov.nontrivial,
            distinct_event_logs=len(cov.states),
            distinct_measure='hash of the sequence of (process, call class, path, fault, arguments, result) of an execution, '
                             'or of the schedule/response sequence where the run has no system calls of its own',
            simulated_runs_per_hour=int(cov.evals / hours),
            seeds_per_hour=int(cov.scenarios / hours),
            simulated_seconds=round(cov.simtime / 1e9, 3),
            intercepted_calls=cov.steps,
            faults_fired=dict(cov.fired),
            probes=dict(cov.probes),
            determinism=det,
            truncated_by_soft_limit=cov.truncated,
            components=getattr(m, 'COMPONENTS', {}),
            known_findings_seen=nknown,
            unreproduced=nunrepro,
        ),
        assumptions=getattr(m, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2),
        violations=nviol,
    )
