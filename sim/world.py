"""One simulated run: a scratch root, the seams, and the victims (simulated processes) running in it."""
import collections
import gc
import hashlib
import io
import json
import os
import pathlib
import pickle
import random
import select
import shutil
import signal
import stat
import sys
import tempfile
import traceback
import warnings

_exit = os._exit

from .fs import SimFS, CLASSES, CLS

EPOCH = 1_700_000_000 * 10**9  # virtual time every run starts at, unless the scenario says otherwise


class Violation(Exception):
    """The property is broken. `cls` groups violations for minimisation, `sig` identifies known findings."""
    def __init__(self, cls, msg, sig=None):
        super().__init__(cls, msg)
        self.cls, self.msg, self.sig = cls, msg, sig or cls


class HarnessError(Exception):
    pass


class Outcome:
    def __init__(self, status, **kw):
        self.status = status  # ok | exc | crash | hang
        self.value = None
        self.exc = ()
        self.msg = ''
        self.tb = ''
        self.fds_exc = ()
        self.fds = ()
        self.out = ''
        self.counts, self.fired, self.digest = {}, {}, ''
        self.__dict__.update(kw)

    @property
    def ok(self):
        return self.status == 'ok'

    def isexc(self, *names):
        return self.status == 'exc' and any(n in self.exc for n in names)

    def __repr__(self):
        if self.status == 'exc':
            return 'exc({}: {})'.format(self.exc[0], self.msg)
        return self.status + ('' if self.status != 'ok' else '({})'.format(short(self.value, 200)))


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n - 20] + '...[%d chars]' % len(s)


def h8(*x):
    return hashlib.blake2b(repr(x).encode('utf8', 'surrogatepass'), digest_size=8).hexdigest()


class World:
    FS = None
    strict = False

    def __init__(self, scn, scratch):
        if World.FS is None:
            World.FS = SimFS()
        self.fs = World.FS
        self.scn = scn
        self.root = pathlib.Path(scratch)
        self.data = self.root / 'd'
        self.tmp = self.root / 'tmp'
        self.stats = collections.Counter()
        self.fired = collections.Counter()
        self.states = set()
        self.sample = None
        self.evals = 0
        self.nontrivial = 0
        self.simtime = 0
        self.steps = 0
        self.trace = hashlib.blake2b(digest_size=16)
        self.faultlog = []
        self.outputs = {}
        self.track = False      # report files, archives and connections left to the finalizers
        self.fresh()

    # -- scratch ----------------------------------------------------------------------------
    def fresh(self):
        """A new, empty disk and a clock at its origin."""
        self.fs.reset(os.fsencode(str(self.root)), b'/tmp')
        if self.root.exists():
            shutil.rmtree(str(self.root))
        self.data.mkdir(parents=True)
        self.tmp.mkdir()
        tempfile.tempdir = str(self.tmp)
        tempfile._name_sequence = None
        os.environ['TMPDIR'] = str(self.tmp)
        os.chdir(str(self.data))

    def save(self, name='a'):
        dst = os.path.join(str(self.root) + '.saved', name)
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(str(self.root), dst, symlinks=True)
        return dst

    def restore(self, saved):
        os.chdir('/')
        shutil.rmtree(str(self.root))
        shutil.copytree(saved, str(self.root), symlinks=True)
        os.chdir(str(self.data))

    def tree(self, sub=None, content=True):
        """{relative path: bytes} of everything below the root (or below `sub`)."""
        base = str(self.root if sub is None else sub)
        res = {}
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                with open(p, 'rb') as fp:
                    res[os.path.relpath(p, base)] = fp.read() if content else None
        return res

    # -- running code -----------------------------------------------------------------------
    def victim(self, fn, faults=(), *, clock=None, tick=10**6, seed=1, xdev=0, journal=0, budget=-1,
               refill=-1, gran=1, jump=None, on_pause=None, pauses=(), timeout=60, slot=1,
               count=True, net=None):
        """
        Run `fn` in a forked process under simulation; `faults` decide the fate of its system calls.

        `pauses`: list of fault dicts (without kind) at which the process stops, while `on_pause`
        runs here (in the observer process).
        """
        fs = self.fs
        fs.enable(0)
        fs.reset(os.fsencode(str(self.root)), b'/tmp')
        start = EPOCH if clock is None else int(clock)
        fs.clock(1, start, tick)
        fs.rand(1, seed & (2**64 - 1))
        fs.opts(xdev, journal, budget, refill, gran)
        if jump:
            fs.jump(jump[0], jump[1])
        for f in faults:
            fs.add_fault(slot, f)
        for f in pauses:
            fs.add_fault(slot, dict(f, kind='PAUSE'))
        r, w = os.pipe()
        p_in = p_out = c_in = c_out = None
        if on_pause:
            p_in, c_out = os.pipe()     # child -> parent
            c_in, p_out = os.pipe()     # parent -> child
            fs.pausefds(slot, c_out, c_in)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                if on_pause:
                    os.close(p_in)
                    os.close(p_out)
                self._child(fn, w, slot, net)
            except BaseException:  # noqa
                code = 98
                os.write(2, traceback.format_exc().encode())
            finally:
                _exit(code)
        os.close(w)
        if on_pause:
            os.close(c_in)
            os.close(c_out)
        buf, hang, npause = b'', False, 0
        poll = select.poll()
        poll.register(r, select.POLLIN | select.POLLHUP)
        if on_pause:
            poll.register(p_in, select.POLLIN | select.POLLHUP)
        try:
            done = False
            while not done:
                evs = poll.poll(timeout * 1000)
                if not evs:
                    hang = True
                    os.kill(pid, signal.SIGKILL)
                    break
                for fd, ev in evs:
                    if fd == r:
                        chunk = os.read(r, 1 << 20)
                        if not chunk:
                            done = True
                        buf += chunk
                    else:
                        c = os.read(p_in, 1)
                        if not c:
                            poll.unregister(p_in)
                            continue
                        npause += 1
                        try:
                            last = (fs_long() * 2)()
                            fs.lastpause(slot, last)
                            on_pause(npause, CLASSES[last[0]], fs.pathname(last[1]))
                        except BaseException:
                            os.kill(pid, signal.SIGKILL)
                            raise
                        try:
                            os.write(p_out, b'G')
                        except BrokenPipeError:
                            pass
        finally:
            _, st = os.waitpid(pid, 0)
            os.close(r)
            if on_pause:
                os.close(p_in)
                os.close(p_out)
            fs.enable(0)
        code = os.waitstatus_to_exitcode(st)
        o = Outcome('?')
        if hang:
            o = Outcome('hang')
        elif code == 137 or code == 99:
            o = Outcome('crash')
        elif code == 0 and buf:
            o = pickle.loads(buf)
        elif code < 0:
            o = Outcome('crash', msg='signal %d' % -code)
            o.signal = -code
        else:
            raise HarnessError('victim exited with %r without a result' % code)
        if self.strict and getattr(o, 'harness', False):
            raise HarnessError(o.tb)
        o.npause = npause
        o.counts, o.fired = fs.counts(slot), fs.fired(slot)
        if fs.nospc():
            o.fired['ENOSPC'] = fs.nospc()
        for k, v in getattr(o, 'netfired', {}).items():
            o.fired[k] = v
        o.digest = fs.digest()
        o.elapsed = fs.now() - start
        o.nlog = fs.nlog()
        if fs.stat_get(2):
            o.fired['CLOCK_JUMP'] = fs.stat_get(2)
        fs.clock(0, 0, 0)
        fs.rand(0, 0)
        if count:
            self.evals += 1
            for k, v in o.fired.items():
                if k != 'PAUSE':
                    self.fired[k] += v
            if any(k != 'PAUSE' for k in o.fired):
                self.nontrivial += 1
            self.simtime += o.elapsed
            self.steps += o.nlog
            self.states.add(o.digest)
        if net is not None:
            o.netlog = getattr(o, 'netlog', [])
            o.netfired = getattr(o, 'netfired', {})
            o.digest = h8(o.digest, o.netlog)
            if count:
                self.states.add(o.digest)
                self.steps += len(o.netlog)
        self.trace.update(o.digest.encode() + o.status.encode() + repr(o.exc[:1]).encode())
        return o

    def _child(self, fn, w, slot, net):
        gc.disable()
        signal.signal(signal.SIGINT, signal.default_int_handler)
        warnings.simplefilter('ignore')
        out = io.StringIO()
        sys.stdout = sys.stderr = out
        o = Outcome('ok')
        o.unclosed = []
        if self.track:
            track(o.unclosed, str(self.root))
        fs = self.fs
        fs.slot(slot)
        if net is not None:
            net.clock = fs
            net.install()
        fs.enable(1)
        try:
            o.value = fn()
            fs.enable(0)
        except BaseException as e:
            fs.enable(0)
            o.fds_exc = fs.open_paths()
            o.sockets = len(net.open) if net is not None else 0
            o.status = 'exc'
            o.exc = tuple(c.__name__ for c in type(e).__mro__)
            o.errno = getattr(e, 'errno', None)
            o.msg = str(e).replace(str(self.root), '<R>')[:500]
            o.tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            o.harness = os.path.basename(os.path.dirname(last)) in ('props', 'sim') and isinstance(e, (LookupError, TypeError, NameError, AttributeError)) \
                or last.endswith('sim/model.py')
            o.ctx = type(e.__context__).__name__ if e.__context__ is not None else None
        o.fds_now = fs.open_paths()
        o.sockets = getattr(o, 'sockets', 0) or (len(net.open) if net is not None else 0)
        fs.enable(1)
        gc.enable()
        gc.collect()
        fs.enable(0)
        o.fds = fs.open_paths()
        if net is not None:
            o.netlog, o.netfired, o.netopen = net.log, net.fired, len(net.open)
        o.out = out.getvalue().replace(str(self.root), '<R>')[-4000:]
        data = pickle.dumps(o, protocol=4)
        mv = memoryview(data)
        while mv:
            n = os.write(w, mv)
            mv = mv[n:]

    # -- bookkeeping ------------------------------------------------------------------------
    def fail(self, cls, msg, sig=None):
        raise Violation(cls, msg, sig)

    def probe(self, name, n=1):
        self.stats[name] += n

    def state(self, *x):
        self.states.add(h8(*x))

    def record(self, *x):
        """Add to the trace digest (used for the determinism check)."""
        self.trace.update(repr(x).replace(str(self.root), '<R>').encode('utf8', 'surrogatepass'))

    def result(self):
        return dict(
            evals=self.evals, nontrivial=self.nontrivial, fired=dict(self.fired), probes=dict(self.stats),
            states=sorted(self.states)[:4000], simtime=self.simtime, steps=self.steps,
            trace=self.trace.hexdigest(), sample=self.sample, outputs=self.outputs)


def track(found, root):
    """Note what is closed only because a finalizer runs, as no other implementation of Python guarantees."""
    import sqlite3
    import zipfile
    warnings.simplefilter('always', ResourceWarning)

    def show(message, category, *args, **kw):
        if issubclass(category, ResourceWarning) and root in str(message):
            found.append(str(message).replace(root, '<R>'))
    warnings.showwarning = show
    close, connect = zipfile.ZipFile.__del__, sqlite3.connect

    def zip_del(self):
        if getattr(self, 'fp', None) is not None and isinstance(self.filename, str):
            found.append('unclosed archive ' + self.filename.replace(root, '<R>'))
        close(self)

    class Connection(sqlite3.Connection):
        path, done = '', False

        def close(self):
            self.done = True
            sqlite3.Connection.close(self)

        def __del__(self):
            if not self.done and self.path.startswith(root):
                found.append('unclosed database ' + self.path.replace(root, '<R>'))

    def connecting(database, *args, **kw):
        kw.setdefault('factory', Connection)
        c = connect(database, *args, **kw)
        if isinstance(c, Connection):
            c.path = os.fspath(database) if not isinstance(database, bytes) else os.fsdecode(database)
        return c
    zipfile.ZipFile.__del__ = zip_del
    sqlite3.connect = connecting


def fs_long():
    import ctypes
    return ctypes.c_long


def place(plan, counts):
    """
    Turn the fault positions of a plan ("frac": position within the calls of that class the fault-free
    run made) into ordinals. Returns None if the fault-free run makes no such call.
    """
    res = []
    for f in plan:
        f = dict(f)
        if 'at' not in f:
            n = sum(counts.values()) if f.get('cls') in (None, 'ANY') else counts.get(f['cls'], 0)
            if not n:
                return None
            f['at'] = 1 + min(n - 1, int(f.pop('frac') * n))
        res.append(f)
    return res
