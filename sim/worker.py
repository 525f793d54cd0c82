"""Fork server: reads jobs (JSON lines) from fd 0, runs each in a pristine child, answers on fd 1."""
import gc
import importlib
import json
import os
import select
import shutil
import signal
import sys
import traceback
import warnings

_exit = os._exit

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from sim import loader
    out = os.dup(1)
    os.dup2(2, 1)
    loader.install()
    loader.preload()
    warnings.simplefilter("ignore")
    from sim import world
    scratch = sys.argv[1]
    mods = {}
    for name in sys.argv[2].split(','):
        mods[name] = importlib.import_module('props.' + name.lower())
    world.World.FS = world.SimFS()
    gc.collect()
    gc.freeze()
    os.write(out, b'{"ready": true}\n')
    inp = os.fdopen(0, 'rb', buffering=0)
    while True:
        line = b''
        while not line.endswith(b'\n'):
            c = inp.readline()
            if not c:
                return
            line += c
        job = json.loads(line)
        res = run(job, mods, world, scratch)
        os.write(out, json.dumps(res).encode() + b'\n')


def run(job, mods, world, scratch):
    world.World.FS.enable(0)
    world.World.FS.clock(0, 0, 0)
    world.World.FS.rand(0, 0)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            os.close(r)
            devnull = os.open('/dev/null', os.O_RDWR)
            os.dup2(devnull, 0)
            # fixed descriptor layout does not matter: descriptors are identified by path
            res = execute(job, mods, world, scratch)
            data = json.dumps(res).encode()
            mv = memoryview(data)
            while mv:
                mv = mv[os.write(w, mv):]
        except BaseException:
            os.write(2, traceback.format_exc().encode())
        finally:
            _exit(0)
    os.close(w)
    buf = b''
    limit = job.get('timeout', 120)
    hang = False
    poll = select.poll()
    poll.register(r, select.POLLIN | select.POLLHUP)
    while True:
        if not poll.poll(limit * 1000):
            hang = True
            break
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    os.waitpid(pid, 0)
    os.close(r)
    for p in (scratch, scratch + '.saved'):
        if os.path.exists(p):
            shutil.rmtree(p, ignore_errors=True)
    if hang:
        return {'hang': True}
    if not buf:
        return {'error': 'run process died without a result'}
    return json.loads(buf)


def execute(job, mods, world, scratch):
    mod = mods[job['prop']]
    w = world.World(job['scn'], scratch)
    w.strict = job.get('strict', False)
    res = {}
    try:
        mod.execute(job['scn'], w)
    except world.Violation as v:
        res['violation'] = {'cls': v.cls, 'msg': v.msg.replace(scratch, '<R>')[:3000], 'sig': v.sig.replace(scratch, '<R>')}
    except BaseException as e:
        if _in_library(e):
            # the library fails on valid use outside of any simulated fault
            msg = traceback.format_exc()[-2500:].replace(scratch, '<R>')
            res['violation'] = {'cls': 'error', 'sig': 'error', 'msg': 'unexpected exception from the library:\n' + msg}
        else:
            res['error'] = traceback.format_exc()[-3000:]
    w.fs.enable(0)
    w.fs.clock(0, 0, 0)
    res.update(w.result())
    os.chdir('/')
    return res


def _in_library(e):
    from sim import loader
    return any(f.filename.startswith(loader.SRC) for f in traceback.extract_tb(e.__traceback__))


if __name__ == '__main__':
    main()
