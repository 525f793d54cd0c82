"""
Maintains the planted bugs in /verif/seeded (not used by any check).

  seeds.py verify [ID...]   every bug: applies, changes original lines only, passes the tests, demo 0 / nonzero
  seeds.py catch [ID...]    runs the quick check of the bug's property against a copy with the bug
  seeds.py table            markdown table for DESIGN.md from the last results
"""
import concurrent.futures
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
SEEDED = VERIF / 'seeded'
BASE = 'c0a8517'
RESULTS = VERIF / 'build' / 'seeds.json'
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seedcopy', dir='/tmp')
    for n in os.listdir('/repo'):
        if n not in ('.git', '.pytest_cache'):
            s = os.path.join('/repo', n)
            (shutil.copytree if os.path.isdir(s) else shutil.copy2)(s, os.path.join(d, n))
    sh(['git', 'init', '-q', d])
    return d


def env(d):
    return dict(os.environ, PYTHONPATH=d + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LANG='C.UTF-8',
                PATH='/opt/venv/bin:' + os.environ['PATH'])


def demo(sid, d):
    t = tempfile.mkdtemp(prefix='seeddemo', dir='/tmp')
    for f in (SEEDED / sid).iterdir():
        if f.suffix not in ('.diff', '.patch') and f.name != 'meta.json':
            shutil.copy(f, t)
    try:
        return sh(['bash', t + '/demo.sh'], cwd=d, env=env(d), timeout=300)
    finally:
        shutil.rmtree(t)


def verify(sid):
    d = copy()
    try:
        r = demo(sid, d)
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-800:]
        r = sh(['git', '-C', d, 'apply', str(SEEDED / sid / 'patch.diff')])
        if r.returncode:
            return 'does not apply: ' + r.stderr
        for line in (SEEDED / sid / 'patch.diff').read_text().splitlines():
            if line.startswith('+++ ') and not line.startswith('+++ b/src/csvw/'):
                return 'touches ' + line
        bad = blame(sid)
        if bad:
            return bad
        r = demo(sid, d)
        if not r.returncode:
            return 'demo passes with the patch'
        msg = (r.stdout + r.stderr)[-300:]
        r = sh([PY, '-m', 'pytest', '-q', '--no-cov', '-p', 'no:cacheprovider', '--ignore=tests/test_conformance.py', '-x'], cwd=d, env=env(d))
        if r.returncode or '225 passed' not in r.stdout:
            return 'tests fail: ' + r.stdout[-1500:]
        return 'ok ' + msg.strip()[-150:]
    finally:
        shutil.rmtree(d)


def blame(sid):
    """Removed lines must stem from the original repository."""
    fname, lineno, removed = None, 0, 0
    for line in (SEEDED / sid / 'patch.diff').read_text().splitlines():
        if line.startswith('--- '):
            fname = line[6:]
            out = sh(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', fname]).stdout.splitlines()
            mine = set(sh(['git', '-C', '/repo', 'rev-list', BASE + '..HEAD']).stdout.split())
        elif line.startswith('@@'):
            lineno = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-'):
            if out[lineno - 1].split()[0] in mine:
                return 'changes a line of mine: ' + line
            removed += 1
            lineno += 1
        elif line.startswith(' '):
            lineno += 1
    return None if removed else 'removes no line'


def catch(sid):
    meta = json.loads((SEEDED / sid / 'meta.json').read_text())
    d = copy()
    try:
        r = sh(['git', '-C', d, 'apply', str(SEEDED / sid / 'patch.diff')])
        assert not r.returncode, r.stderr
        r = sh(['python3', 'run.py', meta['property'], '--no-min'], cwd=str(VERIF), env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
        caught = r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout
        return [meta['property'], 'caught' if caught else 'MISSED rc=%d' % r.returncode, (r.stdout.strip().splitlines() or [''])[-1][:200] if caught else r.stdout[-300:] + r.stderr[-300:]]
    finally:
        shutil.rmtree(d)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(p.name for p in SEEDED.iterdir() if p.is_dir())
    if cmd == 'verify':
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for sid, res in zip(ids, ex.map(verify, ids)):
                print(sid, res, flush=True)
    elif cmd == 'catch':
        res = json.loads(RESULTS.read_text()) if RESULTS.exists() else {}
        for sid in ids:
            res[sid] = catch(sid)
            print(sid, *res[sid], flush=True)
            RESULTS.write_text(json.dumps(res, indent=1))
    elif cmd == 'table':
        res = json.loads(RESULTS.read_text())
        for sid in ids:
            meta = json.loads((SEEDED / sid / 'meta.json').read_text())
            print('| %s | %s | %s | %s |' % (sid, meta['property'], meta['what_it_breaks'].replace('|', '/'), res.get(sid, ['', '?'])[1]))


if __name__ == '__main__':
    main()
