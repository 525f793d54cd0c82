"""Is each repaired defect found again when its repair is undone? (python3 tools/fixes.py [property|commit ...])"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get('VERIF_REPO', '/repo')


def git(*args, cwd=REPO):
    return subprocess.run(['git', '-C', str(cwd)] + list(args), capture_output=True, text=True)


def main(only):
    for e in json.loads((VERIF / 'known_findings.json').read_text()):
        if e['status'] != 'fixed' or only and e['property'] not in only and e['commit'] not in only:
            continue
        tmp = pathlib.Path(tempfile.mkdtemp(prefix='fixes'))
        try:
            subprocess.run(['git', 'clone', '-q', REPO, str(tmp / 'repo')], check=True)
            p = git('-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '-n', e['commit'], cwd=tmp / 'repo')
            if p.returncode:
                print(e['property'], e['commit'], 'CONFLICT', e['entry'][:120], flush=True)
                continue
            for seed in os.environ.get('SEEDS', '1').split():
                q = subprocess.run([sys.executable, str(VERIF / 'run.py'), e['property'], '--no-min'], capture_output=True, text=True, cwd=VERIF,
                                   env=dict(os.environ, VERIF_SEED=seed, VERIF_REPO=str(tmp / 'repo')))
                msg = [x for x in q.stdout.splitlines() if x.strip()]
                print(e['property'], e['commit'], 'seed', seed, 'FOUND' if q.returncode == 1 and 'VIOLATION' in q.stdout else 'MISSED rc=%s' % q.returncode,
                      '|', e['entry'][:110], '|', msg[0][:150] if msg else '', flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    main(sys.argv[1:])
