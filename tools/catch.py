#!/opt/venv/bin/python
"""Which planted bugs do the checks catch?   tools/catch.py [-j N] [-s SEED] [ids...]

Applies each patch of seeded/ to a scratch copy of /repo, runs the quick check of its property against
the copy and prints one line per bug (Markdown table rows). Not part of any check.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bug, seed, root):
    folder = os.path.join(HERE, 'seeded', bug)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    work, mine = os.path.join(root, bug), os.path.join(root, bug + '.verif')
    shutil.copytree('/repo', work, symlinks=True)
    os.mkdir(mine)
    for name in ('checks', 'lib', 'known_findings.txt'):
        src = os.path.join(HERE, name)
        (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(mine, name))
    try:
        subprocess.run(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=work, check=True)
        env = dict(os.environ, VERIF_REPO=work, VERIF_SEED=str(seed), VERIF_PROCS='4', VERIF_TIER='quick')
        r = subprocess.run([sys.executable, 'checks/%s.py' % meta['property'].lower(), 'quick'], cwd=mine, env=env, capture_output=True, text=True)
        said = [l[11:] for l in r.stdout.splitlines() if l.startswith('violation: ')]
        verdict = 'caught' if r.returncode == 1 and 'VIOLATION property=%s ' % meta['property'] in r.stdout else 'MISSED (exit %d)' % r.returncode
        return '| %s | %s | %s | %s |' % (bug, meta['property'], verdict, (said or [''])[0][:100].replace('|', '\\|'))
    finally:
        shutil.rmtree(work)
        shutil.rmtree(mine)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('-j', type=int, default=2)
    a.add_argument('-s', type=int, default=1)
    a.add_argument('ids', nargs='*')
    a = a.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    root = tempfile.mkdtemp(prefix='catch-')
    try:
        print('| planted bug | property | quick check | first words |\n|---|---|---|---|')
        with ThreadPoolExecutor(a.j) as pool:
            for line in pool.map(lambda b: one(b, a.s, root), ids):
                print(line, flush=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
