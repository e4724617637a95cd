#!/usr/bin/env python3
"""Runs the check of each planted bug (seeded/*) on a scratch copy of /repo
with the bug and records what it reports in tools/catches.json.
usage: catches.py [id ...]"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(BASE, 'tools', 'catches.json')


def one(i):
    src = os.path.join(BASE, 'seeded', i)
    prop = json.load(open(src + '/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='catch-', dir='/tmp')
    try:
        repo = d + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.check_call(['git', 'apply', src + '/patch.diff'],
                              cwd=repo)
        p = subprocess.run(
            [sys.executable, BASE + '/check.py', prop, '--no-evidence',
             '--repo', repo], capture_output=True, text=True)
        t = p.stdout + p.stderr
        what = re.findall(r'^  failed: (\S+) / ([^:]+):', t, re.M)
        v = re.findall(r'^VIOLATION .*$', t, re.M)
        return i, {'property': prop, 'rc': p.returncode,
                   'contracts': ['%s/%s' % x for x in what][:3],
                   'input': any(not x.endswith('found') for x in v)}
    finally:
        shutil.rmtree(d)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(BASE + '/seeded'))
    old = json.load(open(OUT)) if os.path.exists(OUT) else {}
    new = {} if not sys.argv[1:] else dict(old)
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for i, r in ex.map(one, ids):
            new[i] = r
            if r['rc'] != 1 or not r['input']:
                print(i, r, flush=True)
    new = {k: v for k, v in new.items()
           if os.path.isdir(os.path.join(BASE, 'seeded', k))}
    json.dump(new, open(OUT, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    main()
