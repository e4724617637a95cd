#!/usr/bin/env python3
"""Plants bugs: for each entry of BUGS in the given python files, makes a
scratch copy of /repo, applies the edit, confirms build, stable tests and the
demonstration, and stores patch.diff, demo.sh (+ demo.py) and meta.json under
/verif/seeded/<id>.  Then runs this property's check on the scratch copy.

   python3 tools/plant.py FILE.py... [--only id,id] [--recheck]
--recheck: take the stored /verif/seeded entries instead of files.
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/plant'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_SEED='1',
           VERIF_TIER='quick')


def sh(cmd, cwd, env=ENV, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout)


def tests(d):
    s = open('/opt/vp/test.sh').read().replace('/repo', d)
    f = d + '.test.sh'
    open(f, 'w').write(s)
    out = d + '.json'
    r = sh('bash %s %s' % (f, out), d)
    j = json.load(open(out))
    return j


def passed(j):
    for k in ('passed', 'pass'):
        if k in j:
            return set(j[k])
    return {k for k, v in j.items() if v in ('passed', 'pass', True)}


def plant(b, check=True, verify=True):
    ident = b['id']
    d = os.path.join(BASE, ident)
    shutil.rmtree(d, ignore_errors=True)
    sd = os.path.join(V, 'seeded', ident)
    shutil.copytree('/repo', d, symlinks=True)
    msg = []
    try:
        if 'edits' in b:
            os.makedirs(sd, exist_ok=True)
            open(sd + '/demo.sh', 'w').write(
                '#!/bin/bash\n# run with cwd = the repository\n'
                'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                'exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")'
                '/demo.py"\n')
            open(sd + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
            json.dump({'property': b['property'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']},
                      open(sd + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % sd, d)
        if r.returncode != 0:
            return ident, 'DEMO FAILS ON CLEAN TREE\n' + r.stdout[-1500:]
        if 'edits' in b:
            for file, old, new in b['edits']:
                p = os.path.join(d, file)
                t = open(p).read()
                if t.count(old) != 1:
                    return ident, 'EDIT: %d matches in %s: %r' % (
                        t.count(old), file, old[:80])
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=d, text=True,
                                  capture_output=True).stdout
            open(sd + '/patch.diff', 'w').write(diff)
        else:
            r = sh('git apply %s/patch.diff' % sd, d)
            if r.returncode:
                return ident, 'PATCH DOES NOT APPLY ' + r.stdout
        if verify:
            r = sh('bash %s/demo.sh' % sd, d)
            if r.returncode == 0:
                return ident, 'DEMO PASSES WITH THE BUG'
            msg.append('demo ok')
            p = passed(tests(d))
            missing = STABLE - p
            if missing:
                return ident, 'TESTS FAIL ' + ' '.join(sorted(missing))[:500]
            msg.append('tests ok')
        if check:
            r = sh('python3 check.py %s --repo %s --no-evidence' %
                   (b['property'], d), V, timeout=1200)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            msg.append('%s rc=%d %s' % ('CAUGHT' if v else 'MISSED',
                                        r.returncode,
                                        ' | '.join(v)[:300]))
            if not v:
                msg.append(r.stdout[-600:])
        return ident, ' ; '.join(msg)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for e in ('.test.sh', '.json'):
            if os.path.exists(d + e):
                os.remove(d + e)


def main():
    args = sys.argv[1:]
    only = None
    if '--only' in args:
        i = args.index('--only')
        only = args[i + 1].split(',')
        del args[i:i + 2]
    flags = {a for a in args if a.startswith('--')}
    args = [a for a in args if not a.startswith('--')]
    bugs = []
    for f in args:
        ns = {}
        exec(open(f).read(), ns)
        bugs += ns['BUGS']
    if '--recheck' in flags:
        for i in sorted(os.listdir(V + '/seeded')):
            m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
            bugs.append({'id': i, 'property': m['property']})
    if only:
        bugs = [b for b in bugs if b['id'] in only or b['property'] in only]
    os.makedirs(BASE, exist_ok=True)
    with ThreadPoolExecutor(4) as ex:
        for ident, m in ex.map(
                lambda b: plant(b, '--no-check' not in flags,
                                '--no-verify' not in flags), bugs):
            print('%-14s %s' % (ident, m), flush=True)


main()
