#!/opt/venv/bin/python
"""setup_cmd: tries the engine's rules on selftest/auxi/st.py.

contracts/self_rules.py states true and false facts about small functions.
The run-time check has to refute every fact labelled wrong-* and none of the
others (so the labels are right), and the engine must not prove any wrong-*
one.  A true fact the engine does not prove is only listed.  Exit 1 when the
engine accepts a false fact."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def worker(mode, d):
    cfg = {'mode': mode, 'prop': 'SELF', 'names': None, 'budget': 200,
           'out': os.path.join(d, mode + '.json'), 'seed': 1, 'mult': 3}
    json.dump(cfg, open(os.path.join(d, mode + '.cfg'), 'w'))
    repo = os.path.join(HERE, 'selftest')
    env = dict(os.environ, PYTHONPATH=repo, VERIF_REPO=repo, TZ='UTC',
               PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    subprocess.check_call([sys.executable, os.path.join(
        HERE, 'pyvc', 'worker.py'), os.path.join(d, mode + '.cfg')], env=env)
    return {r['name']: r for r in json.load(open(cfg['out']))}


RUN = '''
import json, random, sys
sys.path[:0] = [%r, %r]
from pyvc import worker, harness
out = {}
for c in worker.load_contracts('SELF'):
    fails, seen = set(), set()
    for i in range(150):
        h = harness.ConcH(random.Random('%%s/%%d' %% (c.name, i)), None)
        h.collect = fails
        try:
            c.fn(h)
        except harness.Reject:
            pass
        seen |= set(h.checked)
    out[c.name] = [sorted(fails), sorted(seen)]
json.dump(out, sys.stdout)
'''


def run_time():
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    return json.loads(subprocess.check_output(
        [sys.executable, '-c', RUN % (HERE, os.path.join(HERE, 'selftest'))],
        env=env))


def main():
    d = tempfile.mkdtemp(prefix='verif-self-')
    try:
        sym, conc = worker('sym', d), run_time()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad, proved, open_ = [], 0, []
    for n in sorted(sym):
        fails, seen = conc[n]
        by = {}
        for o in sym[n]['obligations']:
            by.setdefault(o['label'], []).append(o['status'])
        for l in sorted(set(by) | set(seen)):
            ok = l in by and all(s == 'proved' for s in by[l]) and \
                not sym[n]['unsupported']
            if l.startswith('wrong'):
                if l not in fails:
                    bad.append('%s/%s: not refuted at run time' % (n, l))
                if ok:
                    bad.append('%s/%s: false, but proved' % (n, l))
            elif l in fails:
                bad.append('%s/%s: refuted at run time' % (n, l))
            elif ok:
                proved += 1
            else:
                open_.append('%s/%s' % (n, l))
    nw = sum(l.startswith('wrong') for r in sym.values()
             for l in {o['label'] for o in r['obligations']})
    print('self-test: %d false facts refused, %d true facts proved, not '
          'decided: %s' % (nw, proved, ', '.join(open_)))
    for b in bad:
        print('  engine fault: ' + b)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
