#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]
check.py --replay FILE

Decides one property: regenerates every verification condition from the
current source, discharges them, cross-checks the contracts on the unmodified
code under CPython, writes evidence/<id>.json.  Exit 0 or 1 (see DESIGN.md).
"""
import argparse
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

TRUSTED = [
    'pyvc (this repository): AST instrumentation, symbolic values, loop '
    'closed-form rules, sum normaliser',
    'z3 5.3.2 (python3-vt); cvc5 1.4.2 where z3 gives no answer',
    'CPython 3.12 semantics of the statements that are executed natively '
    '(attribute access, calls, exceptions, class bodies)',
]
ASSUME = [
    'floating-point numbers are treated as mathematical reals (no rounding, '
    'overflow, nan or infinity); the run-time cross-check uses a relative '
    'tolerance of 1e-9',
    'numpy arrays, math.*, and the Python builtins behave as the models in '
    'pyvc/runtime.py and pyvc/values.py state',
    'termination of while loops is not proved (runs are limited to 30 s per '
    'case in the cross-check)',
]


def env(repo):
    e = dict(os.environ)
    e.update(PYTHONPATH=repo, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', TZ='UTC', VERIF_REPO=repo,
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


def start(cfg, repo, d, tag):
    p = os.path.join(d, tag + '.cfg')
    cfg['out'] = os.path.join(d, tag + '.json')
    json.dump(cfg, open(p, 'w'))
    log = open(os.path.join(d, tag + '.log'), 'w')
    return subprocess.Popen([PY, os.path.join(HERE, 'pyvc', 'worker.py'), p],
                            env=env(repo), stdout=log, stderr=log, cwd=d,
                            start_new_session=True), cfg['out'], log.name


def wait(h, limit):
    p, out, log = h
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    if os.path.exists(out):
        return json.load(open(out)), ''
    return None, open(log).read()[-3000:]


def known_findings(prop):
    """lines  open: property=ID contract=NAME label=LABEL :: what fails
       and    fixed: property=ID COMMIT what failed   (suppress nothing)"""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if not line.startswith('open:') or ' :: ' not in line:
                continue
            head, what = line.strip().split(' :: ', 1)
            k = dict(x.split('=', 1) for x in head.split()[1:])
            if k.get('property') == prop:
                k['what'] = what
                out.append(k)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--replay')
    ap.add_argument('--names')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    d = tempfile.mkdtemp(prefix='verif-%s-' % a.prop)
    try:
        return run(a, seed, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(a):
    r = json.load(open(a.replay))
    if r.get('kind') != 'input':
        print('no failing input in this file; failed obligation:')
        print(json.dumps(r, indent=1))
        return 1
    sys.path.insert(0, HERE)
    code = ('import sys, json, random\n'
            'sys.path.insert(0, %r)\n'
            'from pyvc import worker\n'
            'r = json.load(open(%r))\n'
            'c = [c for c in worker.load_contracts(r["property"])'
            ' if c.name == r["contract"]][0]\n'
            'x = worker.run_conc_one(c, random.Random(r["rng"]), r["preset"])\n'
            'print(x[0], x[1], x[2]); print("inputs:", json.dumps(x[3], '
            'default=str))\n'
            'sys.exit(1 if x[0] in ("fail", "harness-error") else 0)\n') % (
        HERE, os.path.abspath(a.replay))
    return subprocess.call([PY, '-c', code], env=env(a.repo))


def preset_of(o):
    m = o.get('model') or {}
    return {'vars': {k: v for k, v in (m.get('vars') or {}).items()
                     if isinstance(v, (int, float)) and not
                     isinstance(v, bool)},
            'apps': m.get('apps') or {}, 'choices': o.get('choices') or {}}


def run(a, seed, d):
    prop, t0 = a.prop, time.time()
    thorough = a.tier == 'thorough'
    names = a.names.split(',') if a.names else None
    budget = 900 if thorough else 400
    lim = 3000 if thorough else 480
    sym = start({'mode': 'sym', 'prop': prop, 'names': names,
                 'budget': budget}, a.repo, d, 'sym')
    conc = start({'mode': 'conc', 'prop': prop, 'names': names, 'seed': seed,
                  'mult': 20 if thorough else 1, 'budget': budget},
                 a.repo, d, 'conc')
    cres, cerr = wait(conc, lim)
    sres, serr = wait(sym, lim)
    known = known_findings(prop)
    symr = {r['name']: r for r in (sres or [])}
    concr = {r['name']: r for r in (cres or [])}

    # replay the countermodels of undischarged obligations on the real code
    todo = {}
    for n, r in symr.items():
        for o in r['obligations']:
            if o['status'] != 'proved':
                todo.setdefault(n, []).append(preset_of(o))
    kn = set((k['contract'], k['label']) for k in known)
    todo2 = {}
    for n, ps in todo.items():
        bad = [o for o in symr[n]['obligations'] if o['status'] != 'proved'
               and (n, o['label']) not in kn]
        if bad and not [f for f in concr.get(n, {}).get('fails', [])
                        if (n, f['label']) not in kn]:
            todo2[n] = ps[:40]
    if todo2:
        h = start({'mode': 'conc', 'prop': prop, 'names': sorted(todo2),
                   'seed': seed + 1000, 'mult': 15, 'presets': todo2,
                   'budget': 60}, a.repo, d, 'replay')
        rres, _ = wait(h, 200)
        for r in rres or []:
            c = concr.setdefault(r['name'], r)
            if c is not r:
                c['samples'] += r['samples']
                c['fails'] += r['fails']
                c['replayed'] = len(todo2.get(r['name'], []))

    viol, lines, undecided = [], [], []
    findings = {}
    rdir = os.path.join(HERE, 'evidence', 'replay')

    def report(contract, label, rec, nfi):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d.json' % (prop, contract,
                                                     len(viol)))
        rec.update({'property': prop, 'contract': contract, 'label': label})
        json.dump(rec, open(path, 'w'), indent=1, default=str)
        viol.append((contract, label))
        lines.append('VIOLATION property=%s replay=%s%s' % (
            prop, path, ' no-failing-input-found' if nfi else ''))
        print('  failed: %s / %s: %s' % (
            contract, label, str(rec.get('detail'))[:400]))

    allnames = sorted(set(symr) | set(concr))
    for n in allnames:
        failed = set()
        for f in concr.get(n, {}).get('fails', []):
            if (n, f['label']) in kn:
                findings[(n, f['label'])] = f
                continue
            if f['label'] in failed:
                continue
            failed.add(f['label'])
            report(n, f['label'], {
                'kind': 'input', 'detail': f['detail'], 'rng': f['rng'],
                'preset': f['preset'], 'inputs': f['inputs'],
                'source': f['source']}, False)
        if failed:
            continue
        r = symr.get(n)
        if r is None:
            continue
        ref = {}
        for o in r['obligations']:
            if o['status'] == 'proved':
                continue
            if (n, o['label']) in kn:
                findings.setdefault((n, o['label']), o)
                continue
            if o['status'] == 'refuted' and not o['tainted']:
                ref.setdefault(o['label'], o)
            else:
                undecided.append('%s/%s: %s' % (n, o['label'], o['status']))
        if ref and not r['unsupported']:
            l, o = sorted(ref.items())[0]
            report(n, l, {'kind': 'obligation', 'detail': o['detail'],
                          'countermodel': o['model'],
                          'choices': o['choices'],
                          'failed_obligations': sorted(ref),
                          'solver': 'z3: sat (negated obligation)',
                          'replay_of_countermodel': 'no failing input found'
                          }, True)
        elif ref:
            undecided += ['%s/%s: not discharged, engine limits: %s' % (
                n, l, r['unsupported'][:2]) for l in ref]
        for u in r['unsupported']:
            undecided.append('%s: outside the engine: %s' % (n, u[:300]))

    for (n, l), f in sorted(findings.items()):
        k = [x for x in known if x['contract'] == n and x['label'] == l][0]
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    if not a.names and not a.no_evidence:
        evidence(prop, a, seed, symr, concr, viol, undecided, findings, serr,
                 cerr, t0)
    nob = sum(len(r['obligations']) for r in symr.values())
    npr = sum(o['status'] == 'proved' for r in symr.values()
              for o in r['obligations'])
    ns = sum(r['samples'] for r in concr.values())
    print('%s: %d contracts, %d/%d obligations discharged, %d run-time '
          'cases, %d undecided, %.1f s' % (
              prop, len(allnames), npr, nob, ns, len(undecided),
              time.time() - t0))
    for u in undecided[:20]:
        print('  undecided: ' + u)
    if sres is None:
        print('  engine gave no result: ' + serr[-1500:])
    if cres is None:
        print('  cross-check gave no result: ' + cerr[-1500:])
    if not viol and cres is None and sres is None:
        # the code under check cannot even be imported
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + '-import.json')
        json.dump({'property': prop, 'kind': 'obligation',
                   'detail': 'the modules cannot be loaded', 'output': cerr},
                  open(path, 'w'))
        lines.append('VIOLATION property=%s replay=%s '
                     'no-failing-input-found' % (prop, path))
        viol.append(('import', 'load'))
    # alarms with a failing input first
    for l in sorted(lines, key=lambda s: s.endswith('found')):
        print(l)
    return 1 if viol else 0


def evidence(prop, a, seed, symr, concr, viol, undecided, findings, serr,
             cerr, t0):
    man = {}
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        man = [c for c in m['checks'] if c['property'] == prop][0]
    except Exception:
        pass
    level = man.get('level', 'proof')
    obl = disc = 0
    contracts, entered = [], {}
    stubs, vac = set(), []
    st = {'queries': 0, 'z3_s': 0.0, 'cvc5_s': 0.0}
    for n in sorted(set(symr) | set(concr)):
        r, c = symr.get(n), concr.get(n, {})
        rec = {'contract': n, 'run_time_cases': c.get('samples', 0),
               'run_time_failures': len(c.get('fails', []))}
        if r is not None and not r.get('bounded'):
            ob = r['obligations']
            p = sum(o['status'] == 'proved' for o in ob)
            obl += len(ob)
            disc += p
            rec.update(obligations=len(ob), discharged=p, paths=r['paths'],
                       labels=sorted(r['reached']),
                       wall_s=round(r['wall_s'], 2),
                       status='proved' if ob and p == len(ob) and not
                       r['unsupported'] else 'not fully discharged')
            dead = set(r['reached']) - set(r.get('live', []))
            if dead:
                rec['vacuous_labels'] = sorted(dead)
                vac.append(n)
            if r['unsupported']:
                rec['outside_engine'] = r['unsupported']
            for e in r['entered']:
                entered.setdefault(e, set()).add(n)
            stubs.update(r['stubs'])
        elif r is not None:
            rec.update(status='bounded: ' + r['bounded'],
                       bounded_obligations=len(r['obligations']),
                       bounded_discharged=sum(
                           o['status'] == 'proved' for o in r['obligations']))
            for e in r['entered']:
                entered.setdefault(e, set()).add(n)
            stubs.update(r['stubs'])
        else:
            rec['status'] = 'bounded: run-time contract check only'
        if r is not None:
            for k in st:
                st[k] += r['stats'].get(k, 0)
        if c.get('example'):
            rec['sample'] = c['example']
        contracts.append(rec)
    cov = {
        'obligations': obl, 'discharged': disc,
        'checker_cmd': '%s %s/check.py %s' % (PY, HERE, prop),
        'trusted_base': TRUSTED,
        'functions_under_contract': {
            k: sorted(v) for k, v in sorted(entered.items())},
        'contracts': contracts,
        'back_end': {'z3_queries': st['queries'],
                     'z3_s': round(st['z3_s'], 2),
                     'cvc5_s': round(st['cvc5_s'], 2)},
        'assumed_contracts': sorted(stubs),
        'undecided': undecided,
        'vacuous_contracts': vac,
        'known_findings': sorted('%s/%s' % k for k in findings),
        'evaluations': sum(c.get('samples', 0) for c in concr.values()),
        'distinct_nontrivial': sum(len(set(c.get('keys', [])))
                                   for c in concr.values()),
        'rule': 'run-time cases: inputs drawn per contract from VERIF_SEED '
                'plus replayed countermodels; a case counts when it meets '
                'the precondition and evaluates the postconditions',
        'samples': [c['sample'] for c in contracts if 'sample' in c][:5],
    }
    if serr or cerr:
        cov['worker_errors'] = (serr + cerr)[-2000:]
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': ASSUME + sorted(
              'assumed contract: ' + s for s in stubs),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:             # an error of the check itself
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
