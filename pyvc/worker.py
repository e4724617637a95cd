"""Runs the contracts of one property: `worker.py sym|conc PROP ...`"""
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def load_contracts(prop):
    import importlib
    import glob
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts',
                                           prop.lower() + '_*.py'))):
        importlib.import_module('contracts.' +
                                os.path.basename(f)[:-3])
    from pyvc import harness
    return harness.REGISTRY.get(prop, [])


def run_sym(c, budget):
    from pyvc import engine, smt, values, runtime, harness, terms
    smt.reset()
    smt.STATS.update({'queries': 0, 'z3_s': 0.0, 'cvc5_s': 0.0,
                      'unknown': 0})
    e = engine.Engine(deadline=time.time() + budget)
    engine.E_CUR[0] = e
    e.stubs = {}
    e.choice_log = {}
    t0 = time.time()
    live = set()

    def one():
        e.choice_log = {}
        h = harness.SymH(e)
        n0 = len(e.obls)
        try:
            c.fn(h)
        finally:
            h.done()
            for o in e.obls[n0:]:
                o.path = dict(e.choice_log)
        if not e.discovery and len(e.obls) > n0:
            # vacuity: the labels checked here sit on a path whose condition
            # the solver cannot refute
            new = set(o.label for o in e.obls[n0:]) - live
            if new and smt.solve(e.pc, terms.FALSE, 2000)[0] != 'proved':
                live.update(new)
    try:
        e.explore(one)
    except BaseException as ex:
        e.unsupported.append('engine crash: %s: %s %s' % (
            type(ex).__name__, ex, traceback.format_exc()[-600:]))
    obls = []
    for o in e.obls:
        obls.append({'label': o.label, 'status': o.status,
                     'detail': o.detail if o.status != 'proved' else '',
                     'model': o.model, 'choices': o.path,
                     'tainted': o.tainted, 'opaque': o.opaque})
    return {'name': c.name, 'obligations': obls,
            'unsupported': sorted(set(e.unsupported))[:8],
            'entered': sorted(k for k in e.entered),
            'paths': e.paths, 'reached': e.reached, 'live': sorted(live),
            'bounded': c.bounded, 'lemma': c.lemma,
            'stubs': sorted(e.stubs), 'wall_s': time.time() - t0,
            'stats': dict(smt.STATS)}


def sym_main(prop, names, out, budget):
    import multiprocessing as mp
    sys.path.append(VT)
    from pyvc import instr, runtime, engine
    instr.install(runtime.rt, os.environ.get('VERIF_REPO', '/repo'))
    engine.E_CUR[0] = engine.Engine()
    cs = [c for c in load_contracts(prop) if c.sym and
          (not names or c.name in names)]
    import contracts.preload
    contracts.preload.sym(prop)
    ctx = mp.get_context('fork')
    pend = list(cs)
    running = []
    results = []
    maxp = int(os.environ.get('VERIF_JOBS', '6'))
    tmpd = out + '.d'
    os.makedirs(tmpd, exist_ok=True)

    def child(c, path):
        r = run_sym(c, min(budget, c.sym_s))
        with open(path, 'w') as f:
            json.dump(r, f, default=str)
        os._exit(0)
    while pend or running:
        while pend and len(running) < maxp:
            c = pend.pop(0)
            path = os.path.join(tmpd, c.name + '.json')
            p = ctx.Process(target=child, args=(c, path))
            p.start()
            running.append((c, p, path, time.time()))
        for r in list(running):
            c, p, path, t0 = r
            p.join(0.02)
            if not p.is_alive():
                running.remove(r)
            elif time.time() - t0 > min(budget, c.sym_s) + 30:
                p.kill()
                p.join()
                running.remove(r)
            else:
                continue
            if os.path.exists(path):
                results.append(json.load(open(path)))
            else:
                results.append({
                    'name': c.name, 'obligations': [],
                    'unsupported': ['no answer from the engine (time)'],
                    'entered': [], 'paths': 0, 'reached': {}, 'stubs': [],
                    'wall_s': time.time() - t0, 'stats': {}})
        time.sleep(0.01)
    results.sort(key=lambda r: r['name'])
    with open(out, 'w') as f:
        json.dump(results, f, default=str)


def run_conc_one(c, rng, preset=None):
    """-> (status, label, detail, log, checked)"""
    from pyvc import harness
    h = harness.ConcH(rng, preset)
    import signal
    import warnings

    def late(*a):
        raise harness.Failed('terminates', 'no result within 30 s')
    try:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(30)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.fn(h)
        return ('ok', None, None, h.log, h.checked)
    except harness.Reject:
        return ('reject', None, None, h.log, h.checked)
    except harness.Failed as e:
        return ('fail', e.label, e.detail, h.log, h.checked)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        inrepo = False
        for f in reversed(tb):
            if '/auxi/' in f.filename:
                where = ' at %s:%d' % (f.filename, f.lineno)
                inrepo = True
                break
        if not inrepo and private_gone(e):
            # an internal function the contract names is not there any more
            return ('gone', None, str(e), h.log, h.checked)
        if not inrepo:
            return ('harness-error', 'result-is-usable', '%s: %s %s' % (
                type(e).__name__, e, traceback.format_exc()[-800:]),
                h.log, h.checked)
        return ('fail', 'no-unexpected-exception', '%s: %s%s' % (
            type(e).__name__, e, where), h.log, h.checked)
    finally:
        signal.alarm(0)
        for f in h.cleanup:
            try:
                f()
            except Exception:
                pass


def private_gone(e):
    import re
    if isinstance(e, (AttributeError, NameError)):
        n = getattr(e, 'name', None) or ''
        return n.startswith('_') and not n.startswith('__')
    if isinstance(e, TypeError):
        m = re.match(r"(?:[\w<>.]*\.)?(_[a-zA-Z]\w*)\(\) (missing|takes|got)",
                     str(e))
        return m is not None
    return False


def conc_main(prop, names, out, seed, mult, presets, budget):
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    cs = [c for c in load_contracts(prop) if c.conc and
          (not names or c.name in names)]
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    tmpd = out + '.d'
    os.makedirs(tmpd, exist_ok=True)
    # import the code once, before forking
    import contracts.preload
    contracts.preload.conc(prop)

    def child(c, path):
        res = {'name': c.name, 'samples': 0, 'rejected': 0, 'fails': [],
               'errors': [], 'checked': {}, 'example': None, 'keys': []}
        t0 = time.time()
        n = int(c.samples * mult)
        i = 0
        jobs = [('model', p) for p in presets.get(c.name, [])
                for _ in range(8)]
        seen = set()
        while True:
            if jobs:
                kind, pr = jobs.pop(0)
            else:
                kind, pr = 'random', None
                if i >= n or time.time() - t0 > min(budget,
                                                    c.conc_s * max(1, mult)):
                    break
                i += 1
            s = '%s/%s/%s/%d/%d' % (prop, c.name, seed, i, len(jobs))
            r = run_conc_one(c, random.Random(s), pr)
            if r[0] == 'ok':
                res['samples'] += 1
                res['keys'].append(hash(repr(sorted(r[3].items(),
                                                    key=str))) if r[4]
                                   else 0)
                for k, v in r[4].items():
                    res['checked'][k] = res['checked'].get(k, 0) + v
                if res['example'] is None and r[4]:
                    res['example'] = r[3]
            elif r[0] == 'reject':
                res['rejected'] += 1
            elif r[0] == 'gone':
                res['errors'].append('cannot run: ' + r[2])
                break
            elif r[0] in ('fail', 'harness-error'):
                if r[1] not in seen:
                    seen.add(r[1])
                    res['fails'].append({
                        'label': r[1], 'detail': r[2], 'inputs': r[3],
                        'source': kind, 'rng': s, 'preset': pr})
                if len(res['fails']) >= 6:
                    break
                res['samples'] += 1
        res['wall_s'] = time.time() - t0
        with open(path, 'w') as f:
            json.dump(res, f, default=str)
        os._exit(0)
    pend, running, results = list(cs), [], []
    maxp = int(os.environ.get('VERIF_JOBS', '6'))
    while pend or running:
        while pend and len(running) < maxp:
            c = pend.pop(0)
            path = os.path.join(tmpd, c.name + '.json')
            p = ctx.Process(target=child, args=(c, path))
            p.start()
            running.append((c, p, path, time.time()))
        for r in list(running):
            c, p, path, t0 = r
            p.join(0.02)
            if not p.is_alive():
                running.remove(r)
            elif time.time() - t0 > min(budget, c.conc_s *
                                        max(1, mult)) + 60:
                p.kill()
                p.join()
                running.remove(r)
            else:
                continue
            if os.path.exists(path):
                results.append(json.load(open(path)))
            else:
                results.append({'name': c.name, 'samples': 0, 'rejected': 0,
                                'fails': [], 'checked': {}, 'example': None,
                                'errors': ['no answer (time)'],
                                'wall_s': time.time() - t0})
        time.sleep(0.01)
    results.sort(key=lambda r: r['name'])
    with open(out, 'w') as f:
        json.dump(results, f, default=str)


if __name__ == '__main__':
    cfg = json.load(open(sys.argv[1]))
    if cfg['mode'] == 'sym':
        sym_main(cfg['prop'], cfg.get('names'), cfg['out'], cfg['budget'])
    else:
        conc_main(cfg['prop'], cfg.get('names'), cfg['out'], cfg['seed'],
                  cfg['mult'], cfg.get('presets', {}), cfg['budget'])
