#!/opt/venv/bin/python
"""Differential test of the engine: random small functions with loops are run
symbolically (all paths) and concretely; on every sampled input some untainted
path must be open and all open paths must give the concrete result.

  python3 tools/fuzz_engine.py SEED COUNT"""
import itertools
import os
import random
import sys
import tempfile
import time
from fractions import Fraction as Fr

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


class Gen(object):
    def __init__(self, r):
        self.r = r

    def num(self, env, d=2):
        r = self.r
        k = r.random()
        if d == 0 or k < 0.6:
            return r.choice(env + ['1.0', '2.0', '0.0'])
        if k < 0.9:
            return '(%s %s %s)' % (self.num(env, d - 1),
                                   r.choice(['+', '-', '*', '+']),
                                   self.num(env, d - 1))
        return '(%s if %s else %s)' % (self.num(env, d - 1),
                                       self.cond(env), self.num(env, d - 1))

    def cond(self, env):
        r = self.r
        c = '%s %s %s' % (self.num(env, 1), r.choice(
            ['<', '>', '<=', '==', '!=']), self.num(env, 1))
        k = r.random()
        if k < 0.15:
            return '(%s and %s)' % (c, self.cond(env))
        if k < 0.25:
            return '(%s or %s)' % (c, self.cond(env))
        if k < 0.3:
            return 'not (%s)' % c
        return c

    def seq(self):
        return self.r.choice(['xs', 'ys', 'xs', 'ys', 'l'])

    def expr(self, env):
        r = self.r
        k = r.random()
        if k < 0.75:
            return self.num(env)
        v = 'v%d' % r.randrange(9)
        q = r.choice(['xs', 'ys'])
        e = self.num(env + [v], 1)
        if k < 0.8:
            return 'sum([%s for %s in %s])' % (e, v, q)
        if k < 0.86:
            return 'sum([%s for %s in %s if %s])' % (e, v, q,
                                                     self.cond(env + [v]))
        if k < 0.9:
            return '(1.0 if any(%s for %s in %s) else 0.0)' % (
                self.cond(env + [v]), v, q)
        if k < 0.94:
            return '(1.0 if all(%s for %s in %s) else 0.0)' % (
                self.cond(env + [v]), v, q)
        return r.choice(['float(len(xs))', 'sum(ys)', 'float(len(l))',
                         '(1.0 if %s in ys else 0.0)' % self.num(env, 0),
                         'sum(l)', 'find(xs, %s)' % self.num(env, 0),
                         'o.v', 'max(%s, %s)' % (self.num(env, 0),
                                                 self.num(env, 0))])

    def body(self, env, loops, ind, size):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 2, 3]) if size else 1):
            k = r.random()
            if k < 0.3:
                v = r.choice(['s', 't'])
                out.append('%s += %s' % (v, self.expr(env)))
            elif k < 0.42:
                v = r.choice(['s', 't'])
                out.append('%s = %s' % (v, self.expr(env)))
            elif k < 0.47:
                out.append('l.append(%s)' % self.num(env, 1))
            elif k < 0.51:
                out.append('o.v %s %s' % (r.choice(['=', '+=']),
                                          self.expr(env)))
            elif k < 0.55 and loops:
                i = loops[-1][0]
                q = loops[-1][1]
                if i:
                    out.append('%s[%s] = %s' % (q, i, self.num(env, 1)))
                else:
                    out.append('c += 1')
            elif k < 0.72 and size:
                out.append('if %s:' % self.cond(env))
                out += ['    ' + x for x in self.body(env, loops, ind + 1,
                                                      size - 1)]
                if r.random() < 0.4:
                    out.append('else:')
                    out += ['    ' + x for x in self.body(
                        env, loops, ind + 1, size - 1)]
            elif k < 0.86 and len(loops) < 2 and size:
                q = self.seq()
                d = len(loops)
                kind = r.random()
                if kind < 0.5:
                    head, new, lp = 'for x%d in %s:' % (d, q), ['x%d' % d], \
                        (None, q)
                elif kind < 0.8:
                    head, new, lp = 'for i%d, x%d in enumerate(%s):' % (
                        d, d, q), ['x%d' % d, 'i%d' % d], ('i%d' % d, q)
                else:
                    head, new, lp = 'for i%d in range(len(%s)):' % (d, q), \
                        ['%s[i%d]' % (q, d), 'i%d' % d], ('i%d' % d, q)
                out.append(head)
                out += ['    ' + x for x in self.body(
                    env + new, loops + [lp], ind + 1, size - 1)]
                if r.random() < 0.15:
                    out.append('else:')
                    out.append('    t += 1.0')
            elif k < 0.93 and loops:
                out.append(r.choice(['break', 'continue',
                                     'return s', 'break']))
                break
            else:
                out.append('c += 1')
        return out

    def function(self):
        b = ['s = 0.0', 't = 1.0', 'c = 0', 'l = []', 'o = O(a)']
        while True:
            m = []
            for _ in range(self.r.choice([1, 1, 2, 3])):
                m += self.body(['s', 't', 'a', 'b', 'c'], [], 0, 3)
            if any(x.startswith('for') for x in m):
                break
        b += m
        b.append('return %s' % self.r.choice(
            ['s', 's + t', 's + 10.0 * t + 100.0 * c', 's + sum(l)',
             's + o.v', 's + len(l) + c']))
        return ['def f(xs, ys, a, b):'] + ['    ' + x for x in b]


HEAD = '''
class O(object):
    def __init__(self, v, k=''):
        self.v = v
        self.k = k


def find(q, z):
    for i, x in enumerate(q):
        if x == z:
            return float(i)
    return -1.0


'''


class Gen2(object):
    """functions with dicts, objects and names"""

    def __init__(self, r):
        self.r = r

    def num(self, env):
        r = self.r
        k = r.random()
        if k < 0.7:
            return r.choice(env + ['1.0', '2.0', 's', 'a'])
        return '(%s %s %s)' % (r.choice(env + ['1.0', 's']), r.choice('+-*'),
                               r.choice(env + ['2.0', 'a']))

    def key(self, keys):
        return self.r.choice(keys + keys + ['k0'])

    def cond(self, env, keys):
        r = self.r
        k = r.random()
        if k < 0.35:
            return '%s %s %s' % (self.num(env), r.choice(['<', '>', '==']),
                                 self.num(env))
        if k < 0.55:
            return '%s %s %s' % (self.key(keys), r.choice(['==', '!=']),
                                 self.key(keys))
        if k < 0.75:
            return '%s %s %s' % (self.key(keys), r.choice(['in', 'not in']),
                                 r.choice(['ks', 'js']))
        if k < 0.9:
            return '%s in d' % self.key(keys)
        return '%s.v > %s' % (r.choice(['o']), self.num(env))

    def body(self, env, keys, objs, nums, d, size):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 2])):
            k = r.random()
            if k < 0.15:
                out.append('s += %s' % self.num(env))
            elif k < 0.4:
                q = self.key(keys)
                c = r.random()
                if c < 0.4:
                    out.append('d[%s] = %s' % (q, self.num(env)))
                elif c < 0.7:
                    out.append('d[%s] = d.get(%s, 0.0) + %s' % (
                        q, q, self.num(env)))
                elif c < 0.85:
                    out += ['if %s in d:' % q,
                            '    d[%s] += %s' % (q, self.num(env)),
                            'else:', '    d[%s] = %s' % (q, self.num(env))]
                else:
                    out.append('s += d.get(%s, 0.0)' % q)
            elif k < 0.5 and objs:
                o = r.choice(objs)
                out.append(r.choice(['%s.v += %s' % (o, self.num(env)),
                                     's += %s.v' % o, 'o = %s' % o,
                                     '%s.v = %s' % (o, self.num(env))]))
            elif k < 0.56:
                q = r.choice(['ks', 'js'])
                out += ['if k0 in %s:' % q,
                        '    s += %s[%s.index(k0)]' % (
                            {'ks': 'xs', 'js': 'ys'}[q], q)]
            elif k < 0.7 and size:
                out.append('if %s:' % self.cond(env, keys))
                out += ['    ' + x for x in self.body(env, keys, objs, nums,
                                                      d, size - 1)]
            elif k < 0.9 and d < 2 and size:
                c = r.random()
                n1 = 'x%d' % d
                if c < 0.3:
                    q = r.choice(['ks', 'js'])
                    v = {'ks': 'xs', 'js': 'ys'}[q]
                    out.append('for i%d, q%d in enumerate(%s):' % (d, d, q))
                    e2, k2, o2 = env + ['%s[i%d]' % (v, d)], \
                        keys + ['q%d' % d], objs
                elif c < 0.5:
                    out.append('for q%d, %s in zip(ks, xs):' % (d, n1))
                    e2, k2, o2 = env + [n1], keys + ['q%d' % d], objs
                elif c < 0.75:
                    out.append('for o%d in os:' % d)
                    e2, k2, o2 = env + ['o%d.v' % d], keys + [
                        'o%d.k' % d], objs + ['o%d' % d]
                else:
                    out.append('for %s in ys:' % n1)
                    e2, k2, o2 = env + [n1], keys, objs
                out += ['    ' + x for x in self.body(
                    e2, k2, o2, nums, d + 1, size - 1)]
                if r.random() < 0.15:
                    out.append('    ' + r.choice([
                        'break', 'if s > 1.0:\n    ' + '        break']))
            elif d and k < 0.95:
                out.append(r.choice(['continue', 'break', 'return s']))
                break
            else:
                out.append('s = %s' % self.num(env))
        return out

    def function(self):
        r = self.r
        init = r.choice(['d = {}', 'd = dict(zip(ks, xs))',
                         'd = {k: x for k, x in zip(ks, xs)}'])
        b = ['s = 0.0', 'o = O(a)', init]
        while True:
            m = []
            for _ in range(r.choice([1, 2, 2])):
                m += self.body(['a'], [], [], [], 0, 3)
            if any(x.startswith('for') for x in m):
                break
        b += '\n'.join(m).split('\n')
        b.append('return %s' % r.choice([
            's + d.get(k0, -5.0)', 's + (1.0 if k0 in d else 0.0)',
            's + d.get(k0, 0.0) + sum([o9.v for o9 in os])', 's + o.v',
            's + sum(d.values())', 's + len(d)']))
        return ['def f(ks, xs, js, ys, os, k0, a):'] + [
            '    ' + x for x in b]


class Undefined(Exception):
    pass


def evaluator(T, env, funcs):
    def poly(p, b):
        s = Fr(0)
        for m, c in p.t.items():
            # indicators first: they guard the other factors
            v = c
            for a, e in sorted(m, key=lambda x: x[0].kind != 'ind'):
                if a.kind == 'ind':
                    if not fm(a.data, b):
                        v = Fr(0)
                        break
            if not v:
                continue
            for a, e in m:
                if a.kind == 'ind':
                    continue
                x = atom(a, b)
                if e < 0 and x == 0:
                    raise Undefined()
                if e.denominator != 1:
                    raise Undefined()
                v *= x ** int(e)
            s += v
        return s

    def atom(a, b):
        if a.kind == 'var':
            if a.data in b:
                return Fr(b[a.data])
            return Fr(env[a.data])
        if a.kind == 'app':
            args = [poly(x, b) if isinstance(x, T.Poly) else key(x, b)
                    for x in a.data[1]]
            return Fr(funcs(a.data[0], args))
        if a.kind == 'sum':
            n, v, body = a.data
            return sum((poly(body, dict(b, **{v: i})) for i in range(
                max(0, int(poly(n, b))))), Fr(0))
        if a.kind == 'pw':
            return poly(a.data, b)
        raise Undefined()

    def key(k, b):
        if k[1] == 'const':
            return k[2]
        if k[1] == 'var':
            return env[k[2]]
        if k[2] == 'ite':
            return key(k[3][1 if poly(k[3][0], b) == 1 else 2], b)
        return funcs(k[2], [poly(x, b) if isinstance(x, T.Poly)
                            else key(x, b) for x in k[3]])

    def fm(f, b):
        if f.op == 'keq':
            return key(f.a[0], b) == key(f.a[1], b)
        if f.op == 'b' and f.a[0].endswith('.in'):
            return funcs(f.a[0][:-3], [key(x, b) for x in f.a[1]]) >= 0
        if f.op == 'T':
            return True
        if f.op == 'F':
            return False
        if f.op == 'le':
            return poly(f.a[0], b) <= 0
        if f.op == 'eq':
            return poly(f.a[0], b) == 0
        if f.op == 'not':
            return not fm(f.a[0], b)
        if f.op == 'and':
            return all(fm(x, b) for x in f.a)
        if f.op == 'or':
            return any(fm(x, b) for x in f.a)
        if f.op == 'all':
            v, n, g = f.a
            return all(fm(g, dict(b, **{v: i})) for i in range(
                max(0, int(poly(n, b)))))
        raise Undefined()
    return poly, fm


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    d = tempfile.mkdtemp(prefix='verif-fuzz-')
    os.mkdir(d + '/auxi')
    open(d + '/auxi/__init__.py', 'w').close()
    os.environ['VERIF_REPO'] = d
    from pyvc import instr, runtime, engine, smt, terms as T, harness
    from pyvc import values as V
    import importlib
    instr.install(runtime.rt, d)
    engine.E_CUR[0] = engine.Engine()
    stats = {'ok': 0, 'limits': 0, 'tainted': 0, 'bad': 0, 'cases': 0,
             'skipped': 0}
    for no in range(count):
        r = random.Random('%d/%d' % (seed, no))
        two = no % 2
        src = HEAD + '\n'.join((Gen2 if two else Gen)(r).function()) + '\n'
        name = 'auxi.f%d' % no
        open('%s/auxi/f%d.py' % (d, no), 'w').write(src)
        ns = {}
        try:
            exec(compile(src, 'f', 'exec'), ns)
        except SyntaxError:
            stats['skipped'] += 1
            continue
        importlib.invalidate_caches()
        try:
            mod = importlib.import_module(name)
        except SyntaxError:
            continue
        smt.reset()
        e = engine.Engine(deadline=time.time() + 20)
        engine.E_CUR[0] = e
        e.stubs = {}
        e.choice_log = {}
        paths = []

        def one():
            h = harness.SymH(e)
            n, m = h.size('n'), h.size('m')
            if two:
                m2 = h.size('m2')
                xs, ys = h.vec('x', n), h.vec('y', m)
                v, k = h.func('v'), h.texts('ok')
                args = [h.names('ks', n), xs, h.names('js', m), ys,
                        h.objects(m2, lambda i: mod.O(v(i), k(i))),
                        h.token('k0'), h.real('a')]
            else:
                xs, ys = h.vec('x', n), h.vec('y', m)
                args = [xs, ys, h.real('a'), h.real('b')]
            res = mod.f(*args)
            out = [V.to_poly(res)]
            # the arguments afterwards
            for v, k in ((xs, n), (ys, m)):
                q = T.var(T.fresh_name('fz'), 'I')
                out.append((q, V.to_poly(V.seq_at(v, q)),
                            V.to_poly(V.seq_len(v))))
            if not e.discovery:
                paths.append((list(e.pc), list(e.taint), out))
        try:
            e.explore(one)
        except engine.TimeOut:
            e.unsupported.append('time')
        if e.unsupported or e.obls:
            stats['limits'] += 1
            if os.environ.get('FUZZ_V'):
                print(no, (e.unsupported or [str(o.label) for o in e.obls])[
                    :1])
            continue
        tainted = any(t for _, t, _ in paths)
        bad = None
        cr = random.Random(no)
        for _ in range(25):
            n, m = cr.randrange(4), cr.randrange(4)
            xs = [cr.choice([-1, 0, 1, 2, 3, Fr(1, 2)]) for _ in range(n)]
            ys = [cr.choice([-1, 0, 1, 2, 3, Fr(1, 2)]) for _ in range(m)]
            xs, ys = [Fr(v) for v in xs], [Fr(v) for v in ys]
            a, b = Fr(cr.choice([-1, 0, 1, 2])), Fr(cr.choice([0, 1, 3]))
            x2, y2 = list(xs), list(ys)
            pool = list('pqrst')
            ks, js = cr.sample(pool, n), cr.sample(pool, m)
            m2 = cr.randrange(4)
            ov = [Fr(cr.choice([-1, 0, 1, 2])) for _ in range(m2)]
            ok = [cr.choice(pool) for _ in range(m2)]
            k0 = cr.choice(pool)
            if two:
                call = [list(ks), x2, list(js), y2, [
                    ns['O'](v, k) for v, k in zip(ov, ok)], k0, a]
            else:
                call = [x2, y2, a, b]
            try:
                want = Fr(ns['f'](*call))
            except (IndexError, KeyError):
                continue
            env = {'n': n, 'm': m, 'm2': m2, 'a': a, 'b': b, 'k0': k0}

            def funcs(f, args):
                if f == 'v':
                    i = int(args[0])
                    return ov[i] if 0 <= i < m2 else 77
                if f in ('ks', 'js', 'ok'):
                    l = {'ks': ks, 'js': js, 'ok': ok}[f]
                    i = int(args[0])
                    return l[i] if 0 <= i < len(l) else 'none%s%d' % (f, i)
                if f in ('ks.pos', 'js.pos'):
                    l = ks if f == 'ks.pos' else js
                    return l.index(args[0]) if args[0] in l else -1
                if f in ('x', 'y'):
                    l = xs if f == 'x' else ys
                    i = int(args[0])
                    return l[i] if 0 <= i < len(l) else 77
                raise Undefined()
            opened = False
            unknown = False
            for pc, taint, out in paths:
                if taint:
                    unknown = True
                    continue
                free = set()
                from pyvc.loops import symbols
                for f in pc:
                    free |= symbols(f)
                free = sorted(s for s in free if '!' in s and
                              not s.startswith('#'))
                free = [s for s in free if s.startswith(('k@', 'w!',
                                                         'first!',
                                                         'iters!'))]
                if len(free) > 4:
                    unknown = True
                    continue
                for vals in itertools.product(range(4), repeat=len(free)):
                    ev = dict(env, **dict(zip(free, vals)))
                    poly, fm = evaluator(T, ev, funcs)
                    try:
                        if not all(fm(f, {}) for f in pc):
                            continue
                        opened = True
                        got = poly(out[0], {})
                        if got != want:
                            bad = ('result', xs, ys, a, b, 'want', want,
                                   'got', got)
                            break
                        for (q, p, k), l in zip(out[1:], (x2, y2)):
                            if poly(k, {}) != len(l):
                                bad = ('length', xs, ys)
                            for i, v in enumerate(l):
                                g = poly(p, {list(q.atoms())[0].data: i})
                                if g != v:
                                    bad = ('argument', xs, ys, a, b, i, v, g)
                    except (Undefined, KeyError):
                        unknown = True
                        opened = True
                    if bad:
                        break
                if bad:
                    break
            stats['cases'] += 1
            if not opened and not unknown and not bad:
                bad = ('no path', xs, ys, a, b, 'want', want)
            if bad:
                break
        if bad:
            stats['bad'] += 1
            print('seed %d no %d: %s' % (seed, no, ' '.join(map(str, bad))))
            print(src[len(HEAD):])
            for pc, taint, out in paths[:4]:
                print('   ', [T.show_fm(f) for f in pc], taint,
                      T.show(out[0]))
        elif tainted:
            stats['tainted'] += 1
        else:
            stats['ok'] += 1
    print(stats)
    import shutil
    shutil.rmtree(d)


main()
