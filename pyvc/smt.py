"""Discharging obligations: terms -> z3 (and cvc5 as a second opinion)."""
import time
from fractions import Fraction as Fr
import z3
from . import terms as T

# domain facts: symbol name -> function(term args) -> [Fm]
DOMAIN = {}
STATS = {'queries': 0, 'z3_s': 0.0, 'cvc5_s': 0.0, 'unknown': 0}
SEQ_FUNS = set()          # names of functions of one index (sequences)
POS_FUNS = {}             # 'pos' function name -> (seq fname, n Poly)


SORTED = {}       # permutation -> the number by which it sorts, of an index


def reset():
    DOMAIN.clear()
    SEQ_FUNS.clear()
    POS_FUNS.clear()
    T.DISTINCT.clear()
    T.FREE.clear()
    T.POSITIVE.clear()
    T.NONNEG.clear()
    T.KEY_SIMPLIFY.clear()
    T.APP_SIMPLIFY.clear()
    T.SEQPOS.clear()
    T.SEQN.clear()
    T.INCR.clear()
    SORTED.clear()
    T.PERM.clear()
    T.POSSEQ.clear()
    POSOF.clear()
    NUM_DISTINCT.clear()


def ratio(p, q):
    """the rational r with p = r*q, if any"""
    if not q.t or p.t.keys() != q.t.keys():
        return None
    rs = {c / q.t[m] for m, c in p.t.items()}
    return rs.pop() if len(rs) == 1 else None


class Enc(object):
    def __init__(self):
        self.c = {}
        self.keyc = {}
        self.consts = {}
        self.atoms = []       # in order of discovery
        self.keys = []
        self.side = []
        self.bools = {}
        self.alls = {}
        self.opaque = False
        self.memo = {}

    def atom(self, a):
        z = self.c.get(a)
        if z is None:
            if a.sort == 'I':
                z = z3.Int('a%d' % a.id)
            else:
                z = z3.Real('a%d' % a.id)
            self.c[a] = z
            self.atoms.append(a)
            if a.kind in ('sum', 'exp', 'log'):
                self.opaque = True
            if a.kind == 'exp':
                self.exponents(a, z)
        return z

    def exponents(self, a, z):
        """exp(n*u) = exp(u)**n for the exponentials that occur"""
        for b, y in list(self.c.items()):
            if isinstance(b, tuple) or b is a or b.kind != 'exp':
                continue
            r = ratio(a.data, b.data)
            if r is None:
                continue
            if abs(r) < 1:
                r, x, y = 1 / r, y, z
            else:
                x = z
            if r.denominator == 1 and abs(r) <= 6:
                p = y
                for _ in range(abs(int(r)) - 1):
                    p = p * y
                self.side.append(x == p if r > 0 else x * p == 1)

    def power(self, a, e):
        if a.kind == 'ind':
            raise AssertionError
        z = self.atom(a)
        if a.sort == 'I':
            z = z3.ToReal(z)
        if e.denominator == 1:
            n = e.numerator
            if n > 0:
                r = z
                for _ in range(n - 1):
                    r = r * z
                return r
            k = ('inv', a)
            if k not in self.c:
                i = z3.Real('inv%d' % a.id)
                self.c[k] = i
                self.side.append(z3.Implies(z != 0, i * z == 1))
                # sign
                self.side.append(z3.Implies(z > 0, i > 0))
                self.side.append(z3.Implies(z < 0, i < 0))
            i = self.c[k]
            r = i
            for _ in range(-n - 1):
                r = r * i
            return r
        if abs(e.numerator) > 64:
            k = ('pow', a, e)
            if k not in self.c:
                i = z3.Real('pw%d_%d' % (a.id, len(self.c)))
                self.c[k] = i
                self.opaque = True
                up, down = (i > 1, i < 1) if e > 0 else (i < 1, i > 1)
                self.side += [i >= 0, z3.Implies(z > 0, i > 0),
                              z3.Implies(z == 1, i == 1),
                              z3.Implies(z > 1, up),
                              z3.Implies(z3.And(z > 0, z < 1), down)]
                if e > 0:
                    self.side.append(z3.Implies(z == 0, i == 0))
            return self.c[k]
        k = ('root', a, e.denominator)
        if k not in self.c:
            i = z3.Real('rt%d_%d' % (a.id, e.denominator))
            self.c[k] = i
            self.side.append(i >= 0)
            if e.denominator <= 4:
                p = i
                for _ in range(e.denominator - 1):
                    p = p * i
                self.side.append(z3.Implies(z >= 0, p == z))
            else:
                self.opaque = True
            self.side.append(z3.Implies(z > 0, i > 0))
            self.side.append(z3.Implies(z == 0, i == 0))
            self.side.append(z3.Implies(z > 1, i > 1))
            self.side.append(z3.Implies(z3.And(z < 1, z > 0), i < 1))
        i = self.c[k]
        n = e.numerator
        if n > 0:
            r = i
            for _ in range(n - 1):
                r = r * i
            return r
        k2 = ('rootinv', a, e.denominator)
        if k2 not in self.c:
            j = z3.Real('rti%d_%d' % (a.id, e.denominator))
            self.c[k2] = j
            self.side.append(z3.Implies(i != 0, i * j == 1))
            self.side.append(z3.Implies(i > 0, j > 0))
        j = self.c[k2]
        r = j
        for _ in range(-n - 1):
            r = r * j
        return r

    def poly(self, p, want_int=False):
        if want_int:
            acc = z3.IntVal(0)
            for m, c in p.t.items():
                t = z3.IntVal(c.numerator)
                cond = []
                for a, e in m:
                    if a.kind == 'ind':
                        cond.append(self.fm(a.data))
                        continue
                    z = self.atom(a)
                    for _ in range(int(e)):
                        t = t * z
                if cond:
                    t = z3.If(z3.And(*cond), t, z3.IntVal(0))
                acc = acc + t
            return acc
        terms = []
        for m, c in p.t.items():
            t = z3.RealVal(str(c))
            first = True
            cond = []
            for a, e in m:
                if a.kind == 'ind':
                    cond.append(self.fm(a.data))
                    continue
                q = self.power(a, e)
                if first and c == 1:
                    t = q
                else:
                    t = t * q
                first = False
            if cond:
                t = z3.If(z3.And(*cond) if len(cond) > 1 else cond[0],
                          t, z3.RealVal(0))
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def key(self, k):
        z = self.keyc.get(k)
        if z is None:
            z = z3.Int('k%d' % len(self.keyc))
            self.keyc[k] = z
            self.keys.append(k)
            if k[1] == 'const':
                ix = self.consts.setdefault(k[2], len(self.consts))
                self.side.append(z == -1 - ix)
        return z

    def fm(self, f):
        z = self.memo.get(f)
        if z is None:
            z = self.memo[f] = self._fm(f)
        return z

    def _fm(self, f):
        op = f.op
        if op == 'T':
            return z3.BoolVal(True)
        if op == 'F':
            return z3.BoolVal(False)
        if op in ('le', 'eq'):
            p = f.a[0]
            if T._is_int(p):
                z = self.poly(p, True)
            else:
                z = self.poly(p)
            return z <= 0 if op == 'le' else z == 0
        if op == 'keq':
            return self.key(f.a[0]) == self.key(f.a[1])
        if op == 'b' and f.a[0] in T.MEMBER:
            pname, n = T.MEMBER[f.a[0]]
            q = T.mk_app(pname, f.a[1], 'I')
            return self.fm(T.and_(T.le0(-q), T.lt0(q - n)))
        if op == 'b':
            z = self.bools.get(f)
            if z is None:
                z = z3.Bool('b%d' % len(self.bools))
                self.bools[f] = z
                for y in f.a[1]:
                    if isinstance(y, T.Poly):
                        for a in y.atoms():
                            if a.kind != 'ind':
                                self.atom(a)
                    else:
                        self.key(y)
            return z
        if op == 'not':
            return z3.Not(self.fm(f.a[0]))
        if op == 'and':
            return z3.And(*[self.fm(x) for x in f.a])
        if op == 'or':
            return z3.Or(*[self.fm(x) for x in f.a])
        if op == 'all':
            # a proxy: true -> every instance (added in solve), false -> a
            # counterexample exists
            z = self.alls.get(f)
            if z is None:
                z = z3.Bool('q%d' % len(self.alls))
                self.alls[f] = z
                v, n, g = f.a
                kv = T.var(T.fresh_name('q'), 'I')
                self.side.append(z3.Or(z, z3.And(
                    self.fm(T.le0(-kv)), self.fm(T.lt0(kv - n)),
                    self.fm(T.not_(T.subst_fm(g, {v: kv}))))))
            return z
        raise AssertionError(op)


def _split_all(fs):
    plain, quant = [], []
    for f in fs:
        if f.op == 'and':
            p, q = _split_all(f.a)
            plain += p
            quant += q
        elif f.op == 'all':
            quant.append(f)
        elif f.op == 'or' and any(g.op == 'all' for g in f.a):
            # guard -> forall : instantiate as a whole
            quant.append(f)
        else:
            plain.append(f)
    return plain, quant


def _index_terms(enc):
    out = {}

    def arg(y):
        if isinstance(y, T.Poly):
            if T._is_int(y) and len(y.t) <= 3:
                out[y] = 1
            for a in y.atoms():
                walk(a)
        else:
            key(y)

    def key(k):
        if k[1] == 'app':
            for y in k[3]:
                arg(y)

    seen = set()

    def walk(a):
        if a in seen:
            return
        seen.add(a)
        if a.kind == 'app':
            for y in a.data[1]:
                arg(y)
            if a.sort == 'I':
                out[T.from_atom(a)] = 1
        elif a.kind == 'var' and a.sort == 'I' and '!' in a.data:
            out[T.from_atom(a)] = 1

    def fmw(f):
        for x in f.a:
            if isinstance(x, T.Fm):
                fmw(x)
            elif isinstance(x, T.Poly):
                for a in x.atoms():
                    walk(a)
            elif isinstance(x, tuple) and x and x[0] == 'k':
                key(x)
    for a in list(enc.atoms):
        walk(a)
    for k in list(enc.keys):
        key(k)
    for f in list(enc.bools):
        for y in f.a[1]:
            arg(y)
    return [p for p in out if not any(v.startswith('#') for v in p.vars)]


_sign_cache = {}
POSOF = {}
NUM_DISTINCT = set()


def body_sign(n, b, body):
    """'+', '>=0' or None for a sum body, for every 0<=b<n."""
    k = (n, b, body)
    if k in _sign_cache:
        return _sign_cache[k]
    _sign_cache[k] = None
    if T.poly_positive(body):
        r = '+'
    elif T.poly_nonneg(body):
        r = '0'
    else:
        r = None
        v = T.fresh_name('g')
        g = T.subst_poly(body, {b: T.var(v, 'I')})
        rng = [T.le0(-T.var(v, 'I')), T.lt0(T.var(v, 'I') - n)]
        if len(g.t) <= 6:
            if solve(rng, T.le0(-g), 400, light=True)[0] == 'proved':
                r = '0'
    _sign_cache[k] = r
    return r


def solve(assumptions, goal, timeout_ms=10000, light=False, want_model=False,
          extra_index=()):
    """Is goal implied?  -> ('proved'|'refuted'|'unknown', model|None, enc)"""
    if goal.op == 'T':
        return ('proved', None, None)
    if goal.op == 'all':
        v, n, f = goal.a
        k = T.fresh_name('q')
        kv = T.var(k, 'I')
        return solve(list(assumptions) +
                     [T.le0(-kv), T.lt0(kv - n)],
                     T.subst_fm(f, {v: kv}), timeout_ms, light, want_model)
    if goal.op == 'and':
        last = None
        for g in goal.a:
            r = solve(assumptions, g, timeout_ms, light, want_model)
            if r[0] != 'proved':
                return r
            last = r
        return last
    if goal in assumptions:
        return ('proved', None, None)
    plain, quant = _split_all(assumptions)
    ng = T.not_(goal)
    if goal.op == 'or':
        # negation is a conjunction: may contain foralls (as not(all)) - keep
        pass
    enc = Enc()
    zs = []
    for f in plain:
        zs.append(enc.fm(f))
    neg_foralls = []

    def encode_goal(f):
        # f is the negated goal; existential (not all) gets a skolem constant
        if f.op == 'and':
            return z3.And(*[encode_goal(x) for x in f.a])
        if f.op == 'or':
            return z3.Or(*[encode_goal(x) for x in f.a])
        if f.op == 'not' and f.a[0].op == 'all':
            v, n, g = f.a[0].a
            kv = T.var(T.fresh_name('q'), 'I')
            return z3.And(enc.fm(T.le0(-kv)), enc.fm(T.lt0(kv - n)),
                          encode_goal(T.not_(T.subst_fm(g, {v: kv}))))
        if f.op == 'all':
            neg_foralls.append(f)
            quant.append(f)
            return z3.BoolVal(True)
        return enc.fm(f)
    zs.append(encode_goal(ng))
    if not light:
        for f in _compare_sums(ng):
            zs.append(enc.fm(f))
    for x in extra_index:
        enc.poly(x, True)
    done_inst = set()
    done_dom = set()
    done_sum = set()
    done_pair = set()
    rounds = 2 if light else 4
    for rnd in range(rounds):
        n_before = len(enc.atoms) + len(enc.keys) + len(enc.alls)
        work = False
        # domain facts
        for a in list(enc.atoms):
            if a in done_dom:
                continue
            done_dom.add(a)
            for f in atom_facts(a):
                zs.append(enc.fm(f))
                work = True
        for k in list(enc.keys):
            if k in done_dom:
                continue
            done_dom.add(k)
            if k[1] == 'app' and k[2] in DOMAIN:
                for f in DOMAIN[k[2]](k[3]):
                    zs.append(enc.fm(f))
                    work = True
        idx = _index_terms(enc)
        if len(idx) > 40:
            idx = idx[:40]
        # distinct sequences
        apps = {}
        for k in enc.keys:
            if k[1] == 'app' and k[2] in T.DISTINCT:
                apps.setdefault(k[2], []).append(k)
        for f, ks in apps.items():
            for i in range(len(ks)):
                for j in range(i):
                    if (ks[i], ks[j]) in done_pair:
                        continue
                    done_pair.add((ks[i], ks[j]))
                    zs.append(enc.key(ks[i]) != enc.key(ks[j])
                              if False else z3.Implies(
                        enc.key(ks[i]) == enc.key(ks[j]),
                        enc.fm(T.eq0(ks[i][3][0] - ks[j][3][0]))))
                    work = True
        # the inverse of a duplicate-free sequence
        for a in list(enc.atoms):
            if a.kind != 'app' or a.data[0] not in POSOF:
                continue
            seq, n, numeric = POSOF[a.data[0]]
            x, = a.data[1]
            if numeric:
                cand = [(b, b.data[1][0], None) for b in list(enc.atoms)
                        if b.kind == 'app' and b.data[0] == seq]
            else:
                cand = [(k, k[3][0], k) for k in list(enc.keys)
                        if k[1] == 'app' and k[2] == seq]
            for b, i, k in cand:
                if ('p', a, b) in done_pair or i == T.from_atom(a):
                    continue
                done_pair.add(('p', a, b))
                e = T.keq(k, x) if k is not None else \
                    T.eq0(T.from_atom(b) - x)
                zs.append(enc.fm(T.implies(
                    T.and_(T.le0(-i), T.lt0(i - n), e),
                    T.eq0(T.from_atom(a) - i))))
                work = True
        # distinct numeric sequences
        for f in list(NUM_DISTINCT):
            l = [a for a in enc.atoms if a.kind == 'app' and a.data[0] == f]
            for i in range(len(l)):
                for j in range(i):
                    if ('n', l[i], l[j]) in done_pair:
                        continue
                    done_pair.add(('n', l[i], l[j]))
                    zs.append(enc.fm(T.implies(
                        T.eq0(T.from_atom(l[i]) - T.from_atom(l[j])),
                        T.eq0(l[i].data[1][0] - l[j].data[1][0]))))
                    work = True
        # increasing sequences
        for f in list(T.INCR):
            l = [a for a in enc.atoms if a.kind == 'app' and a.data[0] == f]
            for x in l:
                for y in l:
                    if x is y or ('<', x, y) in done_pair:
                        continue
                    done_pair.add(('<', x, y))
                    i, j = x.data[1][0], y.data[1][0]
                    zs.append(enc.fm(T.implies(
                        T.and_(T.le0(-i), T.lt0(i - j),
                               T.lt0(j - T.INCR[f])),
                        T.lt0(T.from_atom(x) - T.from_atom(y)))))
                    work = True
        # sorted sequences
        for f in list(SORTED):
            l = [a for a in enc.atoms if a.kind == 'app' and a.data[0] == f]
            for x in l:
                for y in l:
                    if x is y or ('<', x, y) in done_pair:
                        continue
                    done_pair.add(('<', x, y))
                    i, j = x.data[1][0], y.data[1][0]
                    zs.append(enc.fm(T.implies(
                        T.and_(T.le0(-i), T.lt0(i - j),
                               T.lt0(j - T.PERM[f])),
                        T.le0(SORTED[f](i) - SORTED[f](j)))))
                    work = True
        # functional congruence for opaque applications
        by = {}
        for a in enc.atoms:
            if a.kind == 'app' and a.data[1]:
                by.setdefault(a.data[0], []).append(a)
        for f, as_ in by.items():
            if len(as_) > 12:
                continue
            for i in range(len(as_)):
                for j in range(i):
                    if (as_[i], as_[j]) in done_pair:
                        continue
                    done_pair.add((as_[i], as_[j]))
                    eqs = []
                    for x, y in zip(as_[i].data[1], as_[j].data[1]):
                        if isinstance(x, T.Poly):
                            eqs.append(T.eq0(x - y))
                        else:
                            eqs.append(T.keq(x, y))
                    e = T.and_(*eqs)
                    if e.op == 'F':
                        continue
                    zs.append(z3.Implies(enc.fm(e),
                                         enc.atom(as_[i]) == enc.atom(as_[j])))
                    work = True
        byk = {}
        for k in enc.keys:
            if k[1] == 'app':
                byk.setdefault(k[2], []).append(k)
        for f, ks in byk.items():
            if len(ks) > 12:
                continue
            for i in range(len(ks)):
                for j in range(i):
                    if ('c', ks[i], ks[j]) in done_pair:
                        continue
                    done_pair.add(('c', ks[i], ks[j]))
                    eqs = []
                    for x, y in zip(ks[i][3], ks[j][3]):
                        if isinstance(x, T.Poly):
                            eqs.append(T.eq0(x - y))
                        else:
                            eqs.append(T.keq(x, y))
                    e = T.and_(*eqs)
                    if e.op == 'F':
                        continue
                    zs.append(z3.Implies(enc.fm(e),
                                         enc.key(ks[i]) == enc.key(ks[j])))
                    work = True
        # the empty text begins and ends with the empty text only
        empty = ('k', 'const', '')
        for b in list(enc.bools):
            if b.a[0] in ('endswith', 'startswith') and b not in done_dom:
                done_dom.add(b)
                k, x = b.a[1]
                zs.append(enc.fm(T.or_(
                    T.not_(b), T.not_(T.keq(k, empty)), T.keq(x, empty))))
                zs.append(enc.fm(T.or_(b, T.not_(T.keq(x, empty)))))
                zs.append(enc.fm(T.or_(b, T.not_(T.keq(k, x)))))
                work = True
        # congruence of boolean atoms
        bl = list(enc.bools)
        for i in range(len(bl)):
            for j in range(i):
                if bl[i].a[0] != bl[j].a[0] or not bl[i].a[1] or \
                        ('b', bl[i], bl[j]) in done_pair:
                    continue
                done_pair.add(('b', bl[i], bl[j]))
                e = T.and_(*[T.eq0(x - y) if isinstance(x, T.Poly)
                             else T.keq(x, y)
                             for x, y in zip(bl[i].a[1], bl[j].a[1])])
                if e.op != 'F':
                    zs.append(z3.Implies(enc.fm(e),
                                         enc.bools[bl[i]] ==
                                         enc.bools[bl[j]]))
        # quantified assumptions
        for q in quant:
            for i in idx:
                if (q, i) in done_inst:
                    continue
                done_inst.add((q, i))
                zs.append(enc.fm(_inst(q, i)))
                work = True
        for q in list(enc.alls):
            for i in idx:
                if ('all', q, i) in done_inst:
                    continue
                done_inst.add(('all', q, i))
                zs.append(z3.Implies(enc.alls[q], enc.fm(_inst(q, i))))
                work = True
        # sums
        for a in list(enc.atoms):
            if a.kind != 'sum':
                continue
            n, b, body = a.data
            if a not in done_sum:
                done_sum.add(a)
                sg = body_sign(n, b, body) if not light else (
                    '+' if T.poly_positive(body) else
                    '0' if T.poly_nonneg(body) else None)
                if sg:
                    zs.append(enc.atom(a) >= 0)
                if sg == '+':
                    zs.append(z3.Implies(enc.fm(T.le0(T.ONE - n)),
                                         enc.atom(a) > 0))
                zs.append(z3.Implies(enc.fm(T.le0(n)), enc.atom(a) == 0))
                work = True
            if light:
                continue
            sg = body_sign(n, b, body)
            if sg:
                # sums of the same support are positive together
                for o in list(enc.atoms):
                    if o.kind == 'sum' and o is not a and \
                            o.data[0] == n and (a, o) not in done_pair:
                        done_pair.update([(a, o), (o, a)])
                        if body_sign(*o.data) and \
                                _core(body) is not None and \
                                _core(body) == _core(o.data[2]):
                            zs.append((enc.atom(a) > 0) ==
                                      (enc.atom(o) > 0))
                            work = True
                for i in idx:
                    if (a, i) in done_sum or rnd > 1:
                        continue
                    done_sum.add((a, i))
                    inst = T.subst_poly(body, {b: i})
                    zs.append(z3.Implies(
                        enc.fm(T.and_(T.le0(-i), T.lt0(i - n))),
                        enc.atom(a) >= enc.poly(inst)))
                    work = True
        if not work and len(enc.atoms) + len(enc.keys) + \
                len(enc.alls) == n_before:
            break
    STATS['queries'] += 1
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    for z in zs:
        s.add(z)
    for z in enc.side:
        s.add(z)
    r = s.check()
    if r == z3.unknown and not light:
        # second strategy
        s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs',
                     'qfnra-nlsat').solver()
        s2.set('timeout', timeout_ms)
        try:
            for z in zs + enc.side:
                s2.add(z)
            r = s2.check()
            s = s2
        except z3.Z3Exception:
            r = z3.unknown
    STATS['z3_s'] += time.time() - t0
    if r == z3.unsat:
        return ('proved', None, enc)
    if r == z3.sat:
        return ('refuted', s.model() if want_model else None, enc)
    STATS['unknown'] += 1
    return ('unknown', None, enc)


def _core(body):
    """the body of a sum without its factors that are always positive"""
    if len(body.t) != 1:
        return None
    (m, c), = body.t.items()
    if c <= 0:
        return None
    return frozenset((a, e > 0) for a, e in m
                     if not T.poly_positive(T.from_atom(a)))


def _literals(f, out):
    if f.op in ('and', 'or', 'not'):
        for x in f.a:
            _literals(x, out)
    elif f.op in ('le', 'lt', 'eq'):
        out.append(f.a[0])


def _compare_sums(ng):
    """If a combination of sums over one range is positive then so is one of
    its terms."""
    ps, out = [], []
    _literals(ng, ps)
    for p in ps[:8]:
        q, _ = clear_denoms(p)
        n, parts = None, []
        for m, c in q.t.items():
            s = [(a, e) for a, e in m if a.kind == 'sum']
            if len(s) != 1 or s[0][1] != 1 or n not in (None, s[0][0].data[0]):
                break
            n = s[0][0].data[0]
            parts.append((T.Poly({tuple(x for x in m if x != s[0]): c}),
                          s[0][0].data[1], s[0][0].data[2]))
        else:
            if len(parts) < 2:
                continue
            for sign in (1, -1):
                w = T.var(T.fresh_name('w'), 'I')
                h = T.ZERO
                for f, b, body in parts:
                    h = h + f * T.subst_poly(body, {b: w})
                out.append(T.or_(T.le0(q.scale(sign)), T.and_(
                    T.le0(-w), T.lt0(w - n), T.lt0(-h.scale(sign)))))
    return out


def _inst(q, i):
    if q.op == 'all':
        v, n, f = q.a
        return T.implies(T.and_(T.le0(-i), T.lt0(i - n)),
                         T.subst_fm(f, {v: i}))
    # or with foralls inside
    out = []
    for g in q.a:
        out.append(_inst(g, i) if g.op == 'all' else g)
    return T.or_(*out)


def atom_facts(a):
    out = []
    if a.kind in ('var', 'app'):
        name = a.data if a.kind == 'var' else a.data[0]
        p = T.from_atom(a)
        if name in T.POSITIVE:
            out.append(T.lt0(-p))
        elif name in T.NONNEG:
            out.append(T.le0(-p))
        d = DOMAIN.get(name)
        if d is not None:
            out += d(a.data[1] if a.kind == 'app' else ())
        if name == 'mod':
            x, y = a.data[1]
            q = T.app('div', (x, y), 'I')
            out.append(T.implies(T.lt0(-y), T.and_(
                T.le0(-p), T.lt0(p - y), T.eq0(x - y * q - p))))
        elif name in ('cos', 'sin'):
            out += [T.le0(p - T.ONE), T.le0(-T.ONE - p)]
        elif name == 'round':
            x, n = a.data[1]
            e = T.const(Fr(10) ** int(-n.const()) / 2)
            out += [T.le0(p - x - e), T.le0(x - p - e),
                    T.implies(T.eq0(x), T.eq0(p))]
        elif name == 'floor':
            x, = a.data[1]
            out += [T.le0(p - x), T.lt0(x - p - T.ONE)]
    elif a.kind == 'exp':
        p = T.from_atom(a)
        out.append(T.lt0(-p))
        d = a.data
        out.append(T.implies(T.lt0(-d), T.lt0(T.ONE - p)))
        out.append(T.implies(T.lt0(d), T.lt0(p - T.ONE)))
        out.append(T.implies(T.eq0(d), T.eq0(p - T.ONE)))
        out.append(T.le0(T.ONE + d - p))
    elif a.kind == 'log':
        p = T.from_atom(a)
        d = a.data
        out.append(T.implies(T.lt0(T.ONE - d), T.lt0(-p)))
        out.append(T.implies(T.and_(T.lt0(-d), T.lt0(d - T.ONE)), T.lt0(p)))
        out.append(T.implies(T.eq0(d - T.ONE), T.eq0(p)))
    elif a.kind == 'pw':
        # the atom stands for its base
        out.append(T.eq0(T.from_atom(a) - a.data))
    return out


def clear_denoms(p):
    """-> (q, [atoms that must be nonzero]) with p == 0 <=> q == 0."""
    nz = []
    for _ in range(6):
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and a.kind != 'ind':
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            break
        f = T.ONE
        for a, e in neg.items():
            n = -e
            f = f * T.from_atom(a, n)
            nz.append(a)
        p = p * f
        # positive powers of compound bases expand
        p = expand_pw(p)
    return p, nz


def expand_pw(p):
    """Replace positive integer powers of compound bases by their expansion"""
    r = T.ZERO
    for m, c in p.t.items():
        q = T.const(c)
        for a, e in m:
            if a.kind == 'pw' and T.big(a.data, e):
                q = q * T.from_atom(a, e)
            elif a.kind == 'pw' and e > 0 and e.denominator == 1:
                q = q * T.ipow(a.data, int(e))
            elif a.kind == 'pw' and e >= 1:
                w = e.numerator // e.denominator
                q = q * T.ipow(a.data, w) * T.from_atom(a, e - w)
            else:
                q = q * T.from_atom(a, e)
        r = r + q
    return r
