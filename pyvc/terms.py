"""Canonical terms for the verifier.

Reals and integers are polynomials (with rational exponents, so quotients and
roots are monomials too) over interned atoms.  A polynomial is kept in normal
form, so identities that are true by ring reasoning are syntactic equality.

Atoms
  var      a symbolic constant                       ('var', name, sort)
  app      uninterpreted / sequence element          ('app', fname, args, sort)
  ind      0/1 indicator of an atomic formula        ('ind', fm)
  sum      SUM_{0<=b<n} body(b)                      ('sum', n, body)
  pw       a compound base (polynomial)              ('pw', poly)
  exp/log  real exponential / logarithm              ('exp', poly) ('log', poly)
Keys (names, opaque references) are tuples ('k', ...), compared for equality.
Formulas (class Fm) are built from  p<=0, p==0, key==key  and boolean atoms.
"""
from fractions import Fraction as Fr

_atoms = {}
_atom_list = []


class Atom(object):
    __slots__ = ('kind', 'data', 'sort', 'id', 'vars', 'pos', 'name')

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


POSITIVE = set()      # names of symbols declared strictly positive
NONNEG = set()        # names of symbols declared >= 0


def _atom(kind, data, sort='R', name=None):
    key = (kind, data)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data, a.sort = kind, data, sort
        a.name = name
        a.id = len(_atom_list)
        a.vars = None
        a.pos = None
        _atoms[key] = a
        _atom_list.append(a)
    return a


class Poly(object):
    """Immutable polynomial: {monomial: coefficient}."""
    __slots__ = ('t', '_h', '_key', '_vars')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._key = None
        self._vars = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(
                (tuple((a.id, e) for a, e in m), c)
                for m, c in self.t.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.t == o.t)

    def __repr__(self):
        return show(self)

    # -- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fr(0))

    @property
    def vars(self):
        if self._vars is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= atom_vars(a)
            self._vars = frozenset(s)
        return self._vars

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    # -- ring
    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: k * c for m, k in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        r = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                if type(m) is Poly:     # needed re-normalisation
                    p = m.scale(c1 * c2)
                    extra = p if extra is None else extra + p
                    continue
                n = r.get(m, 0) + c1 * c2
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        p = Poly(r)
        return p if extra is None else p + extra


ZERO = Poly({})
ONE = Poly({(): Fr(1)})


def const(c):
    c = Fr(c)
    return Poly({(): c}) if c else ZERO


def from_atom(a, e=1):
    return Poly({((a, Fr(e)),): Fr(1)})


def big(p, e):
    """powers of such polynomials are not expanded"""
    n = len(p.t)
    return n >= 12 and e > 1 and n ** min(int(e), 9) > 1000


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    exps = None
    fix = []
    for a, e in m2:
        if a in d:
            if a.kind == 'ind':
                continue
            n = d[a] + e
            if n:
                d[a] = n
                if a.kind == 'pw' and n.denominator == 1 and n > 0 and \
                        not big(a.data, n):
                    fix.append(a)
            else:
                del d[a]
        else:
            d[a] = e
            if a.kind == 'pw' and e.denominator == 1 and e > 0 and \
                    not big(a.data, e):
                fix.append(a)
    es = [a for a in d if a.kind == 'exp']
    if len(es) > 1 or (es and d[es[0]] != 1):
        p = ZERO
        for a in es:
            p = p + a.data.scale(d.pop(a))
        rest = Poly({tuple(sorted(d.items(), key=_mk)): Fr(1)})
        return rest * exp(p)
    if fix:                      # positive integer power of a compound base
        p = ONE
        for a in fix:
            e = d.pop(a)
            p = p * ipow(a.data, int(e))
        rest = Poly({tuple(sorted(d.items(), key=_mk)): Fr(1)})
        return rest * p
    return tuple(sorted(d.items(), key=_mk))


def _mk(x):
    return x[0].id


def ipow(p, n):
    r = ONE
    b = p
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


def var(name, sort='R'):
    return from_atom(_atom('var', name, sort))


def app(fname, args, sort='R'):
    return from_atom(_atom('app', (fname, tuple(args)), sort))


def atom_vars(a):
    if a.vars is None:
        if a.kind == 'var':
            s = frozenset([a.data])
        elif a.kind == 'app':
            s = frozenset().union(*[arg_vars(x) for x in a.data[1]]) \
                if a.data[1] else frozenset()
        elif a.kind == 'ind':
            s = a.data.vars
        elif a.kind == 'sum':
            s = a.data[0].vars | (a.data[2].vars - {a.data[1]})
        else:
            s = a.data.vars
        a.vars = s
    return a.vars


def arg_vars(x):
    if isinstance(x, Poly):
        return x.vars
    return key_vars(x)


def key_vars(k):
    # ('k','var',name) | ('k','const',s) | ('k','app',f,args)
    if k[1] == 'var':
        return frozenset([k[2]])
    if k[1] == 'const':
        return frozenset()
    return frozenset().union(*[arg_vars(x) for x in k[3]])


# ------------------------------------------------------------ powers
def _atom_nonneg(a):
    if a.kind == 'ind' or a.kind == 'exp':
        return True
    if a.kind == 'var':
        return a.data in POSITIVE or a.data in NONNEG
    if a.kind == 'app':
        return a.data[0] in POSITIVE or a.data[0] in NONNEG
    if a.kind == 'pw':
        return poly_nonneg(a.data)
    if a.kind == 'sum':
        return poly_nonneg(a.data[2])
    return False


def _atom_positive(a):
    if a.kind == 'exp':
        return True
    if a.kind == 'var':
        return a.data in POSITIVE
    if a.kind == 'app':
        return a.data[0] in POSITIVE
    if a.kind == 'pw':
        return poly_positive(a.data)
    return False


def _mono_nonneg(m):
    for a, e in m:
        if e.denominator == 1 and e % 2 == 0:
            continue
        if not _atom_nonneg(a):
            return False
    return True


def poly_nonneg(p):
    return all(c > 0 and _mono_nonneg(m) for m, c in p.t.items())


def poly_positive(p):
    return poly_nonneg(p) and any(
        all(_atom_positive(a) for a, e in m) for m in p.t)


def _root(c, q):
    """Exact c**q for rational c>0, or None."""
    n = c.numerator
    d = c.denominator
    k = q.denominator

    def r(x):
        y = round(x ** (1.0 / k))
        for z in (y - 1, y, y + 1):
            if z >= 0 and z ** k == x:
                return z
        return None
    if k > 60:
        return None
    try:
        rn, rd = r(n), r(d)
    except OverflowError:
        return None
    if rn is None or rd is None:
        return None
    return Fr(rn, rd) ** q.numerator


def powq(p, q):
    """p ** q for rational q. p nonzero / nonnegative is the caller's duty."""
    q = Fr(q)
    if q == 0:
        return ONE
    if q == 1:
        return p
    if q.denominator == 1 and q > 0 and (len(p.t) <= 1 or q <= 12) and \
            not big(p, q):
        return ipow(p, int(q))
    if not p.t:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if q.denominator == 1:
            r = const(c ** q.numerator)
            for a, e in m:
                r = r * _atom_pow(a, e * q)
            return r
        if c > 0:
            ok = [(a, e) for a, e in m if _atom_nonneg(a)]
            bad = [(a, e) for a, e in m if not _atom_nonneg(a)]
            rc = _root(c, q)
            if not m:
                return const(rc) if rc is not None else \
                    from_atom(_atom('pw', const(c)), q)
            if not bad or all((e.denominator == 1) for a, e in bad):
                r = const(rc) if rc is not None else \
                    from_atom(_atom('pw', const(c)), q)
                for a, e in ok:
                    r = r * _atom_pow(a, e * q)
                if bad:
                    b = Poly({tuple(bad): Fr(1)})
                    if len(bad) == 1 and bad[0][1] == 1:
                        r = r * from_atom(bad[0][0], q)
                    else:
                        r = r * from_atom(_atom('pw', b), q)
                return r
        return from_atom(_atom('pw', p), q)
    # compound base: normalise the leading coefficient to 1
    lead = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m))
    c = p.t[lead]
    if q.denominator == 1:
        # also pull out a common monomial
        p1 = p.scale(1 / c)
        com = _common(p1)
        r = const(c ** q.numerator)
        if com:
            inv = Poly({tuple((a, -e) for a, e in com): Fr(1)})
            p1 = p1 * inv
            for a, e in com:
                r = r * _atom_pow(a, e * q)
            if len(p1.t) == 1:
                return r * powq(p1, q)
        return r * from_atom(_atom('pw', p1), q)
    c = abs(c)
    rc = _root(c, q)
    if rc is not None:
        return const(rc) * from_atom(_atom('pw', p.scale(1 / c)), q)
    return from_atom(_atom('pw', p), q)


def _common(p):
    ms = iter(p.t)
    d = {a: e for a, e in next(ms) if e.denominator == 1}
    for m in ms:
        dm = dict(m)
        for a in list(d):
            e = dm.get(a)
            if e is None or e.denominator != 1 or (e > 0) != (d[a] > 0):
                del d[a]
            else:
                d[a] = min(e, d[a]) if e > 0 else max(e, d[a])
    # factors occurring with negative exponents in some monomials: clear them
    neg = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and e.denominator == 1 and a.kind != 'ind':
                neg[a] = min(neg.get(a, 0), e)
    for a, e in neg.items():
        d[a] = e
    return sorted(((a, e) for a, e in d.items() if a.kind not in
                   ('ind', 'exp') and e), key=_mk)


def _atom_pow(a, e):
    if a.kind == 'ind':
        return from_atom(a)
    if a.kind == 'exp':
        return exp(a.data.scale(e))
    if a.kind == 'pw' and e.denominator == 1 and e > 0 and \
            not big(a.data, e):
        return ipow(a.data, int(e))
    return from_atom(a, e)


def inv(p):
    return powq(p, -1)


def div(p, q):
    """p / q, q nonzero: compound denominators common to all terms of both
    cancel"""
    if len(q.t) > 1 and p.t:
        com = None
        for r in (q, p):
            for m in r.t:
                d = {a: e for a, e in m if a.kind == 'pw' and e < 0 and
                     e.denominator == 1}
                com = d if com is None else {
                    a: max(e, d[a]) for a, e in com.items() if a in d}
                if not com:
                    break
            if not com:
                break
        if com:
            f = Poly({tuple(sorted(((a, -e) for a, e in com.items()),
                                   key=_mk)): Fr(1)})
            p, q = p * f, q * f
    return p * inv(q)


def exp(p):
    if not p.t:
        return ONE
    # pull c*log(x) out: exp(c*log x) = x**c
    r = ONE
    rest = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][0].kind == 'log' and m[0][1] == 1 \
                and c.denominator <= 64:
            r = r * powq(m[0][0].data, c)
        else:
            rest[m] = c
    if rest:
        r = r * from_atom(_atom('exp', Poly(rest)))
    return r


def log(p):
    if p.t == ONE.t:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if m == () and c > 0:
            return from_atom(_atom('log', p))
        if c > 0 and all(_atom_positive(a) for a, e in m):
            r = ZERO if c == 1 else from_atom(_atom('log', const(c)))
            for a, e in m:
                if a.kind == 'exp':
                    r = r + a.data.scale(e)
                else:
                    r = r + from_atom(_atom('log', from_atom(a))).scale(e)
            return r
    return from_atom(_atom('log', p))


def powp(base, e):
    """base ** e for polynomial exponent (base > 0)."""
    if e.is_const() and e.const().denominator <= 100000:
        return powq(base, e.const())
    return exp(e * log(base))


# ------------------------------------------------------------ formulas
class Fm(object):
    """op: T F le(p) eq(p) keq(a,b) b(name,args) not and or all(v,n,f)"""
    __slots__ = ('op', 'a', '_vars', '_h', '_q')

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._vars = None
        self._h = None
        self._q = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.a))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Fm) and self.op == o.op and self.a == o.a

    @property
    def vars(self):
        if self._vars is None:
            s = set()
            for x in self.a:
                if isinstance(x, (Poly, Fm)):
                    s |= x.vars
                elif isinstance(x, tuple) and x and x[0] == 'k':
                    s |= key_vars(x)
                elif isinstance(x, tuple):
                    for y in x:
                        s |= arg_vars(y)
            if self.op == 'all':
                s.discard(self.a[0])
            self._vars = frozenset(s)
        return self._vars

    def __repr__(self):
        return show_fm(self)


TRUE = Fm('T', ())
FALSE = Fm('F', ())


def _is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.kind == 'ind':
                continue
            if a.sort != 'I' or e.denominator != 1 or e < 0:
                return False
    return True


def _norm(p):
    """Divide by the positive content."""
    from math import gcd
    if not p.t:
        return p
    g = 0
    l = 1
    for m, c in p.t.items():
        if m == () and len(p.t) > 1:
            continue
        g = gcd(g, c.numerator)
        l = l * c.denominator // gcd(l, c.denominator)
    return p.scale(Fr(l, g)) if g else p


def le0(p):
    if p.is_const():
        return TRUE if p.const() <= 0 else FALSE
    p = _norm(p)
    if _is_int_but_const(p):
        c = p.const()
        f = c.numerator // c.denominator
        if f != c:           # x + c <= 0  with x int  ->  x + ceil(c) <= 0
            p = p + const(-c + f + 1)
    return Fm('le', (p,))


def _is_int_but_const(p):
    return _is_int(p - const(p.const()))


def lt0(p):
    if p.is_const():
        return TRUE if p.const() < 0 else FALSE
    if _is_int(p):
        return le0(p + ONE)
    return not_(le0(-p))


def eq0(p):
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    p = _norm(p)
    lead = min((m for m in p.t if m), key=lambda m: tuple(
        (a.id, e) for a, e in m))
    if p.t[lead] < 0:
        p = -p
    if _is_int_but_const(p) and p.const().denominator != 1:
        return FALSE
    return Fm('eq', (p,))


def keq(a, b):
    if a == b:
        return TRUE
    if a[1] == 'const' and b[1] == 'const':
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x == ('k', 'const', '') and y[2] in NONEMPTY:
            return FALSE
        if x[1] == 'app' and x[2] == 'ite':
            c = eq0(x[3][0] - ONE)
            return or_(and_(c, keq(x[3][1], y)),
                       and_(not_(c), keq(x[3][2], y)))
    for x, y in ((a, b), (b, a)):
        if x == ('k', 'const', None):
            if y[1] == 'app' and y[2] in ('cat', 'str'):
                return FALSE
            return Fm('keq', (x, y))
    if a[1] == 'app' and b[1] == 'app' and a[2] == b[2] == 'str' and \
            len(a[3]) == len(b[3]) == 1 and \
            all(hasattr(x[3][0], 'is_const') and x[3][0].is_const()
                for x in (a, b)):
        return FALSE        # texts of two different numbers
    # elements of one duplicate-free sequence
    if a[1] == 'app' and b[1] == 'app' and a[2] == b[2] and a[2] in DISTINCT:
        return eq0(a[3][0] - b[3][0])
    g = _keq_parts(a, b)
    if g is not None:
        return g
    if repr_key(a) > repr_key(b):
        a, b = b, a
    return Fm('keq', (a, b))


DISTINCT = set()
FREE = {}       # name of an opaque text -> characters it does not contain


def key_free(k, c):
    """the text k is known not to contain the character c"""
    if k[1] == 'const':
        return c not in k[2]
    if k[1] == 'var':
        return c in FREE.get(k[2], '')
    if k[2] == 'cat':
        return all(key_free(x, c) for x in k[3])
    if k[2] == 'ite':
        return key_free(k[3][1], c) and key_free(k[3][2], c)
    if k[2] == 'before ' + c:
        return True
    return c in FREE.get(k[2], '')


NONEMPTY = {'str'}      # names of opaque texts that are not empty
EDGE = {}       # name of an opaque text -> characters it neither begins nor
#                 ends with


def key_parts(k):
    return k[3] if k[1] == 'app' and k[2] == 'cat' else (k,)


def starts(k, p):
    """the text k begins with the text p"""
    if k == p or p == ('k', 'const', ''):
        return TRUE
    if k[1] == p[1] == 'const':
        return TRUE if k[2].startswith(p[2]) else FALSE
    if k[1] == 'app' and k[2] == 'ite':
        c = eq0(k[3][0] - ONE)
        return or_(and_(c, starts(k[3][1], p)),
                   and_(not_(c), starts(k[3][2], p)))
    a, b = key_parts(k), key_parts(p)
    if len(a) >= len(b) and a[:len(b)] == b:
        return TRUE
    if len(b) > 1 and len(a) >= len(b) and a[:len(b) - 1] == b[:-1] and \
            a[len(b) - 1][1] == b[-1][1] == 'const' and \
            a[len(b) - 1][2].startswith(b[-1][2]):
        return TRUE
    x, y = a[-1], b[-1]
    if len(a) > 1 and len(b) > 1 and x == y and x[1] == 'const' and \
            len(x[2]) == 1:
        # (u + c).startswith(v + c)  iff  u == v or u.startswith(v + c)
        return or_(keq(key_cat(a[:-1]), key_cat(b[:-1])),
                   starts(key_cat(a[:-1]), p))
    return batom('startswith', (k, p))


def key_cat(ks):
    """concatenation of texts"""
    out = []
    for k in ks:
        for p in (k[3] if k[1] == 'app' and k[2] == 'cat' else (k,)):
            if p[1] == 'const' and p[2] == '':
                continue
            if out and out[-1][1] == 'const' and p[1] == 'const':
                out[-1] = ('k', 'const', out[-1][2] + p[2])
            else:
                out.append(p)
    if not out:
        return ('k', 'const', '')
    if len(out) == 1:
        return out[0]
    return ('k', 'app', 'cat', tuple(out))


def key_split(k, c):
    """k.split(c) for one character c, or None if that is not known"""
    ps = k[3] if k[1] == 'app' and k[2] == 'cat' else (k,)
    out = [[]]
    for p in ps:
        if p[1] == 'const':
            for i, x in enumerate(p[2].split(c)):
                if i:
                    out.append([])
                out[-1].append(('k', 'const', x))
        elif key_free(p, c):
            out[-1].append(p)
        else:
            return None
    return [key_cat(x) for x in out]


def _keq_parts(a, b):
    """texts with a separator are equal iff their parts are"""
    chars = set()
    for k in (a, b):
        for p in (k[3] if k[1] == 'app' and k[2] == 'cat' else (k,)):
            if p[1] == 'const':
                chars.update(p[2])
    for c in sorted(chars):
        x = key_split(a, c)
        y = key_split(b, c) if x is not None else None
        if y is None or len(x) == len(y) == 1:
            continue
        if len(x) != len(y):
            return FALSE
        return and_(*[keq(u, v) for u, v in zip(x, y)])
    return None


_REPR = {}


def repr_key(k):
    r = _REPR.get(k)
    if r is None:
        r = _REPR[k] = repr(k)
    return r


MEMBER = {}     # name of a predicate -> (position function, length)


def member(pname, q, n):
    """q is one of the n members of a duplicate-free sequence"""
    p = mk_app(pname, (q,), 'I')
    f = and_(le0(-p), lt0(p - n))
    if q[1] != 'const' or f.op in 'TF':
        return f
    MEMBER[pname + '.in'] = (pname, n)
    return batom(pname + '.in', (q,))


def batom(name, args=()):
    return Fm('b', (name, tuple(args)))


def not_(f):
    if f.op == 'T':
        return FALSE
    if f.op == 'F':
        return TRUE
    if f.op == 'not':
        return f.a[0]
    if f.op == 'and':
        return or_(*[not_(x) for x in f.a])
    if f.op == 'or':
        return and_(*[not_(x) for x in f.a])
    if f.op == 'le' and _is_int(f.a[0]):
        return le0(ONE - f.a[0])
    return Fm('not', (f,))


def and_(*fs):
    out = []
    for f in fs:
        if f.op == 'F':
            return FALSE
        if f.op == 'T':
            continue
        for g in (f.a if f.op == 'and' else (f,)):
            if g not in out:
                out.append(g)
    for g in out:
        if not_(g) in out:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Fm('and', tuple(out))


def or_(*fs):
    out = []
    for f in fs:
        if f.op == 'T':
            return TRUE
        if f.op == 'F':
            continue
        for g in (f.a if f.op == 'or' else (f,)):
            if g not in out:
                out.append(g)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Fm('or', tuple(out))


def implies(a, b):
    return or_(not_(a), b)


def forall(v, n, f):
    """for all integers 0 <= v < n : f   (v a variable name)"""
    if f.op == 'T':
        return TRUE
    if f.op == "F":
        return le0(n)
    g = _one_point(v, n, f)
    if g is not None:
        return g
    b = '#a%d' % (qdepth(f) + 1)
    if b != v:
        f = subst_fm(f, {v: var(b, 'I')})
        if f.op in 'TF':
            return forall(b, n, f)
    return Fm('all', (b, n, f))


_AQ = {}


def qdepth(x):
    """how deeply quantifiers are nested in x"""
    if isinstance(x, Poly):
        d = 0
        for m in x.t:
            for a, e in m:
                q = _AQ.get(a)
                if q is None:
                    if a.kind == 'app':
                        q = max([qdepth(y) for y in a.data[1]] or [0])
                    elif a.kind == 'sum':
                        q = max(qdepth(a.data[0]), qdepth(a.data[2]))
                    elif a.kind == 'var':
                        q = 0
                    else:
                        q = qdepth(a.data)
                    _AQ[a] = q
                if q > d:
                    d = q
        return d
    if isinstance(x, Fm):
        if x._q is None:
            d = 0
            for y in x.a:
                if isinstance(y, (Poly, Fm)):
                    d = max(d, qdepth(y))
                elif isinstance(y, tuple):
                    if y and y[0] == 'k':
                        d = max(d, qdepth(y))
                    else:
                        d = max([d] + [qdepth(z) for z in y])
            x._q = d + (x.op == 'all')
        return x._q
    if isinstance(x, tuple) and x[1] == 'app':
        return max([qdepth(y) for y in x[3]] or [0])
    return 0


def _one_point(v, n, f):
    """for all v < n: v != t or rest(v)   is   not 0 <= t < n or rest(t)"""
    if f.op == 'and':
        gs = [forall(v, n, g) for g in f.a]
        if any(g.op == 'all' for g in gs):
            return None
        return and_(*gs)
    lits = f.a if f.op == 'or' else (f,)
    for i, l in enumerate(lits):
        if l.op != 'not':
            continue
        t = None
        if l.a[0].op == 'eq':
            t = _solve_for(l.a[0], v)
        elif l.a[0].op == 'keq':
            for a, b in (l.a[0].a, l.a[0].a[::-1]):
                if a[1] == 'app' and SEQN.get(a[2]) == n and \
                        a[3] == (var(v, 'I'),) and v not in key_vars(b):
                    t = mk_app(SEQPOS[a[2]], (b,), 'I')
                    break
        if t is None:
            continue
        rest = or_(*(lits[:i] + lits[i + 1:]))
        return or_(not_(and_(le0(-t), lt0(t - n))), subst_fm(rest, {v: t}))
    return None


# ------------------------------------------------------------ indicators
def ind(f):
    """Indicator polynomial of a quantifier-free formula."""
    if f.op == 'T':
        return ONE
    if f.op == 'F':
        return ZERO
    if f.op == 'not':
        return ONE - ind(f.a[0])
    if f.op == 'and':
        r = ONE
        for x in f.a:
            r = r * ind(x)
        return r
    if f.op == 'or':
        r = ONE
        for x in f.a:
            r = r * (ONE - ind(x))
        return ONE - r
    if f.op == 'keq':
        g = _keq_index(f)
        if g is not None:
            return ind(g)
    if f.op == 'le' and _is_int(f.a[0]) and f.a[0].t:
        # canonical direction for integer comparisons: smaller key of p, 1-p
        p = f.a[0]
        lead = min((m for m in p.t if m), key=lambda m: tuple(
            (a.id, e) for a, e in m))
        if p.t[lead] < 0:
            return ONE - from_atom(_atom('ind', le0(ONE - p)))
    return from_atom(_atom('ind', f))


SEQPOS = {}     # duplicate-free name sequence -> name of its inverse
SEQN = {}       # -> its length
INCR = {}       # increasing number sequence -> its length
PERM = {}       # permutation of 0..n-1 -> n
POSSEQ = {}     # and back


def _keq_index(f):
    """a(i) == b(j) for two duplicate-free sequences: i == pos_a(b(j)).
    (indices of sequence terms are within range, see DESIGN)"""
    a, b = f.a
    if a[1] != 'app' or b[1] != 'app' or a[2] not in SEQPOS or \
            b[2] not in SEQPOS or a[2] == b[2]:
        return None
    if a[2] > b[2]:
        a, b = b, a
    return eq0(a[3][0] - mk_app(SEQPOS[a[2]], (b,), 'I'))


def _solve_pos(p, k):
    """p = +-(i - pos_a(b(k))): k == pos_b(a(i))"""
    hit = None
    for m, c in p.t.items():
        for a, e in m:
            if k in atom_vars(a):
                if len(m) != 1 or e != 1 or abs(c) != 1 or a.kind != 'app' \
                        or a.data[0] not in POSSEQ or hit is not None:
                    return None
                hit = a, c
    if hit is None:
        return None
    a, c = hit
    x, = a.data[1]
    if x[1] != 'app' or x[2] not in SEQPOS:
        return None
    j = x[3][0]
    if len(j.t) != 1 or j != var(k, 'I'):
        return None
    i = (from_atom(a).scale(c) - p).scale(1 / c)
    seq = ('k', 'app', POSSEQ[a.data[0]], (i,))
    return mk_app(SEQPOS[x[2]], (seq,), 'I')


def ite(c, a, b):
    if c.op == 'T' or a == b:
        return a
    if c.op == 'F':
        return b
    i = ind(c)
    return b + i * (a - b)


# ------------------------------------------------------------ substitution
def subst(x, s):
    """Substitute {var name: Poly | key} in Poly / Fm / key."""
    if isinstance(x, Poly):
        return subst_poly(x, s)
    if isinstance(x, Fm):
        return subst_fm(x, s)
    return subst_key(x, s)


def subst_key(k, s):
    if k[1] == 'var':
        return s.get(k[2], k)
    if k[1] == 'const':
        return k
    return mk_kapp(k[2], tuple(subst(y, s) for y in k[3]))


KEY_SIMPLIFY = {}       # fname -> function(args) -> key or None
APP_SIMPLIFY = {}       # fname -> function(args) -> Poly or None


def mk_kapp(f, args):
    h = KEY_SIMPLIFY.get(f)
    if h is not None:
        r = h(args)
        if r is not None:
            return r
    return ('k', 'app', f, tuple(args))


def mk_app(f, args, sort='R'):
    h = APP_SIMPLIFY.get(f)
    if h is not None:
        r = h(args)
        if r is not None:
            return r
    return app(f, args, sort)


def _captures(s, b):
    if b in s:
        return True
    for y in s.values():
        if b in (y.vars if isinstance(y, Poly) else key_vars(y)):
            return True
    return False


def subst_poly(p, s):
    if p.vars.isdisjoint(s):
        return p
    r = ZERO
    for m, c in p.t.items():
        q = const(c)
        for a, e in m:
            if atom_vars(a).isdisjoint(s):
                q = q * from_atom(a, e)
            else:
                b = subst_atom(a, s)
                q = q * (b if e == 1 else powq(b, e))
        r = r + q
    return r


def subst_atom(a, s):
    if a.kind == 'var':
        return s[a.data]
    if a.kind == 'app':
        return mk_app(a.data[0], tuple(subst(y, s) for y in a.data[1]),
                      a.sort)
    if a.kind == 'ind':
        return ind(subst_fm(a.data, s))
    if a.kind == 'pw':
        return subst_poly(a.data, s)
    if a.kind == 'exp':
        return exp(subst_poly(a.data, s))
    if a.kind == 'log':
        return log(subst_poly(a.data, s))
    if a.kind == 'sum':
        n, b, body = a.data
        if _captures(s, b):
            k = fresh_name('s')
            body = subst_poly(body, {b: var(k, 'I')})
            b = k
        return mk_sum(subst_poly(n, s), b, subst_poly(body, s))
    raise AssertionError(a.kind)


def subst_fm(f, s):
    if f.vars.isdisjoint(s):
        return f
    op = f.op
    if op == 'le':
        return le0(subst_poly(f.a[0], s))
    if op == 'eq':
        return eq0(subst_poly(f.a[0], s))
    if op == 'keq':
        return keq(subst_key(f.a[0], s), subst_key(f.a[1], s))
    if op == 'b':
        return batom(f.a[0], tuple(subst(y, s) for y in f.a[1]))
    if op == 'not':
        return not_(subst_fm(f.a[0], s))
    if op == 'and':
        return and_(*[subst_fm(x, s) for x in f.a])
    if op == 'or':
        return or_(*[subst_fm(x, s) for x in f.a])
    if op == 'all':
        v, n, g = f.a
        if _captures(s, v):
            k = fresh_name('q')
            g = subst_fm(g, {v: var(k, 'I')})
            v = k
        return forall(v, subst_poly(n, s), subst_fm(g, s))
    raise AssertionError(op)


def replace_atoms(x, ra):
    """Replace whole atoms {atom: Poly} and boolean atoms {Fm: Fm}
    everywhere in a Poly / Fm."""
    def pol(p):
        r = ZERO
        for m, c in p.t.items():
            q = const(c)
            for a, e in m:
                b = at(a)
                q = q * (b if e == 1 else powq(b, e))
            r = r + q
        return r

    def at(a):
        if a in ra:
            return ra[a]
        k = a.kind
        if k == 'app':
            return mk_app(a.data[0], tuple(
                pol(y) if isinstance(y, Poly) else key(y)
                for y in a.data[1]), a.sort)
        if k == 'ind':
            return ind(fm(a.data))
        if k == 'pw':
            return pol(a.data)
        if k == 'exp':
            return exp(pol(a.data))
        if k == 'log':
            return log(pol(a.data))
        if k == 'sum':
            n, b, body = a.data
            v = fresh_name('s')
            return mk_sum(pol(n), v, pol(subst_poly(body, {b: var(v, 'I')})))
        return from_atom(a)

    def key(k):
        if k[1] != 'app':
            return k
        return mk_kapp(k[2], tuple(pol(y) if isinstance(y, Poly) else key(y)
                                   for y in k[3]))

    def fm(f):
        op = f.op
        if op == 'le':
            return le0(pol(f.a[0]))
        if op == 'eq':
            return eq0(pol(f.a[0]))
        if op == 'keq':
            return keq(key(f.a[0]), key(f.a[1]))
        if op == 'b':
            if f in ra:
                return ra[f]
            return batom(f.a[0], tuple(pol(y) if isinstance(y, Poly) else
                                       key(y) for y in f.a[1]))
        if op == 'not':
            return not_(fm(f.a[0]))
        if op == 'and':
            return and_(*[fm(y) for y in f.a])
        if op == 'or':
            return or_(*[fm(y) for y in f.a])
        if op == 'all':
            v, n, g = f.a
            k = fresh_name('q')
            return forall(k, pol(n), fm(subst_fm(g, {v: var(k, 'I')})))
        return f
    return pol(x) if isinstance(x, Poly) else fm(x)


def solve_atom(f):
    """an equation p == 0 solved for one of its atoms -> (atom, Poly)"""
    p = f.a[0]
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('app', 'var'):
            a = m[0][0]
            if a.sort == 'I' and abs(c) != 1:
                continue
            rest = p - from_atom(a).scale(c)
            if any(a in atoms_in(b) for b in rest.atoms()):
                continue
            sol = rest.scale(-1 / c)
            if a.sort == 'I' and not _is_int(sol):
                continue
            if best is None or a.kind == 'app' and best[0].kind == 'var':
                best = (a, sol)
    return best


def atoms_in(a):
    out = set()

    def at(a):
        if a in out:
            return
        out.add(a)
        if a.kind == 'app':
            for y in a.data[1]:
                arg(y)
        elif a.kind == 'ind':
            fm(a.data)
        elif a.kind == 'sum':
            pol(a.data[0])
            pol(a.data[2])
        elif a.kind in ('pw', 'exp', 'log'):
            pol(a.data)

    def pol(p):
        for m in p.t:
            for b, _ in m:
                at(b)

    def arg(y):
        if isinstance(y, Poly):
            pol(y)
        elif y[1] == 'app':
            for z in y[3]:
                arg(z)

    def fm(f):
        for x in f.a:
            if isinstance(x, Fm):
                fm(x)
            elif isinstance(x, Poly):
                pol(x)
            elif isinstance(x, tuple) and x and x[0] == 'k':
                arg(x)
            elif isinstance(x, tuple):
                for y in x:
                    arg(y)
    at(a)
    return out


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return '%s!%d' % (base, _fresh[0])


# ------------------------------------------------------------ sums
def _sum_depth(p):
    d = 0
    for m in p.t:
        for a, _ in m:
            d = max(d, _atom_depth(a))
    return d


def _arg_depth(x):
    if isinstance(x, Poly):
        return _sum_depth(x)
    if isinstance(x, Fm):
        return _fm_depth(x)
    if x[1] == 'app':
        return max([_arg_depth(y) for y in x[3]] or [0])
    return 0


def _atom_depth(a):
    if a.kind == 'sum':
        return 1 + max(_sum_depth(a.data[2]), _sum_depth(a.data[0]))
    if a.kind == 'app':
        return max([_arg_depth(y) for y in a.data[1]] or [0])
    if a.kind == 'ind':
        return _fm_depth(a.data)
    if a.kind in ('pw', 'exp', 'log'):
        return _sum_depth(a.data)
    return 0


def _fm_depth(f):
    d = 0
    for x in f.a:
        if isinstance(x, Poly):
            d = max(d, _sum_depth(x))
        elif isinstance(x, Fm):
            d = max(d, _fm_depth(x))
        elif isinstance(x, tuple) and x and x[0] == 'k':
            d = max(d, _arg_depth(x))
        elif isinstance(x, tuple):
            for y in x:
                d = max(d, _arg_depth(y))
    return d


MAX_UNROLL = 12


def range_simp(body, n, k):
    """drop the conditions that 0 <= k < n decides (linear ones)"""
    def has_ind(p):
        for m in p.t:
            for a, e in m:
                if a.kind == 'ind' and k in fm_vars(a.data):
                    return True
        return False

    def pol(p):
        if not has_ind(p):
            return p
        r = ZERO
        for m, c in p.t.items():
            if not any(a.kind == 'ind' for a, e in m):
                r = r + Poly({m: c})
                continue
            q = const(c)
            for a, e in m:
                q = q * (ind(fm(a.data)) if a.kind == 'ind'
                         else from_atom(a, e))
            r = r + q
        return r

    def fm(f):
        if k not in fm_vars(f):
            return f
        if f.op == 'le':
            p = f.a[0]
            co = None
            for m, c in p.t.items():
                if any(k in atom_vars(a) for a, e in m):
                    if co is None and len(m) == 1 and m[0][1] == 1 and \
                            m[0][0].kind == 'var':
                        co = c
                    else:
                        co = 0
            if co:
                r = p - var(k, 'I').scale(co)
                at0, at1 = r, r + (n - ONE).scale(co)
                hi, lo = (at1, at0) if co > 0 else (at0, at1)
                if poly_nonneg(-hi):
                    return TRUE
                if poly_positive(lo):
                    return FALSE
                return f
            return le0(pol(p))
        if f.op == 'eq':
            return eq0(pol(f.a[0]))
        if f.op == 'not':
            return not_(fm(f.a[0]))
        if f.op == 'and':
            return and_(*[fm(x) for x in f.a])
        if f.op == 'or':
            return or_(*[fm(x) for x in f.a])
        return f
    return pol(body)


def fm_vars(f):
    r = _fmv.get(f)
    if r is None:
        r = set()
        for x in f.a:
            if isinstance(x, Fm):
                r |= fm_vars(x)
            elif isinstance(x, Poly):
                r |= set(x.vars)
            elif isinstance(x, tuple) and x and x[0] == 'k':
                r |= set(key_vars(x))
            elif isinstance(x, tuple):
                for y in x:
                    r |= set(arg_vars(y))
        _fmv[f] = r
    return r


_fmv = {}


def _self_zero(m):
    """x * [x == 0] is zero"""
    for a, e in m:
        if a.kind == 'ind' and a.data.op == 'eq':
            p = a.data.a[0]
            if len(p.t) == 1:
                (m2, _), = p.t.items()
                if m2 and all(e2 > 0 and any(
                        b is a2 and e3 > 0 for b, e3 in m)
                        for a2, e2 in m2):
                    return True
    return False


def _unpermute(body, n, k):
    """SUM_k f(perm(k)) is SUM_k f(k)"""
    if k not in body.vars:
        return body
    for f, m in PERM.items():
        if m == n:
            j = fresh_name('up')
            (mm, _), = app(f, (var(k, 'I'),), 'I').t.items()
            a = mm[0][0]
            b = replace_atoms(body, {a: var(j, 'I')})
            if j in b.vars and k not in b.vars:
                return subst_poly(b, {j: var(k, 'I')})
    return body


def mk_sum(n, k, body):
    """SUM_{0<=k<n} body, k a variable name.  (empty when n <= 0)"""
    if not body.t:
        return ZERO
    body = range_simp(body, n, k)
    if not body.t:
        return ZERO
    if PERM:
        body = _unpermute(body, n, k)
    if n.is_const():
        c = n.const()
        if c <= 0:
            return ZERO
        if c <= MAX_UNROLL:
            r = ZERO
            for i in range(int(c)):
                r = r + subst_poly(body, {k: const(i)})
            return r
    c0 = n.const()
    if 0 < c0 <= MAX_UNROLL and not n.is_const():
        # peel: valid when n - c0 >= 0, which holds for n = (nonneg) + c0
        base = n - const(c0)
        if poly_nonneg(base):
            r = mk_sum(base, k, body)
            for i in range(int(c0)):
                r = r + subst_poly(body, {k: base + const(i)})
            return r
    out = ZERO
    for m, c in body.t.items():
        if _self_zero(m):
            continue
        indep = []
        dep = []
        for a, e in m:
            (dep if k in atom_vars(a) else indep).append((a, e))
        pref = Poly({tuple(indep): c})
        if not dep:
            nn = n if poly_nonneg(n) else ite(le0(n), ZERO, n)
            out = out + pref * nn
            continue
        out = out + pref * _sum_mono(n, k, tuple(dep))
    return out


def _solve_for(f, k, inj=False):
    """f an 'eq' formula linear in integer var k with coefficient +-1."""
    p = f.a[0]
    kv = None
    for m, c in p.t.items():
        if any(a.kind == 'var' and a.data == k for a, e in m):
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1 or kv is not None:
                return None
            kv = c
        elif any(k in atom_vars(a) for a, e in m):
            return _solve_pos(p, k) if inj and kv is None else None
    if kv is None:
        return None
    rest = p - var(k, 'I').scale(kv)
    sol = rest.scale(-1 / kv)
    return sol if _is_int(sol) else None


def _sum_mono(n, k, m):
    # Kronecker delta
    for idx, (a, e) in enumerate(m):
        if a.kind == 'ind' and a.data.op == 'eq':
            s = _solve_for(a.data, k)
            if s is not None:
                rest = Poly({m[:idx] + m[idx + 1:]: Fr(1)})
                v = subst_poly(rest, {k: s})
                return ind(and_(le0(-s), lt0(s - n))) * v
    # exchange of summation when the inner sum has a delta in k
    for idx, (a, e) in enumerate(m):
        if a.kind == 'sum' and e == 1:
            n2, b, body2 = a.data
            if k in n2.vars:
                continue
            if not _has_delta(body2, k):
                continue
            rest = Poly({m[:idx] + m[idx + 1:]: Fr(1)})
            j = fresh_name('s')
            body2 = subst_poly(body2, {b: var(j, 'I')})
            return mk_sum(n2, j, mk_sum(n, k, rest * body2))
    body = Poly({m: Fr(1)})
    d = _sum_depth(body) + 1
    b = '#b%d' % d
    canon = subst_poly(body, {k: var(b, 'I')})
    # substitution may have re-normalised the body
    if len(canon.t) == 1:
        (m2, c2), = canon.t.items()
        at = _atom('sum', (n, b, Poly({m2: Fr(1)})), 'R')
        return from_atom(at).scale(c2)
    at = _atom('sum', (n, b, canon), 'R')
    return from_atom(at)


def _has_delta(body, k):
    for m in body.t:
        ok = False
        for a, e in m:
            if a.kind == 'ind' and a.data.op == 'eq' and \
                    _solve_for(a.data, k) is not None:
                ok = True
        if not ok:
            return False
    return True


# ------------------------------------------------------------ derivative
def deriv(p, v):
    """d p / d v for a real variable v (indicators are treated as constant:
    only valid where no indicator's truth changes)."""
    r = ZERO
    if v not in p.vars:
        return r
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            if v not in atom_vars(a):
                continue
            rest = Poly({m[:i] + m[i + 1:]: c})
            da = _datom(a, v)
            if not da.t:
                continue
            lower = ONE if e == 1 else _atom_pow_any(a, e - 1).scale(e)
            r = r + rest * lower * da
    return r


def _atom_pow_any(a, e):
    if e == 0:
        return ONE
    return _atom_pow(a, e)


def _datom(a, v):
    if a.kind == 'var':
        return ONE
    if a.kind == 'ind':
        return ZERO
    if a.kind == 'exp':
        return from_atom(a) * deriv(a.data, v)
    if a.kind == 'log':
        return inv(a.data) * deriv(a.data, v)
    if a.kind == 'pw':
        return deriv(a.data, v)
    if a.kind == 'sum':
        n, b, body = a.data
        k = fresh_name('s')
        return mk_sum(n, k, deriv(subst_poly(body, {b: var(k, 'I')}), v))
    raise NotImplementedError('derivative of %r' % (a,))


# ------------------------------------------------------------ printing
def show_key(k):
    if k[1] == 'var':
        return str(k[2])
    if k[1] == 'const':
        return repr(k[2])
    return '%s(%s)' % (k[2], ','.join(
        show(y) if isinstance(y, Poly) else show_key(y) for y in k[3]))


def show_atom(a):
    if a.kind == 'var':
        return a.data
    if a.kind == 'app':
        return '%s(%s)' % (a.data[0], ','.join(
            show(y) if isinstance(y, Poly) else show_key(y)
            for y in a.data[1]))
    if a.kind == 'ind':
        return '[%s]' % show_fm(a.data)
    if a.kind == 'sum':
        return 'SUM(%s<%s: %s)' % (a.data[1], show(a.data[0]),
                                   show(a.data[2]))
    if a.kind == 'pw':
        return '(%s)' % show(a.data)
    return '%s(%s)' % (a.kind, show(a.data))


def show(p, limit=4000):
    if not p.t:
        return '0'
    parts = []
    for m, c in p.t.items():
        s = '*'.join(show_atom(a) + ('' if e == 1 else '^%s' % e)
                     for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        parts.append(s)
    r = ' + '.join(parts)
    return r if len(r) < limit else r[:limit] + '...'


def show_fm(f):
    if f.op in 'TF':
        return f.op
    if f.op == 'le':
        return '%s<=0' % show(f.a[0])
    if f.op == 'eq':
        return '%s==0' % show(f.a[0])
    if f.op == 'keq':
        return '%s==%s' % (show_key(f.a[0]), show_key(f.a[1]))
    if f.op == 'b':
        return '%s(%s)' % (f.a[0], ','.join(
            show(y) if isinstance(y, Poly) else show_key(y)
            for y in f.a[1]))
    if f.op == 'not':
        return '!(%s)' % show_fm(f.a[0])
    if f.op == 'all':
        return 'ALL %s<%s: %s' % (f.a[0], show(f.a[1]), show_fm(f.a[2]))
    return '(' + (' & ' if f.op == 'and' else ' | ').join(
        show_fm(x) for x in f.a) + ')'
