"""Contracts, written once, evaluated two ways.

mode 'sym'  : inputs are symbolic, the instrumented real code runs over all
              paths and each check is a proof obligation for all inputs;
mode 'conc' : inputs are drawn at random (or from a countermodel), the
              unmodified real code runs under CPython and each check is
              evaluated with a floating-point tolerance (replay / cross-check).
"""
import importlib
import inspect
import math
import random


def parameters(f):
    """the names of the parameters of a function"""
    return set(inspect.signature(f).parameters)


class Reject(BaseException):
    """assumption not met (conc)"""


class Failed(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, '%s: %s' % (label, detail))
        self.label, self.detail = label, detail


REGISTRY = {}


class Contract(object):
    def __init__(self, fn, prop, name, targets, samples, sym, note, known,
                 sym_s, conc_s, bounded, lemma):
        self.fn, self.prop, self.name = fn, prop, name
        self.targets, self.samples, self.sym = targets, samples, sym
        self.note, self.known = note, known
        self.sym_s, self.conc_s = sym_s, conc_s
        self.bounded = bounded
        self.lemma = lemma


def contract(prop, targets=(), samples=150, sym=True, note='', known=(),
             sym_s=200, conc_s=40, bounded='', name=None, lemma=False,
             conc=True):
    """Register a contract (harness) for a property."""
    def deco(fn):
        c = Contract(fn, prop, name or fn.__name__, list(targets), samples,
                     sym, note, known, sym_s, conc_s, bounded, lemma)
        c.conc = conc
        REGISTRY.setdefault(prop, []).append(c)
        return fn
    return deco


class Money(object):
    """the text of a number with two decimals, whatever the rounding of a
    sum in the last bits did"""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        try:
            return isinstance(o, str) and len(o.split('.')[1]) == 2 and \
                abs(float(o) - self.x) < 0.00500001 + 1e-9 * abs(self.x)
        except (ValueError, IndexError):
            return False

    def __repr__(self):
        return '%.2f' % self.x


# ------------------------------------------------------------------ concrete
_DICT = {}


def constants_of(mod):
    """numbers and short strings that occur in the source of a module"""
    if mod.__name__ in _DICT:
        return _DICT[mod.__name__]
    import ast
    num, txt = set(), set()
    try:
        tree = ast.parse(open(mod.__file__).read())
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant):
                v = x.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, (int, float)) and abs(v) < 1e6:
                    num.add(float(v))
                elif isinstance(v, str) and 0 < len(v) <= 24 and \
                        not v.split()[1:] and v == v.strip():
                    txt.add(v)
    except (OSError, SyntaxError, TypeError):
        pass
    _DICT[mod.__name__] = (sorted(num), sorted(txt))
    return _DICT[mod.__name__]


class ConcH(object):
    sym = False
    nums = ()
    txts = ()

    collect = None

    def __init__(self, rng, preset=None, tol=1e-9):
        self.rng = rng
        self.preset = preset or {}
        self.log = {}
        self.checked = {}
        self.tol = tol
        self.choices = self.preset.get('choices', {})
        self.cleanup = []
        # earlier numbers of this case; how often one of them comes again
        self.drawn = []
        self.ties = rng.choice([0.0, 0.08, 0.25])

    # -- modules
    def mod(self, name):
        m = importlib.import_module(name)
        num, txt = constants_of(m)
        self.nums = sorted(set(self.nums) | set(num))
        self.txts = sorted(set(self.txts) | set(txt))
        return m

    # -- inputs
    def _const(self, lo=None, hi=None, pos=False, nonneg=False):
        """a number of the source under check, or one next to it"""
        r = self.rng
        v = r.choice(self.nums)
        k = r.random()
        if k < 0.25:
            v = v + r.choice([-1, 1]) * r.uniform(0.0, 0.5)
        elif k < 0.5:
            v = v * r.choice([0.999, 1.001, 1.1, 0.9, 2.0, 0.5])
        if lo is not None and v < lo or hi is not None and v > hi or \
                pos and v <= 0 or nonneg and v < 0:
            return None
        return v

    def _pv(self, name):
        v = self.preset.get('vars', {}).get(name)
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, gen=None,
             rng=None, tag='float'):
        v = self._pv(name)
        if v is not None:
            v = float(v)
        elif gen is not None:
            v = gen(self.rng)
        else:
            v = self._num(lo, hi, pos, nonneg, rng)
        if tag == 'np':
            import numpy
            v = numpy.float64(v)
        self.log[name] = float(v)
        if lo is not None and v < lo or hi is not None and v > hi or \
                pos and v <= 0 or nonneg and v < 0:
            raise Reject()
        return v

    def _num(self, lo=None, hi=None, pos=False, nonneg=False, rng=None):
        r = self.rng
        if rng is not None:
            lo, hi = rng
        if self.nums and r.random() < 0.08:
            v = self._const(lo, hi, pos, nonneg)
            if v is not None:
                return v
        if self.drawn and r.random() < self.ties:
            v = r.choice(self.drawn)
            if not (lo is not None and v < lo or hi is not None and v > hi or
                    pos and v <= 0 or nonneg and v < 0):
                return v
        v = self._num_(lo, hi, pos, nonneg)
        self.drawn.append(v)
        return v

    def _num_(self, lo=None, hi=None, pos=False, nonneg=False):
        r = self.rng
        if lo is not None and hi is not None:
            x = r.random()
            if x < 0.06:
                return float(lo)
            if x < 0.12:
                return float(hi)
            return r.uniform(lo, hi)
        if lo is not None:
            return lo + self._num_(pos=True)
        if hi is not None:
            return hi - self._num_(pos=True)
        k = r.random()
        if k < 0.1 and not pos:
            return 0.0
        if k < 0.35:
            v = float(r.randint(1, 9))
        elif k < 0.8:
            v = r.uniform(0.01, 20.0)
        elif k < 0.9:
            v = r.uniform(20.0, 5000.0)
        else:
            v = r.uniform(0.0001, 0.5)
        if not (pos or nonneg) and r.random() < 0.4:
            v = -v
        return v

    def int(self, name, lo=None, hi=None, gen=None):
        v = self._pv(name)
        if v is not None:
            v = int(round(v))
        elif gen is not None:
            v = gen(self.rng)
        else:
            a = lo if lo is not None else -5
            b = hi if hi is not None else (a + 30)
            v = self.rng.randint(a, min(b, a + 40))
        self.log[name] = v
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject()
        return v

    def size(self, name, lo=0, hi=4):
        v = self._pv(name)
        if v is not None and lo <= v <= 8:
            v = int(v)
        else:
            if hi >= 3 and self.rng.random() < 0.15:
                hi = 3 * hi
            v = self.rng.randint(lo, max(lo, hi))
        self.log[name] = v
        return v

    def vec(self, name, n, kind='list', lo=None, hi=None, pos=False,
            nonneg=False, gen=None):
        out = []
        ap = self.preset.get('apps', {})
        for i in range(n):
            v = ap.get('%s(%s,)' % (name, float(i)))
            if v is None or nonneg and v < 0 or pos and v <= 0:
                v = gen(self.rng) if gen else self._num(lo, hi, pos, nonneg)
            out.append(float(v))
        self.log[name] = list(out)
        if kind == 'np':
            import numpy
            return numpy.array(out, dtype=float)
        return out

    def names(self, name, n, pool=None, free=''):
        """n distinct strings"""
        if pool:
            k = list(pool)
            self.rng.shuffle(k)
            out = k[:n]
            if len(out) < n:
                raise Reject()
        else:
            out = ['%s%d' % (name, i) for i in range(n)]
        self.log[name] = list(out)
        return out

    def name_in(self, label, names, n):
        """some element of names -> (name, index)"""
        if n == 0:
            raise Reject()
        i = self._pv(label)
        i = int(i) if i is not None and 0 <= i < n else \
            self.rng.randrange(n)
        self.log[label] = i
        return names[i], i

    def numbers(self, name, n, pos=False, nonneg=False, gen=None):
        out = []
        while len(out) < n:
            x = gen(self.rng) if gen else self._num(None, None, pos, nonneg)
            if x not in out:
                out.append(x)
        self.log[name] = list(out)
        return out

    def increasing(self, name, n, lo=None, gen=None):
        """n increasing numbers > lo"""
        out = []
        while len(out) < n:
            x = gen(self.rng) if gen else self._num(lo)
            if x not in out and (lo is None or x > lo):
                out.append(x)
        out.sort()
        self.log[name] = list(out)
        return out

    def text_map(self, order, numbers, n, val):
        """{str(numbers[i]): val(i)} in an arbitrary order"""
        ix = list(range(n))
        self.rng.shuffle(ix)
        self.log[order] = ix
        return {str(numbers[i]): val(i) for i in ix}

    def text(self, x):
        return str(x)

    def foreign_number(self, label, numbers):
        x = self._num()
        while x in numbers:
            x = self._num()
        self.log[label] = x
        return x

    def foreign_name(self, label, names, free=''):
        return '%s_not_there' % label

    def choice(self, label, options):
        v = self.choices.get(label)
        if v is None or not 0 <= v < len(options):
            v = self.rng.randrange(len(options))
        self.log['choice:' + label] = v
        return options[v]

    def func(self, name, lo=None, hi=None, pos=False, nonneg=False, arity=1,
             facts=None, grain=None):
        """an arbitrary total function of keys / numbers (when sampled, in
        steps of 1/grain)"""
        memo = {}

        def f(*a):
            if a not in memo:
                memo[a] = self._num(lo, hi, pos, nonneg)
                if grain:
                    memo[a] = round(memo[a] * grain) / float(grain)
                self.log['%s%r' % (name, a)] = memo[a]
            return memo[a]
        return f

    # -- logic
    def assume(self, c):
        if not c:
            raise Reject()

    def close(self, a, b, scale=0.0):
        if a is b:
            return True
        try:
            a = float(a)
            b = float(b)
        except TypeError:
            return a == b
        if math.isnan(a) or math.isnan(b):
            return False
        if a == b:
            return True
        d = abs(a - b)
        m = max(abs(a), abs(b), abs(scale))
        return d <= self.tol * m + 1e-12

    def near(self, a, b, tol, scale=0.0):
        """equal up to the absolute tolerance of a numerical solver"""
        return abs(float(a) - float(b)) <= tol + 1e-9 * abs(float(scale))

    def le(self, a, b):
        a, b = float(a), float(b)
        return a <= b + self.tol * max(abs(a), abs(b)) + 1e-12

    def check(self, label, c, detail=''):
        self.checked[label] = self.checked.get(label, 0) + 1
        if not c:
            self.failed(label, detail or 'condition is false')

    def failed(self, label, why):
        if self.collect is None:
            raise Failed(label, why)
        self.collect.add(label)         # selftest.py: go on

    def eq(self, label, a, b, scale=0.0):
        self.checked[label] = self.checked.get(label, 0) + 1
        try:
            ok = self.close(a, b, scale)
        except Exception as e:
            raise Failed(label, '%r vs %r (%s)' % (a, b, e))
        if not ok:
            self.failed(label, 'got %r, contract requires %r' % (a, b))

    def unreachable(self, label, detail=''):
        raise Failed(label, detail)

    def implies(self, a, b):
        return (not a) or b

    def iff(self, a, b):
        return bool(a) == bool(b)

    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def sum(self, n, f):
        r = 0.0
        for i in range(n):
            r = r + f(i)
        return r

    def forall(self, n, f):
        return all(f(i) for i in range(n))

    def at(self, s, i):
        return s[i]

    def len(self, s):
        return len(s)

    def same(self, a, b):
        """exact equality of two values (identity / keys / structures)"""
        return a is b or a == b

    def same_map(self, a, b):
        """two dictionaries with the same keys and numbers"""
        return a == b

    def contains(self, seq, x):
        return x in seq

    def ends(self, a, b):
        return a.endswith(b)

    def cents(self, x):
        return '%.2f' % x

    def parts(self, l, front, back):
        n = len(l)
        if n < front + back:
            raise Failed('items', 'a list of %d items' % n)
        return l[:front], l[front:n - back], l[n - back:]

    def over(self, l, f):
        return sum(f(x) for x in l)

    def lt(self, a, b):
        return a < b

    def near_eq(self, label, a, b, tol=1e-6):
        self.check(label, abs(a - b) <= tol, 'got %r, contract requires %r' %
                   (a, b))

    def every(self, l, f):
        return all(f(x) for x in l)

    def list(self, *xs):
        return list(xs)

    def in_order(self, l, f):
        return all(f(a) <= f(b) for a, b in zip(l, l[1:]))

    def starts(self, a, *parts):
        """the text a begins with the concatenated parts"""
        return a.startswith(''.join(parts))

    def two(self, x):
        """a number with two decimals"""
        return Money(x)

    def total(self, d):
        """the sum of the values of a dictionary of numbers"""
        return sum(d.values())

    def str(self, label, free='', gen=None, edge='', nonempty=False):
        if gen is not None:
            s = gen(self.rng)
            self.log[label] = s
            return s
        return self.choice(label, ['a', 'b', 'some text', ''])

    def token(self, label):
        """any non-empty string without white space"""
        return self.choice(label, ['a', 'B', 'assay1'] + list(self.txts)) \
            if self.rng.random() < 0.9 else '%s_%d' % (
                'X', self.rng.randrange(1000))

    def dict(self):
        return {}

    def map(self, names, n, f):
        """the dictionary {name: f(name)} over a duplicate-free sequence"""
        return {k: f(k) for k in names}

    def partial_map(self, names, n, f, has):
        """the dictionary of those names for which has(name) holds"""
        return {k: f(k) for k in names if has(k)}

    def pred(self, name, arity=1):
        """an arbitrary predicate"""
        memo = {}

        def f(*a):
            if a not in memo:
                memo[a] = self.rng.random() < 0.6
                self.log['%s%r' % (name, a)] = memo[a]
            return memo[a]
        return f

    def objects(self, n, make):
        """a list of the n objects make(0) ... make(n-1)"""
        return [make(i) for i in range(n)]

    def texts(self, name, free='', pool=None, nonempty=False):
        """an arbitrary function of numbers (and texts) to texts"""
        memo = {}

        def f(*a):
            if a not in memo:
                memo[a] = self.rng.choice(pool) if pool else '%s%d' % (
                    name, self.rng.randrange(4))
                self.log['%s%r' % (name, a)] = memo[a]
            return memo[a]
        return f

    def or_empty(self, x):
        return '' if x is None else x

    bare = or_empty

    def value(self, d, k):
        """d[k], without changing d"""
        return dict(d).get(k, 0.0)

    def amount(self, d, k):
        """d[k] if there, else 0"""
        return dict(d).get(k, 0.0)

    def has_key(self, d, k):
        return k in d

    def counter(self, d):
        """a defaultdict(float) with the contents of d"""
        import collections
        return collections.defaultdict(float, d)

    def strip(self, s):
        return s.strip()

    def exists(self, n, f):
        return any(f(i) for i in range(n))

    def log_(self, x):
        return math.log(x)

    def exp(self, x):
        return math.exp(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def cos(self, x):
        return math.cos(x)

    def log10(self, x):
        return math.log10(x)

    def abs(self, x):
        return abs(x)

    def pow(self, x, y):
        return x ** y

    def div(self, a, b):
        return a / b

    def const(self, s):
        return float(s)

    pi = math.pi

    def deriv(self, f, x, lo=None, hi=None):
        """df/dx at x, by Richardson-extrapolated central differences"""
        h = max(abs(x), 1.0) * 1e-3
        for b in (lo, hi):
            if b is not None:
                h = min(h, abs(x - b))
        if h < 1e-5 * max(abs(x), 1.0):
            raise Reject()
        d = [(f(x + s) - f(x - s)) / (2 * s) for s in (h, h / 2)]
        return (4 * d[1] - d[0]) / 3

    def limit(self, f, x, to):
        """limit of f(x) as x approaches `to` from x's side"""
        return f(to + (1e-12 if x > to else -1e-12) * abs(to))

    def close_deriv(self, label, a, b, scale=0.0):
        self.checked[label] = self.checked.get(label, 0) + 1
        m = max(abs(a), abs(b), abs(scale), 1e-9)
        if math.isnan(a) or math.isnan(b) or abs(a - b) > 2e-5 * m:
            raise Failed(label, 'derivative %r, contract requires %r' % (
                a, b))

    def call(self, fn, *a, **k):
        """-> (exception or None, result)"""
        try:
            return None, fn(*a, **k)
        except Exception as e:
            return e, None

    def snapshot(self, s):
        """contents of a list / array / dictionary now"""
        if isinstance(s, dict):
            return dict(s)
        return [float(x) for x in s]

    def stub(self, modname, path, fn, names=None):
        """assumed contract: replaces a function in sym mode only"""

    def index(self, name, n):
        """any index of a sequence of n items"""
        if n == 0:
            raise Reject()
        v = self.int(name, lo=0, gen=lambda r: r.randrange(n))
        if v >= n:
            raise Reject()
        return v

    def need(self, ok, why):
        """the contract is stated for code of this shape; otherwise it is
        undecided"""
        if not ok:
            raise Reject(why)

    def private(self, obj, name, **k):
        """call an internal function, if it still has these parameters"""
        f = getattr(obj, name, None)
        self.need(f is not None and parameters(f) == set(k),
                  'no %s of %s' % (name, ', '.join(sorted(k))))
        return f(**k)

    def class_invariant(self, cls, attr, fn):
        """attr of every object of cls equals fn(object) at loop heads (used
        only where it is verified: on entry and after every iteration)"""

    def force(self, c):
        """case split"""
        return bool(c)

    def done(self):
        pass


# ------------------------------------------------------------------ symbolic
class SymH(object):
    sym = True

    def __init__(self, eng):
        from . import terms as T
        from . import smt, values as V, runtime as R
        self.e = eng
        self.T, self.smt, self.V, self.R = T, smt, V, R
        self.pi = R.PI
        T.POSITIVE.add('pi')
        smt.DOMAIN['pi'] = lambda a: [
            T.lt0(T.const('3.14159265358979') - T.var('pi')),
            T.lt0(T.var('pi') - T.const('3.14159265358980'))]
        self._undo = []

    def mod(self, name):
        return importlib.import_module(name)

    def _decl(self, name, lo, hi, pos, nonneg, app=False):
        T = self.T
        if pos or (lo is not None and lo > 0):
            T.POSITIVE.add(name)
        elif nonneg or (lo is not None and lo >= 0):
            T.NONNEG.add(name)

        if lo is not None or hi is not None:
            def dom(args, sort='R'):
                p = T.app(name, args) if app else T.var(
                    name, self._sort.get(name, 'R'))
                out = []
                if lo is not None:
                    out.append(T.le0(T.const(self.V.frac(lo)) - p))
                if hi is not None:
                    out.append(T.le0(p - T.const(self.V.frac(hi))))
                return out
            self.smt.DOMAIN[name] = dom

    _sort = {}

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, gen=None,
             rng=None, tag='float'):
        self._decl(name, lo, hi, pos, nonneg)
        return self.V.Num(self.T.var(name), tag)

    def int(self, name, lo=None, hi=None, gen=None):
        self._sort[name] = 'I'
        self._decl(name, lo, hi, False, False)
        v = self.V.Num(self.T.var(name, 'I'), 'int')
        return v

    def size(self, name, lo=0, hi=4):
        """an unbounded length >= lo (hi bounds the concrete samples only)"""
        return self.int(name, lo=lo)

    def vec(self, name, n, kind='list', lo=None, hi=None, pos=False,
            nonneg=False, gen=None):
        T, V = self.T, self.V
        self._decl(name, lo, hi, pos, nonneg, app=True)
        p = V.to_poly(n)
        tag = 'np' if kind == 'np' else 'float'

        def elem(i):
            return V.Num(T.app(name, (i,)), tag)
        if kind == 'np':
            return V.SVec(p, elem)
        l = V.SList()
        l.set_segs([V.Comp(p, elem)])
        return l

    def names(self, name, n, pool=None, free=''):
        """n distinct strings that contain no character of `free`"""
        T, V = self.T, self.V
        T.FREE[name] = free
        p = V.to_poly(n)
        seq = NameSeq(self, name, p)
        l = V.SList()
        l.set_segs([V.Comp(p, seq)])
        return l

    def numbers(self, name, n, pos=False, nonneg=False, gen=None):
        """n distinct numbers"""
        T, V = self.T, self.V
        self._decl(name, None, None, pos, nonneg, app=True)
        l = V.SList()
        l.set_segs([V.Comp(V.to_poly(n), NumSeq(self, name, V.to_poly(n)))])
        return l

    def foreign_number(self, label, numbers):
        x = self.real(label)
        self.e.assume_checked(self.T.not_(numbers.contains_fm(x)))
        return x

    def name_in(self, label, names, n):
        T, V = self.T, self.V
        self._sort[label] = 'I'
        i = T.var(label, 'I')
        self.e.assume_checked(T.and_(T.le0(-i), T.lt0(i - V.to_poly(n))))
        return V.seq_at(names, i), V.Num(i, 'int')

    def foreign_name(self, label, names, free=''):
        T, V = self.T, self.V
        T.FREE[label] = free
        s = V.SStr(('k', 'var', label))
        self.e.assume_checked(T.not_(names.contains_fm(s)))
        return s

    def ends(self, a, b):
        return a.endswith(b)

    def cents(self, x):
        return self.two(x)

    def parts(self, l, front, back):
        """the first and the last items of a list, and what lies between"""
        V = self.V
        segs = list(V.as_segs(l))
        n = len(segs)
        ends = segs[:front] + segs[n - back:]
        if n < front + back or not all(isinstance(g, V.Item) for g in ends):
            from .engine import Unsupported
            raise Unsupported('a list without these items')
        mid = V.SList()
        mid.set_segs(segs[front:n - back])
        return ([g.v for g in ends[:front]], mid, [g.v for g in ends[front:]])

    def over(self, l, f):
        """the sum of f over the members of a (filtered) list"""
        T, V = self.T, self.V

        def add(segs):
            tot = T.ZERO
            for g in segs:
                if isinstance(g, V.Item):
                    tot = tot + V.to_poly(f(g.v))
                    continue
                k = self.e.fresh('ov')
                if isinstance(g, V.Nest):
                    tot = tot + V.sum_of(g.m, k, lambda kv: add(g.body(kv)))
                    continue
                tot = tot + V.sum_of(g.n, k, lambda kv: (
                    V.to_poly(f(g.elem(kv))) if g.guard is None else
                    T.ind(g.guard(kv)) * V.to_poly(f(g.elem(kv)))))
            return tot
        return V.Num(add(V.as_segs(l)), 'float')

    def every(self, l, f):
        """f of all members of a (filtered) list"""
        T, V = self.T, self.V

        def all_(segs):
            out = []
            for g in segs:
                if isinstance(g, V.Item):
                    out.append(self.fm(f(g.v)))
                    continue
                k = self.e.fresh('ev')
                if isinstance(g, V.Nest):
                    out.append(V.all_of(g.m, k, lambda kv: all_(g.body(kv))))
                    continue
                out.append(V.all_of(g.n, k, lambda kv: self.fm(
                    f(g.elem(kv))) if g.guard is None else T.implies(
                        g.guard(kv), self.fm(f(g.elem(kv))))))
            return T.and_(*out)
        return self.B(all_(V.as_segs(l)))

    def list(self, *xs):
        return self.V.SList(xs)

    def in_order(self, l, f):
        """f does not decrease along a (filtered) list"""
        T, V = self.T, self.V
        segs = list(V.as_segs(l))

        def at(g, x):
            if isinstance(g, V.Item):
                return T.TRUE, V.to_poly(f(g.v))
            return (T.TRUE if g.guard is None else g.guard(x),
                    V.to_poly(f(g.elem(x))))

        def every(g, k, c):
            return c if isinstance(g, V.Item) else T.forall(k, g.n, c)
        out = []
        for i, g in enumerate(segs):
            for j in range(i, len(segs)):
                if i == j and isinstance(g, V.Item):
                    continue
                m = segs[j]
                a, b = self.e.fresh('or'), self.e.fresh('or')
                av, bv = T.var(a, 'I'), T.var(b, 'I')
                (ga, x), (gb, y) = at(g, av), at(m, bv)
                c = [ga, gb] + ([T.lt0(av - bv)] if i == j else [])
                out.append(every(g, a, every(m, b, T.implies(
                    T.and_(*c), T.le0(x - y)))))
        return self.B(T.and_(*out))

    def starts(self, a, *parts):
        V = self.V
        return self.B(self.T.starts(V.key_of(a), self.T.key_cat(
            [V.key_of(x) for x in parts])))

    def two(self, x):
        return self.R.mod_('%.2f', x)

    def total(self, d):
        return self.R.sym_sum(d.values())

    def str(self, label, free='', gen=None, edge='', nonempty=False):
        """any string without the characters in `free`, and which neither
        begins nor ends with those in `edge`"""
        self.T.FREE[label] = free
        self.T.EDGE[label] = edge
        if nonempty:
            self.T.NONEMPTY.add(label)
        return self.V.SStr(('k', 'var', label))

    token = str

    def dict(self):
        return self.V.SDict()

    def map(self, names, n, f):
        V = self.V
        seq = V.as_segs(names)[0].elem
        d = V.SDict()
        n = V.to_poly(n)

        def has(q):
            return self.T.member(seq.pname, q, n)
        d.set_map(lambda q: f(V.SStr(q)), has, (n, seq))
        return d

    def partial_map(self, names, n, f, has):
        V = self.V
        seq = V.as_segs(names)[0].elem
        d = V.GMap()
        d.set_guarded(V.to_poly(n), seq, lambda q: f(V.SStr(q)),
                      lambda q: self.fm(has(V.SStr(q))))
        return d

    def pred(self, name, arity=1):
        T, V = self.T, self.V

        def f(*a):
            return self.B(T.batom(name, tuple(
                V.key_of(x) if isinstance(x, (V.SStr, str)) else
                V.to_poly(x) for x in a)))
        return f

    def members(self, name, enum):
        """an arbitrary function of texts to members of an enumeration"""
        T, V = self.T, self.V
        self.smt.DOMAIN[name] = lambda a: [T.or_(*[
            T.eq0(T.app(name, a, 'I') - T.const(m.value)) for m in enum])]

        def f(*a):
            return V.SMember(enum, T.app(name, tuple(
                V.key_of(x) if isinstance(x, (V.SStr, str)) else
                V.to_poly(x) for x in a), 'I'))
        return f

    def optional(self, name):
        """an arbitrary function of numbers to texts or None"""
        V = self.V
        return lambda *a: V.SOpt(('k', 'app', name, tuple(
            V.to_poly(x) for x in a)))

    def bare(self, x):
        """the optional text x, where it is one"""
        return self.V.SStr(x.k)

    def or_empty(self, x):
        """the optional text x, or '' """
        V = self.V
        return V.merge_values(x.none(), '', V.SStr(x.k)) if isinstance(
            x, V.SOpt) else '' if x is None else x

    def texts(self, name, free='', pool=None, nonempty=False):
        T, V = self.T, self.V
        T.FREE[name] = free
        if nonempty:
            T.NONEMPTY.add(name)

        def f(*a):
            return V.SStr(('k', 'app', name, tuple(
                V.key_of(x) if isinstance(x, (V.SStr, str)) else
                V.to_poly(x) for x in a)))
        return f

    def objects(self, n, make):
        V = self.V
        l = V.SList()
        def elem(i):
            v = make(V.Num(i, 'int'))
            for x in v if isinstance(v, tuple) else (v,):
                # (other objects would not take part in substitutions)
                if not isinstance(x, (V.Num, V.SStr, V.SRec, dict)) and \
                        not type(x).__module__.startswith('auxi'):
                    from .engine import Unsupported
                    raise Unsupported('objects() of %r' % type(x))
            return v
        l.set_segs([V.Comp(V.to_poly(n), elem)])
        return l

    def value(self, d, k):
        V = self.V
        if d.sym():
            return d.val(d.kterm(k))
        return self.counter(d).val(d.kterm(k))

    def amount(self, d, k):
        if not d.sym():
            d = self.counter(d)
        return self.V.merge_values(self.V.on_path(d.has(d.kterm(k))),
                                   d.val(d.kterm(k)), 0)

    def has_key(self, d, k):
        V = self.V
        if not d.sym():
            d = self.counter(d)
        return self.B(d.has(d.kterm(k)))

    def counter(self, d):
        V, T = self.V, self.T
        r = V.SDefault()
        r.factory = float
        if not d.sym():
            dict.update(r, d)
            r.to_symbolic()
        else:
            r.set_map(lambda q: V.merge_values(d.has(q), d.val(q), 0.0),
                      d.has, None)
        return r

    def strip(self, s):
        return s.strip()

    def exists(self, n, f):
        T, V = self.T, self.V
        return self.B(T.not_(V.all_of(V.to_poly(n), self.e.fresh(
            'qq'), lambda k: T.not_(self.fm(f(V.Num(k, 'int')))))))

    def choice(self, label, options):
        v = self.e.choose(len(options), label)
        self.e.choice_log[label] = v
        return options[v]

    def increasing(self, name, n, lo=None, gen=None):
        T, V = self.T, self.V
        self._decl(name, None, None, lo is not None and lo >= 0, False,
                   app=True)
        n = V.to_poly(n)
        seq = NumSeq(self, name, n)
        T.INCR[name] = n
        if lo is not None:
            lo = V.to_poly(lo)
            self.smt.DOMAIN[name] = lambda a: [T.implies(
                T.and_(T.le0(-a[0]), T.lt0(a[0] - n)),
                T.lt0(lo - T.app(name, a)))]
        l = V.SList()
        l.set_segs([V.Comp(n, seq)])
        return l

    def text_map(self, order, numbers, n, val):
        T, V = self.T, self.V
        seq = V.as_segs(numbers)[0].elem
        n = V.to_poly(n)
        T.PERM[order] = n

        def dom(a):
            p = T.app(order, a, 'I')
            return [T.implies(T.and_(T.le0(-a[0]), T.lt0(a[0] - n)), T.and_(
                T.le0(-p), T.lt0(p - n)))]
        self.smt.DOMAIN[order] = dom

        def index(q):
            if q[1] == 'app' and q[2] == 'str':
                return seq.pos(q[3][0])
            if q[1] == 'var':
                return T.app('index of text', (q,), 'I')
            raise self.R.Unsupported('key that is no text of a number')

        def has(q):
            p = index(q)
            return T.and_(T.le0(-p), T.lt0(p - n))
        d = V.SDict()
        d.set_map(lambda q: val(V.Num(index(q), 'int')), has, (
            n, lambda i: self.text(seq(T.app(order, (i,), 'I')))))
        return d

    def func(self, name, lo=None, hi=None, pos=False, nonneg=False, arity=1,
             facts=None, grain=None):
        T, V = self.T, self.V
        self.smt.DOMAIN.pop(name, None)
        self._decl(name, lo, hi, pos, nonneg, app=True)
        if facts is not None:
            old = self.smt.DOMAIN.get(name)

            def dom(a):
                out = list(old(a)) if old else []
                w = [V.Num(x) if isinstance(x, T.Poly) else V.SStr(x)
                     for x in a]
                for c in facts(*w):
                    out.append(self.fm(c))
                return out
            self.smt.DOMAIN[name] = dom

        def f(*a):
            args = []
            for x in a:
                if x is None:
                    args.append(V.NONE)
                elif isinstance(x, (V.SStr, str)):
                    args.append(V.key_of(x))
                else:
                    args.append(V.to_poly(x))
            return V.Num(T.app(name, tuple(args)), 'float')
        return f

    def text(self, x):
        """str(x) of a number"""
        return self.V.SStr(('k', 'app', 'str', (self.V.to_poly(x),)))

    # -- logic
    def fm(self, c):
        return self.V.to_fm(c)

    def B(self, f):
        return self.V.SBool(f)

    def assume(self, c):
        self.e.assume_checked(self.fm(c))

    def close(self, a, b, scale=0.0):
        V = self.V
        if V.is_num(a) and V.is_num(b):
            return self.B(self.T.eq0(V.to_poly(a) - V.to_poly(b)))
        if isinstance(a, (V.Num, V.Cplx)) or isinstance(b, (V.Num, V.Cplx)):
            return False
        return self.B(V.eq_fm(a, b))

    def near(self, a, b, tol, scale=0.0):
        return self.close(a, b)

    def le(self, a, b):
        V = self.V
        return self.B(self.T.le0(V.to_poly(a) - V.to_poly(b)))

    def lt(self, a, b):
        return self.not_(self.le(b, a))

    def check(self, label, c, detail=''):
        self.e.obligation(label, self.fm(c), detail)

    def eq(self, label, a, b, scale=0.0):
        self.e.obligation(label, self.fm(self.close(a, b)), '')

    def unreachable(self, label, detail=''):
        self.e.obligation(label, self.T.FALSE, detail)

    def implies(self, a, b):
        return self.B(self.T.implies(self.fm(a), self.fm(b)))

    def iff(self, a, b):
        T = self.T
        f, g = self.fm(a), self.fm(b)
        return self.B(T.or_(T.and_(f, g), T.and_(T.not_(f), T.not_(g))))

    def all(self, *cs):
        return self.B(self.T.and_(*[self.fm(c) for c in cs]))

    def any(self, *cs):
        return self.B(self.T.or_(*[self.fm(c) for c in cs]))

    def not_(self, c):
        return self.B(self.T.not_(self.fm(c)))

    def ite(self, c, a, b):
        return self.V.merge_values(self.fm(c), a, b)

    def sum(self, n, f):
        T, V = self.T, self.V
        return V.Num(V.sum_of(V.to_poly(n), self.e.fresh(
            'ss'), lambda k: f(V.Num(k, 'int'))), 'float')

    def forall(self, n, f):
        T, V = self.T, self.V
        return self.B(V.all_of(V.to_poly(n), self.e.fresh(
            'qq'), lambda k: self.fm(f(V.Num(k, 'int')))))

    def at(self, s, i):
        return self.V.seq_at(s, self.V.to_poly(i))

    def len(self, s):
        return self.V.seq_len(s)

    def same(self, a, b):
        if a is b:
            return True
        return self.B(self.V.eq_fm(a, b))

    def same_map(self, a, b):
        T = self.T
        a = a if a.sym() else self.counter(a)
        b = b if b.sym() else self.counter(b)
        q = ('k', 'var', T.fresh_name('key'))
        ha, hb = a.has(q), b.has(q)
        return self.B(T.and_(
            T.implies(ha, hb), T.implies(hb, ha),
            T.implies(ha, self.V.eq_fm(a.val(q), b.val(q)))))

    def contains(self, seq, x):
        return self.B(seq.contains_fm(x))

    def log_(self, x):
        return self.V.Num(self.T.log(self.V.to_poly(x)), 'float')

    def exp(self, x):
        return self.R.f_exp(x)

    def cos(self, x):
        return self.R.f_cos(x)

    def log10(self, x):
        return self.log_(x) / self.log_(10)

    def sqrt(self, x):
        return self.V.Num(self.T.powq(self.V.to_poly(x), '1/2'), 'float')

    def pow(self, x, y):
        return self.R.pow_(x, y)

    def div(self, a, b):
        return self.V.Num(self.V.to_poly(a) * self.T.inv(self.V.to_poly(b)))

    def const(self, s):
        return self.R.real(str(s))

    def deriv(self, f, x, lo=None, hi=None):
        """df/dx: f(x) is computed by the real code, then differentiated
        symbolically (the path condition must be open in x)."""
        v = f(x)
        (m, _), = x.p.t.items()
        return self.V.Num(self.T.deriv(self.V.to_poly(v), m[0][0].data))

    def limit(self, f, x, to):
        """f(x) is computed by the real code on a path that is open in x; the
        resulting expression (continuous in x) is evaluated at `to`"""
        v = f(x)
        (m, _), = x.p.t.items()
        return self.V.Num(self.T.subst(self.V.to_poly(v), {
            m[0][0].data: self.V.to_poly(to)}))

    def close_deriv(self, label, a, b, scale=0.0):
        self.eq(label, a, b)

    def call(self, fn, *a, **k):
        from .engine import PathEnd
        try:
            return None, fn(*a, **k)
        except Exception as e:
            if self.e.discovery:
                self.e.escaped = True
                raise PathEnd()
            tb = e.__traceback__
            last = None
            while tb is not None:
                last = tb
                tb = tb.tb_next
            fname = last.tb_frame.f_code.co_filename
            if isinstance(e, (AttributeError, NameError)) or \
                    'pyvc' in fname and isinstance(e, NotImplementedError):
                from .engine import Unsupported
                raise Unsupported('engine: %s: %s (%s:%d)' % (
                    type(e).__name__, e, fname, last.tb_lineno))
            return e, None

    def snapshot(self, s):
        V = self.V
        if isinstance(s, V.SVec):
            return V.SVec(s.n, s.elem)
        if isinstance(s, V.SDict):
            return s.copy()
        r = V.SList()
        r.set_segs(list(V.as_segs(s)))
        return r

    def stub(self, modname, path, fn, names=None):
        """fn replaces a function; with names only if these are its
        parameters, which fn then gets in this order"""
        m = importlib.import_module(modname)
        obj = m
        parts = path.split('.')
        for p in parts[:-1]:
            obj = getattr(obj, p)
        if not hasattr(obj, parts[-1]):
            from .engine import Unsupported
            raise Unsupported('%s has no %s to replace by its contract' % (
                modname, path))
        if names is not None:
            old, new = getattr(obj, parts[-1]), fn
            self.need(parameters(old) - {'self'} == set(names),
                      'other parameters of ' + path)
            sig = inspect.signature(old)

            def fn(*a, **k):
                b = sig.bind(*a, **k)
                b.apply_defaults()
                return new(*[b.arguments[x] for x in ['self'] + list(names)])
        elif inspect.isfunction(getattr(obj, parts[-1])) and \
                not inspect.isclass(fn) and callable(fn):
            fn = self._by_position(getattr(obj, parts[-1]), fn, path)
        self._undo.append((obj, parts[-1], obj.__dict__.get(
            parts[-1], self._undo)))
        setattr(obj, parts[-1], fn)
        self.e.stubs[modname + ':' + path] = 1

    def _by_position(self, old, new, path):
        """new gets the arguments in the order of old's parameters"""
        sig, mine = inspect.signature(old), inspect.signature(new)

        def fn(*a, **k):
            b = sig.bind(*a, **k)       # a TypeError of the code, if any
            try:
                mine.bind(*b.args, **b.kwargs)
            except TypeError:
                self.need(False, 'other parameters of ' + path)
            return new(*b.args, **b.kwargs)
        return fn

    private = ConcH.private

    def index(self, name, n):
        i = self.int(name, lo=0)
        self.assume(self.lt(i, n))
        return i

    def need(self, ok, why):
        if not ok:
            from .engine import Unsupported
            raise Unsupported(why)

    def class_invariant(self, cls, attr, fn):
        self.e.class_inv[(cls, attr)] = fn

    def before(self, c, sep):
        """the part of a string before sep (idempotent)"""
        if c.k[1] == 'app' and c.k[2] == 'before ' + sep:
            return c
        return c.split(sep)[0]

    def force(self, c):
        return bool(c)

    def done(self):
        for o, n, v in reversed(self._undo):
            if v is self._undo:
                delattr(o, n)
            else:
                setattr(o, n, v)
        self._undo = []


class NumSeq(object):
    """A duplicate-free sequence of numbers, with its inverse function."""
    numeric = True

    def __init__(self, h, name, n):
        from . import terms as T
        from . import smt
        self.T, self.name, self.n = T, name, n
        self.pname = name + '.pos'
        smt.NUM_DISTINCT.add(name)
        smt.POSOF[self.pname] = (name, n, True)

        def simp(args):
            k, = args
            if len(k.t) == 1:
                (m, c), = k.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                        m[0][0].kind == 'app' and m[0][0].data[0] == name:
                    return m[0][0].data[1][0]
            return None
        T.APP_SIMPLIFY[self.pname] = simp

        def dom(args):
            p = T.app(self.pname, args, 'I')
            return [T.le0(-T.ONE - p),
                    T.implies(T.le0(-p), T.and_(
                        T.lt0(p - n),
                        T.eq0(T.app(name, (p,)) - args[0])))]
        smt.DOMAIN[self.pname] = dom

    def __call__(self, i):
        from .values import Num
        return Num(self.T.app(self.name, (i,)), 'float')

    def pos(self, k):
        return self.T.mk_app(self.pname, (k,), 'I')


def _pos_arg(p, pname):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                m[0][0].kind == 'app' and m[0][0].data[0] == pname:
            return m[0][0].data[1][0]
    return None


class NameSeq(object):
    numeric = False
    """A duplicate-free sequence of names, with its inverse function."""

    def __init__(self, h, name, n):
        from . import terms as T
        from . import smt
        self.T, self.name, self.n = T, name, n
        self.pname = name + '.pos'
        T.DISTINCT.add(name)
        pname = self.pname
        smt.POSOF[pname] = (name, n, False)
        T.SEQPOS[name] = pname
        T.SEQN[name] = n
        T.POSSEQ[pname] = name

        def simp(args):
            k, = args
            if k[1] == 'app' and k[2] == name:
                return k[3][0]
            return None
        T.APP_SIMPLIFY[pname] = simp

        def dom(args):
            p = T.app(pname, args, 'I')
            return [T.le0(-T.ONE - p),
                    T.implies(T.le0(-p), T.and_(
                        T.lt0(p - n),
                        T.keq(('k', 'app', name, (p,)), args[0])))]
        smt.DOMAIN[pname] = dom

        def back(args):
            # a(pos_a(x)) is x whenever pos_a(x) is an index of a
            return _pos_arg(args[0], pname)
        T.KEY_SIMPLIFY[name] = back

    def __call__(self, i):
        from .values import SStr
        return SStr(('k', 'app', self.name, (i,)))

    def pos(self, k):
        return self.T.mk_app(self.pname, (k,), 'I')
