"""Run-time support for the instrumented code: builtins, math, numpy."""
import builtins
import copy as _copy
import math as _math
import sys
import types
from fractions import Fraction as Fr

import numpy as _np

from . import terms as T
from .engine import cur, Unsupported, PathEnd
from .values import (all_of, under, key_of, text_of, SKeyValues, SMember, SOpt, Num, SBool, SStr, SList, SVec, SDict, SRange, SView,
                     Comp, Item, is_num, to_poly, tag_of, join_tag, frac,
                     seq_len, seq_at, seq_sum, to_vec, npnum, vec_sum,
                     as_segs, Cplx, nonzero, undefined_number, num_div,
                     num_pow, to_fm, merge_values, SDefault, map_of_pairs, now, stored,
                     visible)
from .loops import ForParts, WhileLoop, comprehension


def enter(qn):
    e = cur()
    if e is not None:
        e.entered[qn] = e.entered.get(qn, 0) + 1


def for_begin(site, it, names):
    it = getattr(it, 'sym_iter', lambda: it)()
    return ForParts(site, it, names)


def while_begin(site, names):
    return WhileLoop(site, names)


def yielded(loop, v):
    if loop.symbolic and loop.in_body:
        raise Unsupported('a generator left in a loop of any length')
    return v


def comp(site, kind, fn, it, cond=None):
    if cur() is None:
        r = [fn(x) for x in it if cond is None or cond(x)]
    else:
        r = comprehension(site, kind, fn, it, cond)
    if kind == 'set':
        if isinstance(r, SList) and r.sym():
            return r
        return set(r)
    if kind == 'dict':
        if isinstance(r, SList) and r.sym():
            return map_of_pairs(r)
        d = SDict()
        for k, v in r:
            d[k] = v
        return d
    return r


def store(o):
    """before an attribute of o is set: cut loops must see o"""
    e = cur()
    if e is None:
        return
    stored(o)
    if e.active_loops:
        b = e.births.get(id(o))
        if b is not None:
            visible(o, b[0])


def stamp_births(cls):
    """note when objects of a class are made"""
    def new(c, *a, **k):
        r = object.__new__(c)
        e = cur()
        if e is not None:
            e.births[id(r)] = (now(), r)
        return r
    cls.__new__ = new


def unpack(pat, x):
    out = []

    def go(p, v):
        if p is None:
            out.append(v)
            return
        v = list(v) if not isinstance(v, (tuple, SList)) else v
        for q, w in zip(p, v):
            go(q, w)
    go(pat, x)
    return out


def mklist(x):
    return SList(x)


def mkdict(x):
    d = SDict()
    for k, v in x.items():
        dict.__setitem__(d, k, v)
    return d


_reals = {}


def real(s):
    r = _reals.get(s)
    if r is None:
        r = _reals[s] = Num(T.const(Fr(s)), 'float')
    return r


def div(a, b):
    if type(a) in (int, float, bool) and type(b) in (int, float, bool):
        return num_div(to_poly(a), to_poly(b), 'float')
    return a / b


_SPEC = __import__('re').compile(r'%([-+ #0]*[0-9]*(?:\.[0-9]+)?[a-zA-Z%])')


def mod_(a, b):
    """a % b; the text of formatted symbolic values is opaque"""
    if not isinstance(a, str):
        return a % b
    args = builtins.list(b) if builtins.isinstance(b, tuple) else [b]
    if not any(builtins.isinstance(x, (Num, SStr)) for x in args):
        return a % b
    out = []
    pos = 0
    ix = 0
    for m in _SPEC.finditer(a):
        out.append(('k', 'const', a[pos:m.start()]))
        pos = m.end()
        if m.group(1) == '%':
            out.append(('k', 'const', '%'))
            continue
        if ix >= builtins.len(args):
            raise TypeError('not enough arguments for format string')
        x = args[ix]
        ix += 1
        if builtins.isinstance(x, Num):
            out.append(('k', 'app', 'str' if m.group(1) == 's' else
                        'format ' + m.group(1), (x.p,)))
        elif builtins.isinstance(x, SOpt):
            raise Unsupported('format of an optional text')
        elif builtins.isinstance(x, SStr):
            if m.group(1) != 's':
                raise Unsupported('format of a symbolic string')
            out.append(x.k)
        else:
            out.append(('k', 'const', m.group(0) % (x,)))
    if ix < builtins.len(args):
        raise TypeError('not all arguments converted during string formatting')
    out.append(('k', 'const', a[pos:]))
    return text_of(T.key_cat(out))


def _text(x, spec='', conv=None):
    """the key of the text of a value"""
    if conv in ('r', 'a') and builtins.isinstance(x, (Num, SStr, SMember)):
        raise Unsupported('repr of a symbolic value')
    if builtins.isinstance(x, SMember):
        raise Unsupported('text of a symbolic member of an enumeration')
    if builtins.isinstance(x, Num):
        return ('k', 'app', 'format ' + spec if spec else 'str', (x.p,))
    if builtins.isinstance(x, SOpt):
        if cur().decide(x.none()):
            return ('k', 'const', 'None')
        x = x.text()
    if builtins.isinstance(x, SStr):
        if spec not in ('', 's'):
            raise Unsupported('format of a symbolic string')
        return x.k
    if conv is not None:
        x = {'r': repr, 's': builtins.str, 'a': ascii}[conv](x)
    return ('k', 'const', builtins.format(x, spec))


def fstr(*parts):
    """an f-string: texts, and (value, conversion, format) for its fields"""
    out = [('k', 'const', p) if type(p) is str else
           _text(p[0], p[2], p[1]) for p in parts]
    return text_of(T.key_cat(out)) if out else ''


def format_(s, *a, **k):
    """s.format(...)"""
    if type(s) is not str or not any(
            builtins.isinstance(x, (Num, SStr, SMember))
            for x in builtins.list(a) + builtins.list(k.values())):
        return s.format(*a, **k)
    import string
    out = []
    ix = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(('k', 'const', lit))
        if field is None:
            continue
        if '{' in spec:
            raise Unsupported('nested format')
        if field == '':
            x = a[ix]
            ix += 1
        else:
            x = string.Formatter().get_field(field, a, k)[0]
        out.append(_text(x, spec, conv))
    return text_of(T.key_cat(out))


def join_(s, *a, **k):
    """s.join(xs)"""
    if builtins.len(a) != 1 or k:
        return s.join(*a, **k)
    xs, = a
    if not builtins.isinstance(s, (str, SStr)) or builtins.isinstance(
            xs, (str, SStr)):
        return s.join(xs)
    xs = builtins.list(builtins.iter(xs))
    if not builtins.isinstance(s, SStr) and not any(
            builtins.isinstance(x, SStr) for x in xs):
        return s.join(xs)
    out = []
    for i, x in builtins.enumerate(xs):
        if i:
            out.append(key_of(s))
        if builtins.isinstance(x, SOpt):
            x = x.text()
        elif not builtins.isinstance(x, (str, SStr)):
            raise TypeError('sequence item %d: expected str' % i)
        out.append(key_of(x))
    return text_of(T.key_cat(out)) if out else ''


def is_(a, b):
    """identity; members of enumerations may be symbolic"""
    if builtins.isinstance(a, SMember) or builtins.isinstance(b, SMember):
        return a == b
    if builtins.isinstance(a, SOpt) and b is None:
        return SBool(a.none())
    if builtins.isinstance(b, SOpt) and a is None:
        return SBool(b.none())
    return a is b


def is_not(a, b):
    r = is_(a, b)
    return ~r if builtins.isinstance(r, SBool) else not r


def pow_(a, b):
    if type(a) in (int, float) and type(b) in (int, float):
        if type(a) is int and type(b) is int and b >= 0:
            return a ** b
        return num_pow(to_poly(a), to_poly(b), 'float')
    return a ** b


# --------------------------------------------------------------- builtins
def sym_len(x):
    if isinstance(x, (SList, SVec, SDict, SRange, SView, SStr)):
        return x.sym_len()
    return builtins.len(x)


def sym_range(*a):
    a = [int(x.p.const()) if isinstance(x, Num) and x.p.is_const() else x
         for x in a]
    if any(isinstance(x, Num) for x in a):
        if len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)
    return builtins.range(*a)


def sym_sum(x, start=0):
    if isinstance(x, SKeyValues):
        return x.total(start)
    if isinstance(x, (SVec, SRange, SView)) or (
            isinstance(x, SList) and x.sym()):
        return seq_sum(x, start)
    r = start
    for v in x:
        r = r + v
    return r


def sym_abs(x):
    return abs(x)


def _minmax(args, key, default, less):
    if len(args) == 1:
        xs = args[0]
        if isinstance(xs, (SVec,)) or isinstance(xs, SList) and xs.sym() \
                or isinstance(xs, (SView, SRange)):
            v = _view_of(xs)
            t = _increasing(v) if key is None else None
            if t is not None:
                if cur().decide(T.le0(v.n)):
                    raise ValueError('min()/max() arg is an empty sequence')
                return Num(T.app(t, (T.ZERO if less(0, 1) else
                                     v.n - T.ONE,)), 'float')
            raise Unsupported('min/max of a symbolic sequence')
        xs = list(xs)
    else:
        xs = list(args)
    if not xs:
        raise ValueError('min()/max() arg is an empty sequence')
    b = xs[0]
    for x in xs[1:]:
        kx, kb = (key(x), key(b)) if key else (x, b)
        if is_num(kx) and is_num(kb):
            if bool(less(kx, kb)):
                b = x
        elif less(kx, kb):
            b = x
    return b


def sym_min(*a, **k):
    return _minmax(a, k.get('key'), None, lambda x, y: x < y)


def sym_max(*a, **k):
    return _minmax(a, k.get('key'), None, lambda x, y: x > y)


def _view_of(x):
    if isinstance(x, SVec):
        return SView(x.n, x.elem)
    if isinstance(x, SList) and x.sym():
        for g in x.segs:
            if not isinstance(g, Item) and g.guard is not None:
                raise Unsupported('indexed view of a filtered list')
        y = x.copy()
        return SView(to_poly(x.sym_len()), y.at)
    if isinstance(x, SView) and not x.n.is_const():
        return x
    if isinstance(x, SRange):
        return SView(to_poly(x.sym_len()), x.at)
    if isinstance(x, SDict) and x.sym():
        return x.keys()
    return None


def sym_enumerate(x, start=0):
    v = _view_of(x)
    if v is None:
        return builtins.enumerate(x, start)
    s = to_poly(start)
    return SView(v.n, lambda i: (Num(i + s, 'int'), v.at(i)))


def sym_zip(*xs):
    vs = [_view_of(x) for x in xs]
    if all(v is None for v in vs):
        return builtins.zip(*xs)
    # lengths: fork on the shortest
    ns = []
    ats = []
    for x, v in builtins.zip(xs, vs):
        if v is None:
            x = list(x)
            ns.append(T.const(len(x)))
            ats.append(lambda i, x=x: seq_at(x, i))
        else:
            ns.append(v.n)
            ats.append(v.at)
    n = ns[0]
    for m in ns[1:]:
        if m == n:
            continue
        if cur().decide(T.eq0(m - n)):
            continue
        if cur().decide(T.lt0(m - n)):
            n = m
    if n.is_const():
        return [tuple(a(T.const(j)) for a in ats)
                for j in builtins.range(int(n.const()))]
    return SView(n, lambda i: tuple(a(i) for a in ats))


def _issym(x):
    return cur() is not None and (
        (isinstance(x, (SList, SDict)) and x.sym()) or isinstance(x, SRange)
        or (isinstance(x, (SVec, SView)) and not x.n.is_const()))


def _callsite(kind):
    f = sys._getframe(2)
    return '%s:%s:%d' % (f.f_code.co_filename, kind, f.f_lineno)


def sym_map(fn, *its):
    its = [getattr(it, 'sym_iter', lambda it=it: it)() for it in its]
    if not any(_issym(x) for x in its):
        return builtins.map(fn, *its)
    if len(its) == 1:
        return comprehension(_callsite('map'), 'list', fn, its[0])
    return comprehension(_callsite('map'), 'list', lambda t: fn(*t),
                         sym_zip(*its))


def sym_filter(fn, it):
    it = getattr(it, 'sym_iter', lambda: it)()
    if not _issym(it):
        return builtins.filter(fn, it)
    return comprehension(_callsite('filter'), 'list', lambda x: x, it,
                         (lambda x: x) if fn is None else fn)


def sym_sorted(x, **k):
    if isinstance(x, SList) and x.sym() and len(x.segs) == 1 and \
            set(k) == {'key'} and isinstance(x.segs[0], Comp) and \
            x.segs[0].guard is not None:
        # the sorted members of the whole, filtered afterwards
        g = x.segs[0]
        whole = sorted_by(SView(g.n, g.elem), k['key']).segs[0]
        name = whole.order
        l = SList()
        l.set_segs([Comp(g.n, whole.elem, lambda i: g.guard(
            T.app(name, (i,), 'I')))])
        return l
    v = _view_of(x)
    if v is None:
        return SList(builtins.sorted(x, **k))
    if not k or set(k) == {'reverse'}:
        t = _increasing(v)
        if t is not None:
            l = SList()
            n = v.n
            if k.get('reverse'):
                l.set_segs([Comp(n, lambda i: Num(T.app(
                    t, (n - T.ONE - i,)), 'float'))])
            else:
                l.set_segs([Comp(n, lambda i: Num(T.app(t, (i,)),
                                                  'float'))])
            return l
    if set(k) == {'key'}:
        return sorted_by(v, k['key'])
    raise Unsupported('sorted() of a symbolic sequence')


def sorted_by(v, key):
    """the members of v in some order (a permutation of the indices)"""
    name = cur().fresh('order')
    n = v.n
    T.PERM[name] = n

    def dom(a):
        p = T.app(name, a, 'I')
        return [T.implies(T.and_(T.le0(-a[0]), T.lt0(a[0] - n)), T.and_(
            T.le0(-p), T.lt0(p - n)))]
    from . import smt
    smt.DOMAIN[name] = dom
    ks = T.fresh_name('ks')
    xs = under(n, ks, lambda i: key(v.at(T.app(name, (i,), 'I'))))
    if not all(is_num(x) for _, x in xs) and not all(
            isinstance(x, (SStr, str)) for _, x in xs):
        raise Unsupported('sorted() by a key that is no number or text')
    if all(is_num(x) for _, x in xs):
        p = T.ZERO
        for c, x in xs:
            p = p + (to_poly(x) if c.op == 'T' else T.ind(c) * to_poly(x))
        smt.SORTED[name] = lambda i: T.subst(p, {ks: i})
    l = SList()
    c = Comp(n, lambda i: v.at(T.app(name, (i,), 'I')))
    c.order = name
    l.set_segs([c])
    return l


def _increasing(v):
    """the increasing sequence of which v lists all members, in any order"""
    j = T.var('#so', 'I')
    x = v.at(j)
    if not is_num(x):
        return None
    p = to_poly(x)
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'app':
        return None
    f, args = m[0][0].data
    if T.INCR.get(f) != v.n:
        return None
    i, = args
    if i == j:
        return f
    for g, n in T.PERM.items():
        if n == v.n and i == T.app(g, (j,), 'I'):
            return f
    return None


def sym_reversed(x):
    v = _view_of(x)
    if v is None:
        return builtins.reversed(x)
    return SView(v.n, lambda i: v.at(v.n - T.ONE - i))


class _TypeShim(type):
    def __instancecheck__(cls, x):
        return _isinst(x, cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


def _isinst(x, t):
    if t is float:
        return isinstance(x, float) or (isinstance(x, Num) and
                                        x.tag in ('float', 'np'))
    if t is int:
        return (isinstance(x, int)) or (isinstance(x, Num) and x.tag == 'int')
    if t is str:
        if isinstance(x, SOpt):
            return not cur().decide(x.none())
        return isinstance(x, (str, SStr))
    if t is bool:
        return isinstance(x, (bool, SBool))
    return builtins.isinstance(x, t)


class FloatShim(float, metaclass=_TypeShim):
    real = float

    def __new__(cls, x=0.0):
        return to_float(x)


class IntShim(int, metaclass=_TypeShim):
    real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, Num):
            if x.tag == 'int':
                return x
            if x.p.is_const():
                return int(x.p.const())
            # truncation
            f = T.app('floor', (x.p,), 'I')
            if cur().decide(T.le0(-x.p)):
                return Num(f, 'int')
            return Num(-T.app('floor', (-x.p,), 'I'), 'int')
        return int(x, *a) if a else int(x)


class StrShim(str, metaclass=_TypeShim):
    real = str

    def __new__(cls, x='', *a):
        if isinstance(x, SStr):
            return x
        if isinstance(x, Num):
            return SStr(('k', 'app', 'str', (x.p,)))
        return str(x, *a)


class BoolShim(int, metaclass=_TypeShim):
    real = bool

    def __new__(cls, x=False):
        return bool(x)


def to_float(x=0.0):
    if isinstance(x, Num):
        return Num(x.p, 'float')
    if isinstance(x, SStr):
        k = key_of(x)
        if k[1] == 'app' and k[2] == 'str' and len(k[3]) == 1:
            return Num(k[3][0], 'float')
        raise Unsupported('float() of a symbolic string')
    if isinstance(x, str):
        try:
            return Num(T.const(Fr(x.strip())), 'float')
        except ValueError:
            return float(x)
    if isinstance(x, (int, float)):
        return Num(T.const(frac(x)), 'float')
    return float(x)


class ListShim(list, metaclass=_TypeShim):
    real = list

    def __new__(cls, x=()):
        r = SList()
        if _view_of(x) is not None or isinstance(x, (SList, SVec)):
            r.set_segs(as_segs(x))
        else:
            r.extend(x)
        return r


class DictShim(dict, metaclass=_TypeShim):
    real = dict

    def __new__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], SDict):
            d = a[0].copy()
            d.update(**k)
            return d
        d = SDict()
        d.update(*a, **k)
        return d

    @classmethod
    def fromkeys(cls, it, v=None):
        d = SDict()
        for k in it:
            d[k] = v
        return d


def sym_type(*a):
    if len(a) != 1:
        return builtins.type(*a)
    x = a[0]
    if isinstance(x, Num):
        return {'float': FloatShim, 'int': IntShim, 'np': _np.float64}[x.tag]
    if isinstance(x, SOpt) and cur().decide(x.none()):
        return builtins.type(None)
    if isinstance(x, SStr):
        return StrShim
    if isinstance(x, SList):
        return ListShim
    if isinstance(x, SDict):
        return DictShim
    if isinstance(x, SVec):
        return _np.ndarray
    if isinstance(x, SBool):
        return BoolShim
    t = builtins.type(x)
    return _TYPES.get(t, t)


_SH = {FloatShim: float, IntShim: int, StrShim: str, ListShim: list,
       DictShim: dict, BoolShim: bool}


def sym_isinstance(x, t):
    if builtins.isinstance(t, tuple):
        return any(sym_isinstance(x, q) for q in t)
    t = _SH.get(t, t)
    if t in (float, int, str, bool):
        return _isinst(x, t)
    if t is _np.ndarray and isinstance(x, SVec):
        return True
    import numbers
    if isinstance(x, Num) and t in (numbers.Number, numbers.Real):
        return True
    return builtins.isinstance(x, t)


def sym_hash(x):
    return builtins.hash(x)


def sym_all(xs):
    v = _view_of(xs)
    if v is None:
        return builtins.all(xs)
    f = all_of(v.n, T.fresh_name('q'), lambda k: to_fm(v.at(k)))
    return _decide_quant(f)


def sym_any(xs):
    v = _view_of(xs)
    if v is None:
        return builtins.any(xs)
    f = all_of(v.n, T.fresh_name('q'), lambda k: T.not_(to_fm(v.at(k))))
    return not _decide_quant(f)


def _decide_quant(f):
    e = cur()
    if f.op != 'all':
        return e.decide(f)
    from .values import in_range
    if e.decide(f):
        return True
    v, n, g = f.a
    w = T.var(e.fresh('w'), 'I')
    e.assume_checked(T.and_(in_range(w, n), T.not_(T.subst(g, {v: w}))))
    return False


class SSet(object):
    """the set of the elements of a symbolic sequence: membership only
    (its size and its sum depend on which elements are equal)"""

    def __init__(self, xs):
        self.l = SList()
        self.l.set_segs(as_segs(xs))

    def __contains__(self, x):
        return x in self.l

    def copy(self):
        return SSet(self.l)

    def __getattr__(self, name):
        raise Unsupported('set.%s of symbolic elements' % name)

    def _no(self, *a):
        raise Unsupported('operation on a set of symbolic elements')

    __len__ = __iter__ = __bool__ = __eq__ = __ne__ = __lt__ = __le__ = _no
    __gt__ = __ge__ = __or__ = __and__ = __sub__ = __xor__ = _no
    __ror__ = __rand__ = __rsub__ = __rxor__ = _no
    __hash__ = None


class SetShim(set, metaclass=_TypeShim):
    real = set

    def __new__(cls, *a):
        if a and _view_of(a[0]) is not None:
            return SSet(a[0])
        return set(*a)


class TupleShim(tuple, metaclass=_TypeShim):
    real = tuple

    def __new__(cls, *a):
        if a and _view_of(a[0]) is not None:
            l = SList()
            l.set_segs(as_segs(a[0]))
            return l
        return tuple(*a)


_SH[SetShim] = set
_SH[TupleShim] = tuple
_TYPES = {float: FloatShim, int: IntShim, str: StrShim, list: ListShim,
          dict: DictShim, bool: BoolShim, set: SetShim, tuple: TupleShim}


# --------------------------------------------------------------- math
def f_log(x, *base):
    if base:
        return f_log(x) / f_log(base[0])
    p = to_poly(x)
    if not T.poly_positive(p) and not cur().decide(T.lt0(-p)):
        if tag_of(x) == 'np':
            return undefined_number('log of a non-positive number')
        raise ValueError('math domain error')
    return Num(T.log(p), join_tag(tag_of(x), 'float'))


def np_log(x):
    if isinstance(x, (SVec, SList)):
        v = to_vec(x)
        return SVec(v.n, lambda i: np_log(v.elem(i)))
    p = to_poly(x)
    if not T.poly_positive(p) and not cur().decide(T.lt0(-p)):
        return undefined_number('log')
    return Num(T.log(p), 'np')


def f_exp(x):
    if isinstance(x, (SVec,)):
        return SVec(x.n, lambda i: f_exp(x.elem(i)))
    return Num(T.exp(to_poly(x)), join_tag(tag_of(x), 'float'))


def f_sqrt(x):
    p = to_poly(x)
    if not T.poly_nonneg(p) and cur().decide(T.lt0(p)):
        if tag_of(x) == 'np':
            return undefined_number('sqrt')
        raise ValueError('math domain error')
    return num_pow(p, T.const(Fr(1, 2)), join_tag(tag_of(x), 'float'))


def f_log10(x):
    return f_log(x) / Num(T.log(T.const(10)), 'float')


PI = Num(T.var('pi'), 'float')


def _trig(name):
    def f(x):
        p = to_poly(x)
        if not p.t:
            return Num(T.ZERO if name == 'sin' else T.ONE, 'float')
        return Num(T.app(name, (p,)), join_tag(tag_of(x), 'float'))
    return f


f_sin = _trig('sin')
f_cos = _trig('cos')


def f_tan(x):
    return f_sin(x) / f_cos(x)


def f_radians(x):
    return x * PI / 180


def f_pow(a, b):
    return pow_(a, b)


def f_fabs(x):
    return abs(x)


def f_fsum(x):
    return sym_sum(x)


def f_isclose(a, b, **k):
    raise Unsupported('isclose')


def f_isnan(a):
    return False


def f_floor(x):
    p = to_poly(x)
    if tag_of(x) == 'int':
        return x
    if p.is_const():
        return _math.floor(p.const())
    return Num(T.app('floor', (p,), 'I'), 'int')


math_shim = types.SimpleNamespace(
    log=f_log, exp=f_exp, sqrt=f_sqrt, log10=f_log10, pi=PI, sin=f_sin,
    cos=f_cos, tan=f_tan, radians=f_radians, pow=f_pow, fabs=f_fabs,
    fsum=f_fsum, isnan=f_isnan, isclose=f_isclose, floor=f_floor,
    e=_math.e, inf=float('inf'), log1p=lambda x: f_log(1 + x),
    log2=lambda x: f_log(x) / Num(T.log(T.const(2)), 'float'),
    expm1=lambda x: f_exp(x) - 1)


# --------------------------------------------------------------- numpy
class NumpyShim(object):
    ndarray = _np.ndarray
    float64 = _np.float64
    pi = PI
    nan = float('nan')
    inf = float('inf')

    def __getattr__(self, n):
        v = getattr(_np, n)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                if any(_has_sym(x) for x in a) or any(
                        _has_sym(x) for x in k.values()):
                    raise Unsupported('numpy.%s on symbolic values' % n)
                return v(*a, **k)
            return f
        return v

    @staticmethod
    def _n(n):
        if isinstance(n, tuple) and len(n) == 1:
            n = n[0]
        if isinstance(n, (Num, int)):
            return to_poly(n)
        raise Unsupported('numpy shape %r' % (n,))

    def zeros(self, n, *a, **k):
        return SVec(self._n(n), lambda i: Num(T.ZERO, 'np'))

    def ones(self, n, *a, **k):
        return SVec(self._n(n), lambda i: Num(T.ONE, 'np'))

    def full(self, n, v, *a, **k):
        return SVec(self._n(n), lambda i: npnum(v))

    def empty(self, n, *a, **k):
        u = cur().fresh('empty')
        return SVec(self._n(n), lambda i: Num(T.app(u, (i,)), 'np'))

    def zeros_like(self, x, *a, **k):
        return self.zeros(seq_len(x))

    def ones_like(self, x, *a, **k):
        return self.ones(seq_len(x))

    def copy(self, x):
        v = to_vec(x)
        return SVec(v.n, v.elem)

    def array(self, x, *a, **k):
        if is_num(x):
            return npnum(x)
        v = to_vec(x)
        return SVec(v.n, v.elem)

    def asarray(self, x, *a, **k):
        return to_vec(x)

    def sum(self, x, *a, **k):
        return vec_sum(to_vec(x))

    def dot(self, a, b):
        return vec_sum(to_vec(a) * to_vec(b))
    inner = vdot = dot

    def multiply(self, a, b):
        if isinstance(a, SList):
            a = to_vec(a)
        return a * b

    def add(self, a, b):
        if isinstance(a, SList):
            a = to_vec(a)
        return a + b

    def subtract(self, a, b):
        if isinstance(a, SList):
            a = to_vec(a)
        return a - b

    def divide(self, a, b):
        if isinstance(a, SList):
            a = to_vec(a)
        return a / b
    true_divide = divide

    def log(self, x):
        return np_log(x)

    def exp(self, x):
        return f_exp(x)

    def sqrt(self, x):
        return f_sqrt(x)

    def power(self, a, b):
        return pow_(a, b)

    def abs(self, x):
        return abs(x)
    absolute = fabs = abs

    def size(self, x):
        return seq_len(x)

    def where(self, *a):
        raise Unsupported('numpy.where')

    def isnan(self, x):
        return False

    def concatenate(self, xs, *a, **k):
        r = SList()
        for x in xs:
            r.extend(x)
        return to_vec(r)

    def append(self, a, b):
        r = SList()
        r.set_segs(as_segs(a))
        if is_num(b):
            r.append(b)
        else:
            r.extend(b)
        return to_vec(r)

    def isclose(self, *a, **k):
        raise Unsupported('numpy.isclose')
    allclose = isclose

    def cos(self, x):
        return f_cos(x)

    def sin(self, x):
        return f_sin(x)

    def log10(self, x):
        return np_log(x) / Num(T.log(T.const(10)), 'np')

    def radians(self, x):
        return f_radians(x)

    def polyval(self, c, x):
        v = to_vec(c) if not isinstance(c, SVec) else c
        k = cur().fresh('pv')
        n = v.n
        b = v.elem(T.var(k, 'I')) * pow_(
            x, Num(n - T.ONE - T.var(k, 'I'), 'int'))
        return Num(T.mk_sum(n, k, to_poly(b)), 'np')

    def interp(self, *a, **k):
        raise Unsupported('numpy.interp')

    def prod(self, x, *a, **k):
        raise Unsupported('numpy.prod')


def _has_sym(x):
    if isinstance(x, (Num, SVec, SBool, SStr)):
        return not (isinstance(x, Num) and x.p.is_const())
    if isinstance(x, SList):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


np_shim = NumpyShim()

BUILTINS = {
    'len': sym_len, 'range': sym_range, 'sum': sym_sum, 'min': sym_min,
    'max': sym_max, 'enumerate': sym_enumerate, 'zip': sym_zip,
    'sorted': sym_sorted, 'reversed': sym_reversed, 'type': sym_type,
    'isinstance': sym_isinstance, 'float': FloatShim, 'int': IntShim,
    'str': StrShim, 'list': ListShim, 'dict': DictShim, 'set': SetShim,
    'tuple': TupleShim, 'all': sym_all, 'any': sym_any, 'pow': pow_,
    'bool': BoolShim, 'map': sym_map, 'filter': sym_filter,
}

_MATHNAMES = {id(getattr(_math, n)): getattr(math_shim, n)
              for n in vars(math_shim)
              if hasattr(_math, n) and callable(getattr(_math, n))}


def _rebind(mod):
    import collections
    import copy
    d = mod.__dict__
    for name, v in list(d.items()):
        if name.startswith('__'):
            continue
        if v is _math:
            d[name] = math_shim
        elif v is _np:
            d[name] = np_shim
        elif id(v) in _MATHNAMES and v is not None and callable(v) and \
                getattr(_math, getattr(v, '__name__', ''), None) is v:
            d[name] = _MATHNAMES[id(v)]
        elif callable(v) and getattr(v, '__module__', None) == 'numpy' and \
                isinstance(getattr(v, '__name__', None), str) and \
                v.__name__ in NumpyShim.__dict__:
            d[name] = getattr(np_shim, v.__name__)
        elif v is collections.OrderedDict:
            d[name] = DictShim
        elif v is collections.defaultdict:
            d[name] = _defaultdict
        elif v is collections:
            d[name] = types.SimpleNamespace(
                OrderedDict=DictShim, defaultdict=_defaultdict, abc=collections.abc,
                **{k: getattr(collections, k) for k in
                   ('namedtuple', 'Counter', 'deque')})
        elif isinstance(v, float) and v == _math.pi:
            d[name] = PI
    for n, f in BUILTINS.items():
        if n not in d:
            d[n] = f


def _defaultdict(*a):
    return SDefault.make(*a)


class RT(object):
    enter = staticmethod(enter)
    store = staticmethod(store)
    for_begin = staticmethod(for_begin)
    while_begin = staticmethod(while_begin)
    yielded = staticmethod(yielded)
    comp = staticmethod(comp)
    unpack = staticmethod(unpack)
    mklist = staticmethod(mklist)
    mkdict = staticmethod(mkdict)
    real = staticmethod(real)
    div = staticmethod(div)
    mod = staticmethod(mod_)
    fstr = staticmethod(fstr)
    format_ = staticmethod(format_)
    join_ = staticmethod(join_)
    is_ = staticmethod(is_)
    is_not = staticmethod(is_not)
    pow = staticmethod(pow_)
    patched = []

    def patch_module(self, mod):
        _rebind(mod)
        if mod.__name__ == 'auxi.core.objects':
            stamp_births(mod.Object)
        self.patched.append(mod)


rt = RT()
