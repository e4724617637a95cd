"""Symbolic values: drop-in stand-ins for Python / numpy values."""
import copy as _copy
from fractions import Fraction as Fr
from . import terms as T
from . import smt
from .engine import cur, Unsupported, PathEnd


from .rec import SRec     # noqa: E402


class _Undef(object):
    def __repr__(self):
        return '<undefined>'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('use of an undefined/unsummarised local')

    def __bool__(self):
        raise Unsupported('use of an undefined/unsummarised local')


UNDEF = _Undef()


def frac(x):
    if isinstance(x, Fr):
        return x
    if isinstance(x, bool):
        return Fr(int(x))
    if isinstance(x, int):
        return Fr(x)
    f = float(x)
    if f != f or f in (float('inf'), float('-inf')):
        raise Unsupported('nan/inf constant')
    return Fr(repr(f))


def is_num(x):
    if isinstance(x, Num):
        return True
    if isinstance(x, (int, float, Fr)):
        return True
    return False


def to_poly(x):
    if isinstance(x, Num):
        return x.p
    if isinstance(x, SBool):
        return T.ind(x.f)
    return T.const(frac(x))


def tag_of(x):
    if isinstance(x, Num):
        return x.tag
    if isinstance(x, (bool, int)):
        return 'int'
    if type(x) is float or isinstance(x, Fr):
        return 'float'
    return 'np'


def join_tag(a, b, div=False):
    if 'np' in (a, b):
        return 'np'
    if 'float' in (a, b) or div:
        return 'float'
    return 'int'


def undefined_number(why):
    e = cur()
    return Num(T.var(e.fresh('undef'), 'R'), 'np')


class Num(object):
    __slots__ = ('p', 'tag')
    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(self, p, tag='float'):
        self.p = p
        self.tag = tag

    def __repr__(self):
        return 'Num(%s)' % T.show(self.p)

    def __str__(self):
        return 'Num(%s)' % T.show(self.p)

    def __format__(self, spec):
        return 'Num'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic number')

    def __hash__(self):
        if self.p.is_const():
            c = self.p.const()
            return hash(c)
        raise Unsupported('hash of a symbolic number')

    # arithmetic
    def _coerce(self, o):
        if isinstance(o, Num):
            return o.p
        if isinstance(o, SBool):
            return T.ind(o.f)
        if isinstance(o, (int, float, Fr)):
            return T.const(frac(o))
        try:
            import numpy as np
            if isinstance(o, np.generic):
                return T.const(frac(o.item()))
        except Exception:
            pass
        return None

    def __add__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return Num(self.p + q, join_tag(self.tag, tag_of(o)))
    __radd__ = __add__

    def __sub__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return Num(self.p - q, join_tag(self.tag, tag_of(o)))

    def __rsub__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return Num(q - self.p, join_tag(self.tag, tag_of(o)))

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return o.__class__.__rmul__(o, self) if isinstance(o, SList) \
                else _list_repeat(o, self)
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return Num(self.p * q, join_tag(self.tag, tag_of(o)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return num_div(self.p, q, join_tag(self.tag, tag_of(o), True))

    def __rtruediv__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return num_div(q, self.p, join_tag(self.tag, tag_of(o), True))

    def __pow__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return num_pow(self.p, q, join_tag(self.tag, tag_of(o)))

    def __rpow__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return num_pow(q, self.p, join_tag(self.tag, tag_of(o)))

    def __mod__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return num_mod(self.p, q, join_tag(self.tag, tag_of(o)))

    def __rmod__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return num_mod(q, self.p, join_tag(self.tag, tag_of(o)))

    def __floordiv__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return num_floordiv(self.p, q, join_tag(self.tag, tag_of(o)))

    def __rfloordiv__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return num_floordiv(q, self.p, join_tag(self.tag, tag_of(o)))

    def __neg__(self):
        return Num(-self.p, self.tag)

    def __pos__(self):
        return self

    def __abs__(self):
        if T.poly_nonneg(self.p):
            return self
        if cur().decide(T.le0(-self.p)):
            return self
        return Num(-self.p, self.tag)

    # comparison
    def __lt__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return SBool(T.lt0(self.p - q))

    def __le__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return SBool(T.le0(self.p - q))

    def __gt__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return SBool(T.lt0(q - self.p))

    def __ge__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return SBool(T.le0(q - self.p))

    def __eq__(self, o):
        if isinstance(o, (SList, SVec)):
            return NotImplemented
        q = self._coerce(o)
        if q is None:
            return False
        return SBool(num_eq(self.p, q))

    def __ne__(self, o):
        if isinstance(o, (SList, SVec)):
            return NotImplemented
        q = self._coerce(o)
        if q is None:
            return True
        return SBool(T.not_(num_eq(self.p, q)))

    def __bool__(self):
        return cur().decide(T.not_(T.eq0(self.p)))

    def __float__(self):
        if self.p.is_const():
            return float(self.p.const())
        raise Unsupported('C-level float() of a symbolic number')

    def __int__(self):
        if self.p.is_const():
            return int(self.p.const())
        raise Unsupported('C-level int() of a symbolic number')

    def __index__(self):
        if self.p.is_const() and self.p.const().denominator == 1:
            return int(self.p.const())
        raise Unsupported('symbolic number used as a C-level index')

    def __round__(self, n=None):
        if n is not None and not isinstance(n, int):
            raise Unsupported('round to a symbolic number of digits')
        if self.p.is_const():
            x = self.p.const()
            x = round(x) if n is None else round(x, n)
            return Num(T.const(x), 'int' if n is None else self.tag)
        r = T.app('round', (self.p, T.const(n or 0)),
                  'I' if n is None else 'R')
        return Num(r, 'int' if n is None else self.tag)

    # numpy scalar look-alikes
    def sum(self):
        return self

    def item(self):
        return Num(self.p, 'float')


def num_eq(p, q):
    d = p - q
    f = T.eq0(d)
    return f


def nonzero(p):
    """Fork on p == 0 unless it is evidently nonzero."""
    if p.is_const():
        return p.const() != 0
    if T.poly_positive(p) or T.poly_positive(-p):
        return True
    return not cur().decide(T.eq0(p))


def num_div(p, q, tag):
    if not nonzero(q):
        if tag == 'np':
            return undefined_number('division by zero')
        raise ZeroDivisionError('float division by zero')
    return Num(T.div(p, q), tag)


def num_mod(p, q, tag):
    if not nonzero(q):
        raise ZeroDivisionError('modulo by zero')
    if p.is_const() and q.is_const():
        return Num(T.const(p.const() % q.const()), tag)
    if not (T._is_int(p) and T._is_int(q)):
        raise Unsupported('modulo of symbolic reals')
    return Num(T.app('mod', (p, q), 'I'), tag)


def num_floordiv(p, q, tag):
    if not nonzero(q):
        raise ZeroDivisionError('division by zero')
    if p.is_const() and q.is_const():
        return Num(T.const(p.const() // q.const()), tag)
    if not (T._is_int(p) and T._is_int(q)):
        raise Unsupported('floor division of symbolic reals')
    m = T.app('mod', (p, q), 'I')
    cur().assume(T.implies(T.lt0(-q), T.and_(
        T.le0(-m), T.lt0(m - q),
        T.eq0(p - q * T.app('div', (p, q), 'I') - m))))
    return Num(T.app('div', (p, q), 'I'), tag)


def num_pow(p, q, tag):
    if q.is_const():
        e = q.const()
        if e == 0:
            return Num(T.ONE, tag)
        if e.denominator == 1:
            if e < 0 and not nonzero(p):
                if tag == 'np':
                    return undefined_number('0**-n')
                raise ZeroDivisionError('0.0 cannot be raised to a negative '
                                        'power')
            return Num(T.powq(p, e), tag if e > 0 else join_tag(tag, 'float'))
        tag = join_tag(tag, 'float')
        if p.is_const() and p.const() >= 0:
            if p.const() == 0:
                if e < 0:
                    if tag == 'np':
                        return undefined_number('0**-n')
                    raise ZeroDivisionError()
                return Num(T.ZERO, tag)
            return Num(T.powq(p, e), tag)
        if not T.poly_nonneg(p):
            if cur().decide(T.lt0(p)):
                return Cplx()
        if e < 0 and not nonzero(p):
            if tag == 'np':
                return undefined_number('0**-n')
            raise ZeroDivisionError()
        return Num(T.powq(p, e), tag)
    tag = join_tag(tag, 'float')
    if not (T.poly_positive(p)):
        if not cur().decide(T.lt0(-p)):
            if cur().decide(T.eq0(p)):
                raise Unsupported('0 ** symbolic')
            return Cplx()
    return Num(T.powp(p, q), tag)


class Cplx(object):
    """A complex number: the code left the reals.  Poison."""

    def _p(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _p
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = _p

    def _cmp(self, o):
        raise TypeError("'<' not supported between instances of 'complex' "
                        "and 'float'")
    __lt__ = __le__ = __gt__ = __ge__ = _cmp


class SBool(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return cur().decide(self.f)

    def __repr__(self):
        return 'SBool(%s)' % T.show_fm(self.f)

    def __invert__(self):
        return SBool(T.not_(self.f))

    def __and__(self, o):
        return SBool(T.and_(self.f, to_fm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(T.or_(self.f, to_fm(o)))
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            g = to_fm(o)
            return SBool(T.or_(T.and_(self.f, g),
                               T.and_(T.not_(self.f), T.not_(g))))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        raise Unsupported('hash of a symbolic boolean')

    def __deepcopy__(self, memo):
        return self

    def all(self):
        return self

    def any(self):
        return self


def to_fm(x):
    if isinstance(x, SBool):
        return x.f
    if isinstance(x, Num):
        return T.not_(T.eq0(x.p))
    return T.TRUE if x else T.FALSE


class SStr(object):
    """An opaque string: only equality (and concatenation as an injective
    constructor) is known."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'SStr(%s)' % T.show_key(self.k)

    def __str__(self):
        return '<%s>' % T.show_key(self.k)

    def __format__(self, s):
        return str(self)

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if isinstance(o, SStr):
            return SBool(T.keq(self.k, o.k))
        if isinstance(o, str):
            return SBool(T.keq(self.k, str_key(o)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else True

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return SStr(cat_key(self.k, key_of(o)))
        raise TypeError('can only concatenate str')

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return SStr(cat_key(key_of(o), self.k))
        raise TypeError('can only concatenate str')

    def __lt__(self, o):
        raise Unsupported('ordering of symbolic strings')
    __le__ = __gt__ = __ge__ = __lt__

    def startswith(self, s, *a):
        if a or not isinstance(s, (str, SStr)):
            raise Unsupported('startswith')
        return SBool(T.starts(self.k, key_of(s)))

    def endswith(self, s, *a):
        if a or not isinstance(s, (str, SStr)):
            raise Unsupported('endswith')
        k = key_of(s)
        if k == self.k or k == str_key(''):
            return True
        return SBool(T.batom('endswith', (self.k, k)))

    def rstrip(self, *a):
        return self._edge('rstrip', a)

    def lstrip(self, *a):
        return self._edge('lstrip', a)

    def _edge(self, how, a):
        if len(a) == 1 and isinstance(a[0], str):
            ps = T.key_parts(self.k)
            p = ps[-1] if how == 'rstrip' else ps[0]
            if all(c in T.EDGE.get(p[2], '') or T.key_free(p, c)
                   for c in a[0]) and p[1] != 'const':
                return self
        raise Unsupported(how)

    def ljust(self, n, *a):
        return self

    def split(self, sep=None, *a):
        if sep is not None and len(sep) == 1 and not a:
            ps = T.key_split(self.k, sep)
            if ps is not None:
                return SList([text_of(p) for p in ps])
        if a == (1,) and isinstance(sep, str) and len(sep) == 1:
            ps = T.key_parts(self.k)
            for i, p in enumerate(ps):
                if p[1] == 'const' and sep in p[2]:
                    x, y = p[2].split(sep, 1)
                    return SList([text_of(T.key_cat(ps[:i] + (str_key(x),))),
                                  text_of(T.key_cat(
                                      (str_key(y),) + ps[i + 1:]))])
                if not T.key_free(p, sep):
                    break
        if a:
            raise Unsupported('split of a symbolic string with a limit')
        return SSplit(self.k, sep)

    def _cut(self, sep, last=False):
        """(before, after) at the first or last separator, None without"""
        if isinstance(sep, str) and len(sep) == 1:
            ps = list(T.key_parts(self.k))
            ixs = list(range(len(ps)))
            for i in reversed(ixs) if last else ixs:
                p = ps[i]
                if p[1] == 'const' and sep in p[2]:
                    x, y = p[2].rsplit(sep, 1) if last else \
                        p[2].split(sep, 1)
                    return (text_of(T.key_cat(ps[:i] + [str_key(x)])),
                            text_of(T.key_cat([str_key(y)] + ps[i + 1:])))
                if not T.key_free(p, sep):
                    break
            else:
                return None
        raise Unsupported('part of a symbolic string')

    def partition(self, sep):
        r = self._cut(sep)
        return (self, '', '') if r is None else (r[0], sep, r[1])

    def rpartition(self, sep):
        r = self._cut(sep, True)
        return ('', '', self) if r is None else (r[0], sep, r[1])

    def rsplit(self, sep=None, n=-1):
        if n == 1:
            r = self._cut(sep, True)
            return SList([self] if r is None else list(r))
        raise Unsupported('rsplit of a symbolic string')

    def __getitem__(self, i):
        if isinstance(i, slice) and not i.start and i.step is None and \
                isinstance(i.stop, Num):
            for m in i.stop.p.t:
                if len(m) == 1 and m[0][0].kind == 'app' and \
                        m[0][0].data[0] == 'strlen' and \
                        i.stop.p == T.app('strlen', m[0][0].data[1], 'I'):
                    return SStart(self.k, m[0][0].data[1][0])
        if isinstance(i, slice) and not i.start and i.step is None and \
                type(i.stop) is int and i.stop > 0:
            return SHead(self.k, i.stop)
        raise Unsupported('part of a symbolic string')

    def __iter__(self):
        raise Unsupported('characters of a symbolic string')

    def __mod__(self, o):
        raise Unsupported('format of a symbolic string')

    def replace(self, old, new, *a):
        ps = T.key_split(self.k, old) if isinstance(old, str) and \
            len(old) == 1 and not a else None
        if ps is None:
            raise Unsupported('replace in a symbolic string')
        out = []
        for i, p in enumerate(ps):
            if i:
                out.append(key_of(new))
            out.append(p)
        return text_of(T.key_cat(out))

    def __contains__(self, c):
        if isinstance(c, str) and any(p[1] == 'const' and c in p[2]
                                      for p in T.key_parts(self.k)):
            return True
        ps = T.key_split(self.k, c) if isinstance(c, str) and \
            len(c) == 1 else None
        if ps is None:
            raise Unsupported('part of a symbolic string')
        return len(ps) > 1

    def strip(self, *a):
        """idempotent; what is stripped is not modelled further"""
        if a:
            return self._edge('lstrip', a)._edge('rstrip', a)
        if self.k[1] == 'app' and self.k[2] == 'strip':
            return self
        return SStr(('k', 'app', 'strip', (self.k,)))

    def sym_len(self):
        from . import smt
        T.NONNEG.add('strlen')

        def dom(args):
            z = T.eq0(T.app('strlen', args, 'I'))
            e = T.keq(args[0], str_key(''))
            return [T.or_(T.and_(z, e), T.and_(T.not_(z), T.not_(e)))]
        smt.DOMAIN['strlen'] = dom
        p = T.app('strlen', (self.k,), 'I')
        return Num(p, 'int')

    def __len__(self):
        raise Unsupported('len of a symbolic string')

    def __bool__(self):
        return cur().decide(T.not_(T.keq(self.k, str_key(''))))


class SHead(object):
    """the first m characters of the text k"""

    def __init__(self, k, m):
        self.k, self.m = k, m

    def __eq__(self, o):
        if not isinstance(o, str):
            raise Unsupported('part of a symbolic string')
        if len(o) > self.m:
            return False
        if len(o) == self.m:
            return SBool(T.starts(self.k, str_key(o)))
        return SBool(T.keq(self.k, str_key(o)))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported('part of a symbolic string as a key')


class SStart(object):
    """as many characters of the text k as the text p has"""

    def __init__(self, k, p):
        self.k, self.p = k, p

    def __eq__(self, o):
        if isinstance(o, (str, SStr)) and key_of(o) == self.p:
            return SBool(T.starts(self.k, self.p))
        raise Unsupported('part of a symbolic string')

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        raise Unsupported('part of a symbolic string')

    def __getattr__(self, n):
        raise Unsupported('part of a symbolic string')


NONE = ('k', 'const', None)


class SOpt(SStr):
    """a text or None"""
    __slots__ = ()

    def none(self):
        return T.keq(self.k, NONE)

    def text(self, what='attribute'):
        if cur().decide(self.none()):
            raise AttributeError("'NoneType' object has no " + what)
        return SStr(self.k)

    def __eq__(self, o):
        if o is None:
            return SBool(self.none())
        return SStr.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else True

    def __hash__(self):
        return 7

    def __bool__(self):
        return cur().decide(T.and_(T.not_(self.none()), T.not_(T.keq(
            self.k, str_key('')))))

    def __str__(self):
        raise Unsupported('str of an optional text')
    __format__ = __add__ = __radd__ = __contains__ = __str__

    def startswith(self, *a):
        return self.text().startswith(*a)

    def endswith(self, *a):
        return self.text().endswith(*a)

    def rstrip(self, *a):
        return self.text().rstrip(*a)

    def lstrip(self, *a):
        return self.text().lstrip(*a)

    def strip(self, *a):
        return self.text().strip(*a)

    def split(self, *a):
        return self.text().split(*a)

    def replace(self, *a):
        return self.text().replace(*a)

    def partition(self, *a):
        return self.text().partition(*a)

    def rpartition(self, *a):
        return self.text().rpartition(*a)

    def rsplit(self, *a):
        return self.text().rsplit(*a)

    def __getitem__(self, i):
        return self.text()[i]

    def ljust(self, *a):
        return self.text().ljust(*a)

    def sym_len(self):
        return self.text().sym_len()


class SMember(object):
    """some member of an enumeration of numbers"""
    __slots__ = ('kind', 'p')

    def __init__(self, kind, p):
        self.kind, self.p = kind, p

    def __hash__(self):
        raise Unsupported('symbolic member of an enumeration as a key')

    def __eq__(self, o):
        if isinstance(o, SMember):
            return SBool(T.eq0(self.p - o.p))
        if isinstance(o, self.kind):
            return SBool(T.eq0(self.p - T.const(o.value)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else True

    def __bool__(self):
        return True

    @property
    def value(self):
        return Num(self.p, 'int')

    @property
    def name(self):
        raise Unsupported('name of a symbolic member of an enumeration')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('attribute of a symbolic enumeration member')


class SSplit(object):
    """parts of a string split at a separator: only the first is modelled"""

    def __init__(self, k, sep):
        self.k, self.sep = k, sep

    def __getitem__(self, i):
        if i != 0 or isinstance(i, bool) or self.sep is None:
            raise Unsupported('part of a split symbolic string')
        return SStr(('k', 'app', 'before ' + self.sep, (self.k,)))

    def __iter__(self):
        raise Unsupported('parts of a split symbolic string')

    def __len__(self):
        raise Unsupported('parts of a split symbolic string')


def str_key(s):
    return ('k', 'const', s)


def key_of(x):
    if isinstance(x, SStr):
        return x.k
    if isinstance(x, str):
        return str_key(x)
    raise Unsupported('key of %r' % type(x))


def cat_key(a, b):
    return T.key_cat((a, b))


def text_of(k):
    return k[2] if k[1] == 'const' else SStr(k)


# ----------------------------------------------------------------- sequences
class Comp(object):
    """n items elem(j), 0<=j<n, those with guard(j)."""
    __slots__ = ('n', 'guard', 'elem', 'order')

    def __init__(self, n, elem, guard=None):
        self.n, self.elem, self.guard = n, elem, guard


class Nest(object):
    """the segments body(0), body(1) ... body(m-1), one after the other; for
    code that does not know of them reading n, guard or elem is a limit"""
    __slots__ = ('m', 'body')

    def __init__(self, m, body):
        self.m, self.body = m, body

    def _limit(self):
        raise Unsupported('several items appended per iteration')
    n = guard = elem = property(_limit)


class Item(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def in_range(i, n):
    return T.and_(T.le0(-i), T.lt0(i - n))


def on_path(f):
    """f, unless the path already settles it"""
    pc = cur().pc
    return T.TRUE if f in pc else T.FALSE if T.not_(f) in pc else f


def merge_values(c, a, b):
    """c ? a : b"""
    if c.op == 'T' or a is b:
        return a
    if c.op == 'F':
        return b
    if is_num(a) and is_num(b):
        return Num(T.ite(c, to_poly(a), to_poly(b)),
                   join_tag(tag_of(a), tag_of(b)))
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)) or \
            (a is None and isinstance(b, (SStr, str))) or \
            (b is None and isinstance(a, (SStr, str))):
        opt = isinstance(a, SOpt) or isinstance(b, SOpt) or \
            a is None or b is None
        ka = NONE if a is None else key_of(a)
        kb = NONE if b is None else key_of(b)
        if ka == kb:
            return a
        k = ('k', 'app', 'ite', (T.ind(c), ka, kb))
        return SOpt(k) if opt else SStr(k)
    if type(a) is SList and type(b) is SList and a is not b:
        sa, sb = a.seg_view(), b.seg_view()
        if len(sa) == len(sb) and all(isinstance(x, Item) for x in sa + sb):
            return SList([merge_values(c, x.v, y.v) for x, y in zip(sa, sb)])
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        if a is b:
            return a
        f = T.or_(T.and_(c, to_fm(a)), T.and_(T.not_(c), to_fm(b)))
        return f.op == 'T' if f.op in 'TF' else SBool(f)
    if type(a) is type(b) and (type(a).__module__.startswith('auxi') or
                               isinstance(a, SRec)) and \
            hasattr(a, '__dict__') and set(a.__dict__) == set(b.__dict__):
        r = object.__new__(type(a))
        r.__dict__.update({n: merge_values(c, x, b.__dict__[n])
                           for n, x in a.__dict__.items()})
        return r
    # fork
    return a if cur().decide(c) else b


# objects that a loop finds at its head: id of the object that a summary
# mentions (of another run of the code) -> (the one of this run, it)
REMAP = {}


def subst_value(v, s, memo=None):
    """Substitute symbols in any value (copying structures)."""
    if isinstance(v, Num):
        return Num(T.subst(v.p, s), v.tag)
    if isinstance(v, SBool):
        return SBool(T.subst(v.f, s))
    if isinstance(v, SStr):
        return type(v)(T.subst(v.k, s))
    if v is None or isinstance(v, (bool, int, float, str, Fr)):
        return v
    if isinstance(v, tuple):
        return tuple(subst_value(x, s, memo) for x in v)
    if id(v) in REMAP:
        return REMAP[id(v)][0]
    if memo is None:
        memo = {}
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, SList):
        r = SList()
        memo[id(v)] = (r, v)
        if v.segs is None:
            list.extend(r, [subst_value(x, s, memo) for x in list.__iter__(v)])
        else:
            r.segs = [subst_seg(g, s, memo) for g in v.segs]
        return r
    if isinstance(v, SVec):
        n0, e0 = v.n, v.elem
        r = SVec(T.subst(n0, s), lambda i: subst_open(e0, i, s))
        memo[id(v)] = (r, v)
        return r
    if type(v) is SDict:
        r = SDict()
        memo[id(v)] = (r, v)
        if not v.sym():
            dict.update(r, {k: subst_value(x, s, memo)
                            for k, x in dict.items(v)})
            return r
        raise Unsupported('substitution into a symbolic dict')
    if hasattr(v, '__dict__') and type(v).__module__.startswith('auxi') or \
            isinstance(v, SRec) or hasattr(v, '_vc_terms'):
        changed = False
        r = object.__new__(type(v))
        memo[id(v)] = (r, v)
        d = {}
        terms = getattr(v, '_vc_terms', None)
        for a, x in v.__dict__.items():
            y = x if terms is not None and a not in terms else \
                subst_value(x, s, memo)
            if y is not x and not same_value(x, y):
                changed = True
            d[a] = y
        if not changed:
            memo[id(v)] = (v, v)
            return v
        r.__dict__.update(d)
        return r
    if type(v) in (list, dict, set):
        memo[id(v)] = (v, v)
        for x in list(v.values() if type(v) is dict else v):
            y = subst_value(x, s, memo)
            if y is not x and not same_value(x, y):
                raise Unsupported('substitution into a plain ' +
                                  type(v).__name__)
    return v


def subst_open(elem, i, s):
    """elem(i) with s applied to elem's free symbols, but not to i."""
    k = T.fresh_name('so')
    v = elem(T.var(k, 'I'))
    v = subst_value(v, s)
    return subst_value(v, {k: i})


def subst_seg(g, s, memo=None):
    if isinstance(g, Nest):
        m, b = g.m, g.body

        def body(j):
            k = T.fresh_name('sb')
            return [subst_seg(subst_seg(x, s, {}), {k: j}, {})
                    for x in b(T.var(k, 'I'))]
        return Nest(T.subst(m, s), body)
    if isinstance(g, Item):
        return Item(subst_value(g.v, s, memo))
    guard = None
    if g.guard is not None:
        g0 = g.guard

        def guard(i):
            k = T.fresh_name('so')
            f = T.subst(g0(T.var(k, 'I')), s)
            return T.subst(f, {k: i})
    e0 = g.elem
    return Comp(T.subst(g.n, s), lambda i: subst_open(e0, i, s), guard)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        return a.p == b.p
    if is_num(a) and is_num(b):
        return to_poly(a) == to_poly(b)
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.k == b.k and type(a) is type(b)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return a.f == b.f
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, bool, int, float)) or a is None:
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(
            same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, SList):
        return same_segs(a.seg_view(), b.seg_view())
    if isinstance(a, SVec):
        if a.n != b.n:
            return False
        k = T.var('#sv', 'I')
        return same_value(a.elem(k), b.elem(k))
    return False


def same_segs(x, y):
    if len(x) != len(y):
        return False
    k = T.var('#sv', 'I')
    for g, h in zip(x, y):
        if isinstance(g, Item) != isinstance(h, Item):
            return False
        if isinstance(g, Item):
            if not same_value(g.v, h.v):
                return False
        else:
            if g is h:
                continue
            if isinstance(g, Nest) or isinstance(h, Nest):
                if not (isinstance(g, Nest) and isinstance(h, Nest) and
                        g.m == h.m and same_segs(
                            g.body(T.var('#sn', 'I')),
                            h.body(T.var('#sn', 'I')))):
                    return False
                continue
            if g.n != h.n:
                return False
            if (g.guard is None) != (h.guard is None):
                return False
            if g.guard is not None and g.guard(k) != h.guard(k):
                return False
            if not same_value(g.elem(k), h.elem(k)):
                return False
    return True


def _list_repeat(lst, n):
    if isinstance(lst, tuple):
        raise Unsupported('tuple * symbolic')
    if len(lst) != 1:
        raise Unsupported('list of several items * symbolic')
    v = lst[0]
    r = SList()
    # a negative count gives the empty list
    p = n.p
    if not T.poly_nonneg(p) and cur().decide(T.lt0(p)):
        return r
    r.segs = [Comp(p, lambda i: v)]
    return r


def slice_bounds(s, n):
    """-> (start, length) polynomials of s applied to a length n"""
    e = cur()

    def bound(x, dflt):
        if x is None:
            return dflt
        p = to_poly(x)
        if not T.poly_nonneg(p) and e.decide(T.lt0(p)):
            p = p + n
            if e.decide(T.lt0(p)):
                p = T.ZERO
        if e.decide(T.lt0(n - p)):
            p = n
        return p
    lo = bound(s.start, T.ZERO)
    hi = bound(s.stop, n)
    if e.decide(T.le0(hi - lo)):
        return lo, T.ZERO
    return lo, hi - lo


def count_segs(segs):
    p = T.ZERO
    for g in segs:
        if isinstance(g, Item):
            p = p + T.ONE
        elif isinstance(g, Nest):
            k = T.fresh_name('ln')
            p = p + T.mk_sum(g.m, k, count_segs(g.body(T.var(k, 'I'))))
        elif g.guard is None:
            p = p + g.n
        else:
            k = T.fresh_name('ln')
            p = p + T.mk_sum(g.n, k, T.ind(g.guard(T.var(k, 'I'))))
    return p


class SList(list):
    """list; symbolic when .segs is not None"""
    segs = None

    def __init__(self, it=()):
        list.__init__(self, it)

    def sym(self):
        return self.segs is not None

    def seg_view(self):
        if self.segs is None:
            return [Item(v) for v in list.__iter__(self)]
        return self.segs

    def set_segs(self, segs):
        if all(isinstance(g, Item) for g in segs):
            self.segs = None
            list.__setitem__(self, slice(None), [g.v for g in segs])
        else:
            list.__setitem__(self, slice(None), [])
            self.segs = list(segs)

    # -- length
    def sym_len(self):
        if self.segs is None:
            return list.__len__(self)
        p = count_segs(self.segs)
        if p.is_const():
            return int(p.const())
        return Num(p, 'int')

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n
        raise Unsupported('C-level len() of a symbolic list')

    def __bool__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n != 0
        return cur().decide(T.lt0(-n.p))

    def __iter__(self):
        if self.segs is None:
            return list.__iter__(self)
        raise Unsupported('C-level iteration of a symbolic list')

    def __repr__(self):
        if self.segs is None:
            return list.__repr__(self)
        return '<symbolic list len %s>' % (self.sym_len(),)
    __str__ = __repr__

    def __deepcopy__(self, memo):
        r = SList()
        memo[id(self)] = r
        if self.segs is None:
            list.extend(r, [_copy.deepcopy(x, memo)
                            for x in list.__iter__(self)])
        else:
            r.segs = [Item(_copy.deepcopy(g.v, memo)) if isinstance(g, Item)
                      else g for g in self.segs]
        return r

    def copy(self):
        r = SList()
        if self.segs is None:
            list.extend(r, list.__iter__(self))
        else:
            r.segs = list(self.segs)
        return r
    __copy__ = copy

    def __reduce_ex__(self, p):
        if self.segs is None:
            return (list, (list(list.__iter__(self)),))
        raise Unsupported('pickling a symbolic list')

    def __hash__(self):
        raise TypeError('unhashable type: list')

    # -- element access
    def at(self, i):
        """element at in-range index polynomial i >= 0"""
        off = T.ZERO
        segs = self.seg_view()
        if len(segs) == 1 and not isinstance(segs[0], Item):
            g = segs[0]
            if g.guard is not None:
                if i != T.ZERO:
                    raise Unsupported('index into a filtered list')
                # the first member (the list is known not to be empty)
                e = cur()
                p = T.var(e.fresh('first'), 'I')
                j = T.fresh_name('fj')
                e.assume(in_range(p, g.n))
                e.assume(g.guard(p))
                e.assume(T.forall(j, p, T.not_(g.guard(T.var(j, 'I')))))
                return frozen(g.elem(p))
            return frozen(g.elem(i))
        for ix, g in enumerate(segs):
            if isinstance(g, Item):
                last = ix == len(segs) - 1
                if last or cur().decide(T.eq0(i - off)):
                    return g.v
                off = off + T.ONE
            else:
                if g.guard is not None:
                    raise Unsupported('index into a filtered list')
                last = ix == len(segs) - 1
                if last or cur().decide(T.lt0(i - off - g.n)):
                    return frozen(g.elem(i - off))
                off = off + g.n
        raise Unsupported('list index')

    def norm_index(self, i):
        n = to_poly(self.sym_len())
        p = to_poly(i)
        e = cur()
        if not T.poly_nonneg(p) and e.decide(T.lt0(p)):
            p = p + n
            if e.decide(T.lt0(p)):
                raise IndexError('list index out of range')
        if not e.decide(T.lt0(p - n)):
            raise IndexError('list index out of range')
        return p

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.segs is None:
                return SList(list.__getitem__(self, i))
            return self._slice(i)
        if self.segs is None and not isinstance(i, Num):
            return list.__getitem__(self, i)
        return self.at(self.norm_index(i))

    def _slice(self, s):
        if s.start is None and s.stop is None and s.step in (None, 1):
            return self.copy()
        if s.start is None and s.stop is None and s.step == -1:
            segs = self.segs
            if len(segs) == 1 and segs[0].guard is None:
                g = segs[0]
                r = SList()
                r.segs = [Comp(g.n, lambda i: g.elem(g.n - T.ONE - i))]
                return r
        if s.step not in (None, 1) or any(
                not isinstance(g, Item) and g.guard is not None
                for g in self.segs):
            raise Unsupported('slice of a symbolic list')
        lo, n = slice_bounds(s, to_poly(self.sym_len()))
        src = self.copy()
        r = SList()
        if n.is_const() and 0 <= n.const() <= 32:
            r.set_segs([Item(src.at(lo + T.const(j)))
                        for j in range(int(n.const()))])
        else:
            r.set_segs([Comp(n, lambda i: src.at(i + lo))])
        return r

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if self.segs is None and not (isinstance(v, SList) and v.sym()):
                return list.__setitem__(self, i, v)
            if i.start is None and i.stop is None:
                self.set_segs(as_segs(v))
                return
            raise Unsupported('slice assignment on a symbolic list')
        if self.segs is None and not isinstance(i, Num):
            return list.__setitem__(self, i, v)
        p = self.norm_index(i)
        if self.segs is None:
            for j in range(list.__len__(self)):
                if cur().decide(T.eq0(p - T.const(j))):
                    list.__setitem__(self, j, v)
                    return
            raise IndexError
        old = self.copy()
        n = to_poly(self.sym_len())
        self.segs = [Comp(n, store_fn(old.at, p, v))]

    def __delitem__(self, i):
        if self.segs is None:
            return list.__delitem__(self, i)
        if isinstance(i, slice) and i.start is None and i.stop is None:
            self.set_segs([])
            return
        raise Unsupported('del on a symbolic list')

    def clear(self):
        self.set_segs([])

    def append(self, v):
        if self.segs is None:
            list.append(self, v)
        else:
            self.segs = self.segs + [Item(v)]

    def extend(self, o):
        segs = as_segs(o)
        self.set_segs(self.seg_view() + segs)

    def insert(self, i, v):
        if self.segs is None:
            return list.insert(self, i, v)
        if i == 0:
            self.segs = [Item(v)] + self.segs
            return
        raise Unsupported('insert into a symbolic list')

    def pop(self, *a):
        if self.segs is None:
            return list.pop(self, *a)
        raise Unsupported('pop of a symbolic list')

    def remove(self, v):
        if self.segs is None:
            for j, x in enumerate(list.__iter__(self)):
                if x is v or x == v:
                    list.__delitem__(self, j)
                    return
            raise ValueError('list.remove(x): x not in list')
        raise Unsupported('remove from a symbolic list')

    def sort(self, *a, **k):
        if self.segs is None:
            return list.sort(self, *a, **k)
        from .runtime import sym_sorted
        self.set_segs(list(sym_sorted(self.copy(), *a, **k).segs))

    def reverse(self):
        if self.segs is None:
            return list.reverse(self)
        raise Unsupported('reverse of a symbolic list')

    # -- operators
    def __add__(self, o):
        if not isinstance(o, list):
            raise TypeError('can only concatenate list to list')
        r = SList()
        r.set_segs(self.seg_view() + as_segs(o))
        return r

    def __radd__(self, o):
        if not isinstance(o, list):
            raise TypeError('can only concatenate list to list')
        r = SList()
        r.set_segs(as_segs(o) + self.seg_view())
        return r

    def __iadd__(self, o):
        if isinstance(o, (Num, float, int)):
            raise TypeError("'float' object is not iterable")
        self.extend(o)
        return self

    def __mul__(self, o):
        if isinstance(o, Num) and o.tag != 'int':
            raise TypeError("can't multiply sequence by non-int of type "
                            "'float'")
        if isinstance(o, Num):
            return _list_repeat(self, o)
        if isinstance(o, float):
            raise TypeError("can't multiply sequence by non-int of type "
                            "'float'")
        if self.segs is None:
            return SList(list.__mul__(self, o))
        raise Unsupported('repeat of a symbolic list')
    __rmul__ = __mul__

    def __imul__(self, o):
        r = self * o
        self.set_segs(as_segs(r))
        return self

    def __eq__(self, o):
        if not isinstance(o, list):
            return False
        if self.segs is None and not (isinstance(o, SList) and o.sym()):
            n = list.__len__(self)
            if n != len(o):
                return False
            for a, b in zip(list.__iter__(self), list.__iter__(o)):
                if a is not b and not a == b:
                    return False
            return True
        return SBool(seq_eq(self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    # -- membership
    def contains_fm(self, x):
        if self.segs is None:
            f = T.FALSE
            for y in list.__iter__(self):
                f = T.or_(f, eq_fm(y, x))
            return f
        f = T.FALSE
        for g in self.segs:
            if isinstance(g, Item):
                f = T.or_(f, eq_fm(g.v, x))
                continue
            h = getattr(g.elem, 'pos', None)
            if h is not None and isinstance(
                    x, (SStr, str)) != g.elem.numeric:
                p = h(to_poly(x) if g.elem.numeric else key_of(x))
                f = T.or_(f, T.le0(-p))
            else:
                if g.guard is not None:
                    e0, g0, n0 = g.elem, g.guard, g.n
                else:
                    e0, g0, n0 = g.elem, None, g.n
                f = T.or_(f, T.not_(all_of(n0, T.fresh_name('q'), lambda kv: (
                    T.not_(eq_fm(e0(kv), x) if g0 is None else T.and_(
                        g0(kv), eq_fm(e0(kv), x)))))))
        return f

    def __contains__(self, x):
        if self.segs is None and not isinstance(x, (Num, SStr)) and not any(
                isinstance(y, (Num, SStr)) for y in list.__iter__(self)):
            return list.__contains__(self, x)
        f = self.contains_fm(x)
        return decide_contains(f)

    def index(self, x, *a):
        if self.segs is None:
            for j, y in enumerate(list.__iter__(self)):
                if y is x or y == x:
                    return j
            raise ValueError('%r is not in list' % (x,))
        if len(self.segs) == 1 and not isinstance(self.segs[0], Item):
            g = self.segs[0].elem
            h = getattr(g, 'pos', None)
            if h is not None and isinstance(x, (SStr, str)) != g.numeric:
                p = h(to_poly(x) if g.numeric else key_of(x))
                if cur().decide(T.le0(-p)):
                    return Num(p, 'int')
                raise ValueError('not in list')
        raise Unsupported('index in a symbolic list')

    def count(self, x):
        if self.segs is None:
            return sum(1 for y in list.__iter__(self) if y == x)
        raise Unsupported('count in a symbolic list')


def decide_contains(f):
    """decide a membership formula (it may contain negated foralls)"""
    e = cur()
    if f.op == 'not' and f.a[0].op == 'all':
        # introduce a witness when it holds
        v, n, g = f.a[0].a
        if e.decide(f):
            k = e.fresh('w')
            kv = T.var(k, 'I')
            e.assume_checked(T.and_(in_range(kv, n),
                                    T.not_(T.subst(g, {v: kv}))))
            return True
        return False
    return e.decide(f)


def eq_fm(a, b):
    """a == b as a formula, without forking"""
    if is_num(a) and is_num(b):
        return T.eq0(to_poly(a) - to_poly(b))
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        return T.keq(key_of(a), key_of(b))
    if a is None and isinstance(b, SOpt):
        return b.none()
    if b is None and isinstance(a, SOpt):
        return a.none()
    if isinstance(a, SBool) or isinstance(b, SBool):
        f, g = to_fm(a), to_fm(b)
        return T.or_(T.and_(f, g), T.and_(T.not_(f), T.not_(g)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return T.FALSE
        return T.and_(*[eq_fm(x, y) for x, y in zip(a, b)])
    if isinstance(a, (list, SVec)) and isinstance(b, (list, SVec)):
        return seq_eq(a, b)
    if a is b:
        return T.TRUE
    ka = getattr(a, '_vc__key__', None)
    kb = getattr(b, '_vc__key__', None)
    if ka is not None and kb is not None:
        return T.keq(ka, kb)
    r = (a == b)
    return to_fm(r)


def seq_eq(a, b):
    na, nb = to_poly(seq_len(a)), to_poly(seq_len(b))
    f = T.eq0(na - nb)
    if f.op == 'F':
        return f
    return T.and_(f, all_of(na, T.fresh_name('q'), lambda kv: eq_fm(
        seq_at(a, kv), seq_at(b, kv))))


def seq_len(x):
    if isinstance(x, (SList, SVec, SDict, SView, SRange)):
        return x.sym_len()
    return len(x)


def seq_at(x, i):
    """element at an in-range index polynomial"""
    if isinstance(x, SVec):
        return x.elem(i)
    if isinstance(x, SList):
        if not x.sym():
            return _conc_at(list(list.__iter__(x)), i)
        return x.at(i)
    if isinstance(x, SRange):
        return x.at(i)
    if isinstance(x, SView):
        return x.at(i)
    return _conc_at(list(x), i)


def _conc_at(xs, i):
    if i.is_const():
        return xs[int(i.const())]
    if not xs:
        raise IndexError
    v = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        v = merge_values(T.eq0(i - T.const(j)), xs[j], v)
    return v


def store_fn(old, p, v):
    def elem(i):
        c = T.eq0(i - p)
        if c.op == 'F':
            return old(i)
        if c.op == 'T':
            return v
        return merge_values(c, v, old(i))
    return elem


def as_segs(o):
    if isinstance(o, SList):
        return list(o.seg_view())
    if isinstance(o, SVec):
        e = o.elem
        return [Comp(o.n, e)]
    if isinstance(o, (SRange, SView)):
        return o.as_segs()
    return [Item(v) for v in o]


class SVec(object):
    """numpy 1-D float array with symbolic length."""
    __array_priority__ = 1000.0
    __array_ufunc__ = None

    viewed = False

    def __init__(self, n, elem):
        self.n = n if isinstance(n, T.Poly) else to_poly(n)
        self.elem = elem

    def sym_len(self):
        if self.n.is_const():
            return int(self.n.const())
        return Num(self.n, 'int')

    def __len__(self):
        if self.n.is_const():
            return int(self.n.const())
        raise Unsupported('C-level len of a symbolic array')

    @property
    def size(self):
        return self.sym_len()

    @property
    def shape(self):
        return (self.sym_len(),)

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(float)

    def __iter__(self):
        if self.n.is_const():
            return iter([self.elem(T.const(i))
                         for i in range(int(self.n.const()))])
        raise Unsupported('C-level iteration of a symbolic array')

    def __bool__(self):
        raise ValueError('The truth value of an array is ambiguous')

    def __hash__(self):
        raise TypeError('unhashable type: numpy.ndarray')

    def __deepcopy__(self, memo):
        return SVec(self.n, self.elem)
    __copy__ = lambda self: SVec(self.n, self.elem)

    def copy(self):
        return SVec(self.n, self.elem)

    def tolist(self):
        r = SList()
        e = self.elem
        r.set_segs([Comp(self.n, lambda i: _retag(e(i), 'float'))])
        return r

    def fill(self, v):
        self.elem = lambda i: npnum(v)

    def astype(self, *a, **k):
        return self.copy()

    def norm_index(self, i):
        p = to_poly(i)
        e = cur()
        if not T.poly_nonneg(p) and e.decide(T.lt0(p)):
            p = p + self.n
            if e.decide(T.lt0(p)):
                raise IndexError('index out of bounds')
        if not e.decide(T.lt0(p - self.n)):
            raise IndexError('index out of bounds')
        return p

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        if isinstance(i, (tuple, list, SVec)):
            raise Unsupported('fancy indexing')
        return self.elem(self.norm_index(i))

    def _slice(self, s):
        if s.start is None and s.stop is None and s.step in (None, 1):
            lo, n = T.ZERO, self.n
        elif s.step in (None, 1):
            lo, n = slice_bounds(s, self.n)
        else:
            raise Unsupported('slice of a symbolic array')
        # a view: neither side may be written to afterwards
        f = self.elem
        r = SVec(n, lambda i: f(i + lo))
        r.viewed = self.viewed = True
        return r

    def __setitem__(self, i, v):
        if self.viewed:
            raise Unsupported('write to an array with a view')
        if isinstance(i, slice) and i.start is None and i.stop is None and \
                i.step in (None, 1):
            if is_num(v):
                self.elem = lambda j: npnum(v)
            elif isinstance(v, SVec):
                self._same_len(v)
                self.elem = v.elem
            elif isinstance(v, SList):
                self.elem = to_vec(v).elem
            else:
                raise Unsupported('array slice assignment')
            return
        if isinstance(i, (slice, tuple, list, SVec)):
            raise Unsupported('fancy assignment')
        p = self.norm_index(i)
        if not is_num(v):
            if v is None:
                raise TypeError('float() argument must be a number')
            raise Unsupported('array store of %r' % type(v))
        self.elem = store_fn(self.elem, p, npnum(v))

    def _same_len(self, o):
        if self.n == o.n:
            return
        if cur().decide(T.eq0(self.n - o.n)):
            return
        raise ValueError('operands could not be broadcast together')

    def _map2(self, o, f):
        if isinstance(o, SList) or (isinstance(o, (list, tuple))):
            o = to_vec(o)
        if isinstance(o, SVec):
            if o.n == T.ONE and self.n != T.ONE:
                v = o.elem(T.ZERO)
                a = self.elem
                return SVec(self.n, lambda i: f(a(i), v))
            if self.n == T.ONE and o.n != T.ONE:
                v = self.elem(T.ZERO)
                a = o.elem
                return SVec(o.n, lambda i: f(v, a(i)))
            self._same_len(o)
            a, b = self.elem, o.elem
            return SVec(self.n, lambda i: f(a(i), b(i)))
        if is_num(o):
            a = self.elem
            v = npnum(o)
            return SVec(self.n, lambda i: f(a(i), v))
        try:
            import numpy as np
            if isinstance(o, np.ndarray) and o.ndim == 1:
                return self._map2(to_vec(o), f)
            if isinstance(o, np.generic) or (
                    isinstance(o, np.ndarray) and o.ndim == 0):
                return self._map2(o.item(), f)
        except ImportError:
            pass
        return NotImplemented

    def __add__(self, o):
        return self._map2(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._map2(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._map2(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._map2(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __truediv__(self, o):
        if is_num(o):
            # divide once: the zero test forks here, not per element
            q = to_poly(o)
            if not nonzero(q):
                u = cur().fresh('undefv')
                return SVec(self.n, lambda i: Num(T.app(u, (i,)), 'np'))
            iv = T.inv(q)
            a = self.elem
            return SVec(self.n, lambda i: Num(to_poly(a(i)) * iv, 'np'))
        if isinstance(o, (SVec, SList)):
            o = to_vec(o)
            k = cur().fresh('dv')
            kv = T.var(k, 'I')
            d = to_poly(o.elem(kv))
            f = T.forall(k, o.n, T.not_(T.eq0(d)))
            if not (T.poly_positive(d) or cur().implied(f)):
                if not cur().decide(f):
                    e = cur()
                    w = T.var(e.fresh('w'), 'I')
                    e.assume_checked(T.and_(in_range(w, o.n), T.eq0(
                        to_poly(o.elem(w)))))
                    u = e.fresh('undefv')
                    return SVec(self.n, lambda i: Num(T.app(u, (i,)), 'np'))
            return self._map2(o, lambda a, b: Num(
                to_poly(a) * T.inv(to_poly(b)), 'np'))
        return NotImplemented

    def __rtruediv__(self, o):
        if is_num(o):
            v = npnum(o)
            return SVec(self.n, lambda i: v) / self
        return NotImplemented

    def __pow__(self, e):
        a = self.elem
        return SVec(self.n, lambda i: a(i) ** e)

    def _inplace(self, r):
        if self.viewed:
            raise Unsupported('write to an array with a view')
        if r is NotImplemented:
            return r
        self.elem = r.elem
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def sum(self, *a, **k):
        return vec_sum(self)

    def dot(self, o):
        return vec_sum(self * o)

    def mean(self):
        return vec_sum(self) / self.sym_len()

    def max(self):
        raise Unsupported('max of a symbolic array')
    min = max

    def all(self):
        raise Unsupported('all of a symbolic array')
    any = all

    def __eq__(self, o):
        raise Unsupported('elementwise comparison')
    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__

    def __repr__(self):
        return '<symbolic array len %s>' % T.show(self.n)


def _retag(x, tag):
    if isinstance(x, Num):
        return Num(x.p, tag)
    return x


def npnum(v):
    return Num(to_poly(v), 'np')


def under(n, k, fn):
    """[(condition, fn(k))] for any k below n"""
    kv = T.var(k, 'I')
    return cur().cases(lambda: fn(kv), [T.le0(-kv), T.lt0(kv - n)])


def sum_of(n, k, fn):
    """the sum of the numbers fn(k) over all k below n"""
    r = T.ZERO
    for c, v in under(n, k, fn):
        if not isinstance(v, T.Poly):
            v = to_poly(v)
        r = r + (v if c.op == 'T' else T.ind(c) * v)
    return T.mk_sum(n, k, r)


def all_of(n, k, fn):
    """fn(k) holds for all k below n"""
    return T.forall(k, n, T.and_(*[
        T.implies(c, f) for c, f in under(n, k, fn)]))


def vec_sum(v, tag='np'):
    return Num(sum_of(v.n, T.fresh_name('vs'), v.elem), tag)


def to_vec(x):
    if isinstance(x, SVec):
        return x
    if isinstance(x, SList) and x.sym():
        if len(x.segs) == 1 and x.segs[0].guard is None:
            e = x.segs[0].elem
            return SVec(x.segs[0].n, lambda i: npnum(e(i)))
        y = x.copy()
        return SVec(to_poly(y.sym_len()), lambda i: npnum(y.at(i)))
    xs = [npnum(v) for v in x]
    return SVec(T.const(len(xs)), lambda i: _conc_at(xs, i))


def seq_sum(x, start=0):
    """builtin sum over a symbolic sequence"""
    tot = None
    if isinstance(x, SVec):
        return vec_sum(x) + start if not (
            isinstance(start, int) and start == 0) else vec_sum(x)
    p = to_poly(start)
    tag = tag_of(start)
    for g in as_segs(x):
        if isinstance(g, Item):
            if not is_num(g.v):
                raise Unsupported('sum of non-numbers')
            p = p + to_poly(g.v)
            tag = join_tag(tag, tag_of(g.v))
        else:
            tags = []

            def number(kv):
                v = under_index(g, kv)
                if not is_num(v):
                    raise Unsupported('sum of non-numbers')
                tags.append(tag_of(v))
                b = to_poly(v)
                return b if g.guard is None else T.ind(g.guard(kv)) * b
            p = p + sum_of(g.n, T.fresh_name('vs'), number)
            for t in tags:
                tag = join_tag(tag, t)
    return Num(p, tag)


def under_index(g, kv):
    return g.elem(kv)


class SRange(object):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        s = to_poly(step)
        if not s.is_const() or s.const() not in (1, -1):
            raise Unsupported('range with a symbolic step')
        self.st = s.const()

    def count(self):
        n = (to_poly(self.stop) - to_poly(self.start)).scale(self.st)
        return n

    def sym_len(self):
        n = self.count()
        if T.poly_nonneg(n):
            return int(n.const()) if n.is_const() else Num(n, 'int')
        if cur().decide(T.lt0(n)):
            return 0
        return Num(n, 'int')

    def at(self, i):
        p = to_poly(self.start) + i.scale(self.st)
        return Num(p, 'int') if not p.is_const() else int(p.const())

    def as_segs(self):
        n = to_poly(self.sym_len())
        return [Comp(n, self.at)]

    def __iter__(self):
        raise Unsupported('C-level iteration of a symbolic range')

    def __contains__(self, x):
        p = to_poly(x)
        lo, hi = to_poly(self.start), to_poly(self.stop)
        if self.st == 1:
            return cur().decide(T.and_(T.le0(lo - p), T.lt0(p - hi)))
        return cur().decide(T.and_(T.le0(p - lo), T.lt0(hi - p)))

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n
        raise Unsupported('len(range(symbolic))')


class SView(object):
    """A derived lazily indexed sequence: enumerate, zip, dict views ..."""

    def __init__(self, n, at):
        self.n = n
        self._at = at

    def sym_len(self):
        return int(self.n.const()) if self.n.is_const() else \
            Num(self.n, 'int')

    def at(self, i):
        return self._at(i)

    def as_segs(self):
        return [Comp(self.n, self._at)]

    def __iter__(self):
        if self.n.is_const():
            return iter([self._at(T.const(i))
                         for i in range(int(self.n.const()))])
        raise Unsupported('C-level iteration of a symbolic view')

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n
        raise Unsupported('len of a symbolic view')

    def __contains__(self, x):
        l = SList()
        l.set_segs(self.as_segs())
        return x in l


# ----------------------------------------------------------------- dict
class SDict(dict):
    """dict; symbolic when .val is not None: a total map key -> number with a
    membership predicate and (for iteration) an enumeration of its keys."""
    val = None          # key term -> value (for members)
    has = None          # key term -> Fm
    enum = None         # (n Poly, index Poly -> key python value)

    def sym(self):
        return self.val is not None

    def set_map(self, val, has, enum):
        self.val, self.has, self.enum = val, has, enum

    @staticmethod
    def kterm(k):
        if isinstance(k, (SStr, str)):
            return key_of(k)
        kk = getattr(k, '_vc__key__', None)
        if kk is not None:
            return kk
        raise Unsupported('symbolic dict key %r' % type(k))

    def _lookup(self, k):
        """-> concrete key equal to k, or raises KeyError; forks"""
        for q in dict.keys(self):
            if q is k:
                return q
            r = (q == k) if isinstance(q, SStr) or not isinstance(k, SStr) \
                else (k == q)
            if r:
                return q
        raise KeyError(k)

    @staticmethod
    def _symkey(k):
        return isinstance(k, (SStr, Num, SMember)) or (
            isinstance(k, tuple) and any(SDict._symkey(x) for x in k))

    def _anysym(self):
        return any(self._symkey(q) for q in dict.keys(self))

    def __contains__(self, k):
        if self.sym():
            return cur().decide(self.has(self.kterm(k)))
        if self._symkey(k) or self._anysym():
            try:
                self._lookup(k)
                return True
            except KeyError:
                return False
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        if self.sym():
            kt = self.kterm(k)
            if not cur().decide(self.has(kt)):
                raise KeyError(k)
            return self.val(kt)
        if self._symkey(k) or self._anysym():
            return dict.__getitem__(self, self._lookup(k))
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        if self.sym() and is_num(d):
            kt = self.kterm(k)
            v = self.val(kt)
            if is_num(v):
                return merge_values(on_path(self.has(kt)), v, d)
        if self.sym() or self._symkey(k) or self._anysym():
            try:
                return self[k]
            except KeyError:
                return d
        return dict.get(self, k, d)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def __setitem__(self, k, v):
        if self.sym():
            kt = self.kterm(k)
            val0, has0 = self.val, self.has
            self.val = lambda q: merge_values(T.keq(q, kt), v, val0(q))
            # reads 0 for what is not held
            self.val.zero = getattr(val0, 'zero', False)
            self.has = lambda q: T.or_(has0(q), T.keq(q, kt))
            self.enum = None
            return
        if self._symkey(k) or self._anysym():
            if in_symbolic_loop() :
                return self._go_symbolic_store(k, v)
            try:
                k = self._lookup(k)
            except KeyError:
                pass
            dict.__setitem__(self, k, v)
            return
        dict.__setitem__(self, k, v)

    def _go_symbolic_store(self, k, v):
        self.to_symbolic()
        self[k] = v

    def to_symbolic(self):
        items = list(dict.items(self))
        kts = [(self.kterm(a), b) for a, b in items]

        def val(q):
            r = Num(T.ZERO, 'float')
            for a, b in kts:
                r = merge_values(T.keq(q, a), b, r)
            return r

        def has(q):
            return T.or_(*[T.keq(q, a) for a, _ in kts])
        val.zero = True
        dict.clear(self)
        self.set_map(val, has, None)

    def __delitem__(self, k):
        if self.sym():
            raise Unsupported('del on a symbolic dict')
        if self._symkey(k) or self._anysym():
            k = self._lookup(k)
        dict.__delitem__(self, k)

    def pop(self, k, *a):
        if self.sym():
            raise Unsupported('pop on a symbolic dict')
        if self._symkey(k) or self._anysym():
            try:
                k = self._lookup(k)
            except KeyError:
                if a:
                    return a[0]
                raise
        return dict.pop(self, k, *a)

    def sym_len(self):
        if self.sym():
            if self.enum is None:
                raise Unsupported('len of a symbolic dict')
            n = self.enum[0]
            return int(n.const()) if n.is_const() else Num(n, 'int')
        return dict.__len__(self)

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n
        raise Unsupported('len of a symbolic dict')

    def __bool__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n != 0
        return cur().decide(T.lt0(-n.p))

    def _enum(self):
        if self.enum is None:
            raise Unsupported('iteration of a symbolic dict')
        return self.enum

    def __iter__(self):
        if self.sym():
            n, at = self._enum()
            return iter(SView(n, at))
        return dict.__iter__(self)

    def keys(self):
        if self.sym():
            return SView(*self._enum())
        return dict.keys(self)

    def values(self):
        if self.sym() and self.enum is None:
            return SKeyValues(self)
        if self.sym():
            n, at = self._enum()
            v = self.val
            return SView(n, lambda i: v(self.kterm(at(i))))
        return dict.values(self)

    def items(self):
        if self.sym():
            n, at = self._enum()
            v = self.val
            return SView(n, lambda i: (at(i), v(self.kterm(at(i)))))
        return dict.items(self)

    def copy(self):
        r = SDict()
        if self.sym():
            r.set_map(self.val, self.has, self.enum)
        else:
            dict.update(r, self)
        return r
    __copy__ = copy

    def update(self, *a, **k):
        for o in a:
            if isinstance(o, SDict) and o.sym():
                raise Unsupported('update from a symbolic dict')
            if hasattr(o, 'keys'):
                for q in o.keys():
                    self[q] = o[q]
            else:
                for q, v in o:
                    self[q] = v
        for q, v in k.items():
            self[q] = v

    def __deepcopy__(self, memo):
        r = SDict()
        memo[id(self)] = r
        if self.sym():
            r.set_map(self.val, self.has, self.enum)
        else:
            for k, v in dict.items(self):
                dict.__setitem__(r, k, _copy.deepcopy(v, memo))
        return r

    def __eq__(self, o):
        if self.sym() or (isinstance(o, SDict) and o.sym()):
            if self is o:
                return True
            raise Unsupported('equality of symbolic dicts')
        return dict.__eq__(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        raise TypeError('unhashable type: dict')

    def __repr__(self):
        return '<symbolic dict>' if self.sym() else dict.__repr__(self)


class SKeyValues(object):
    """values of a symbolic dict whose keys are not enumerated: only their
    total is known.  Absent keys read as 0 in such a dict, so the total is the
    sum of val(q) over all q; each contribution [q == key_i]*c_i to val counts
    once, at q = key_i."""

    def __init__(self, d):
        self.d = d

    def total(self, start=0):
        q = T.fresh_name('key')
        p = to_poly(self.d.val(('k', 'var', q)))
        return Num(key_total(p, q) + to_poly(start), 'float')

    def __iter__(self):
        raise Unsupported('iteration of a symbolic dict')

    def __len__(self):
        raise Unsupported('len of a symbolic dict')


def key_total(p, q):
    """SUM over all keys q of p, for p of finite support given by [q == t]"""
    qk = ('k', 'var', q)
    r = T.ZERO
    for m, c in p.t.items():
        for ix, (a, e) in enumerate(m):
            rest = T.Poly({m[:ix] + m[ix + 1:]: c})
            if a.kind == 'ind':
                fs = a.data.a if a.data.op == 'and' else (a.data,)
                hit = None
                for f in fs:
                    if f.op == 'keq' and qk in f.a:
                        t = f.a[0] if f.a[1] == qk else f.a[1]
                        if q not in T.key_vars(t):
                            hit = f, t
                            break
                if hit is None:
                    continue
                f, t = hit
                g = T.and_(*[x for x in fs if x is not f])
                r = r + T.subst(T.ind(g) * rest, {q: t})
                break
            if a.kind == 'sum' and e == 1 and q in T.atom_vars(a) and \
                    not any(q in T.atom_vars(b) for b, _ in rest_atoms(
                        m, ix)):
                n, k, body = a.data
                k2 = T.fresh_name(k.split('!')[0])
                body = T.subst(body, {k: T.var(k2, 'I')})
                r = r + rest * T.mk_sum(n, k2, key_total(body, q))
                break
        else:
            raise Unsupported('total of the values of a symbolic dict')
    return r


def rest_atoms(m, ix):
    return m[:ix] + m[ix + 1:]


class SDefault(SDict):
    """collections.defaultdict with a numeric zero as default: absent entries
    of the symbolic map read as 0; reading adds the key"""
    factory = None

    @staticmethod
    def make(factory=None, *a):
        d = SDefault()
        d.factory = factory
        d.update(*a)
        return d

    def _zero(self):
        v = self.factory()
        return is_num(v) and to_poly(v) == T.ZERO

    def __getitem__(self, k):
        if self.factory is None:
            return SDict.__getitem__(self, k)
        if not self.sym() and self._symkey(k) and in_symbolic_loop():
            if not self._zero():
                raise Unsupported('defaultdict with a non-numeric default')
            self.to_symbolic()
        if self.sym():
            if not self._zero():
                raise Unsupported('defaultdict with a non-numeric default')
            kt = self.kterm(k)
            v = self.val(kt)        # 0 when absent: kept by every update
            self[k] = v
            return v
        if k not in self:
            self[k] = self.factory()
        return SDict.__getitem__(self, k)

    def get(self, k, d=None):
        if k in self:
            return SDict.__getitem__(self, k)
        return d

    def copy(self):
        r = SDefault()
        r.factory = self.factory
        if self.sym():
            r.set_map(self.val, self.has, self.enum)
        else:
            dict.update(r, self)
        return r
    __copy__ = copy

    def __deepcopy__(self, memo):
        r = SDefault()
        r.factory = self.factory
        memo[id(self)] = r
        if self.sym():
            r.set_map(self.val, self.has, self.enum)
        else:
            for k, v in dict.items(self):
                dict.__setitem__(r, k, _copy.deepcopy(v, memo))
        return r


class GMap(SDict):
    """A dictionary whose keys are those members j of a duplicate-free
    sequence for which has(j) holds, with values val."""

    def set_guarded(self, n, at, val, has):
        pos = at.pos

        def has_(q):
            p = pos(q)
            return T.and_(T.le0(-p), T.lt0(p - n), has(q))
        self.set_map(val, has_, None)
        self.gn, self.gat, self.ghas = n, at, has

    def _comp(self, f):
        if self.gn is None:
            raise Unsupported('iteration of a changed symbolic dict')
        l = SList()
        l.set_segs([Comp(self.gn, lambda i: f(self.gat(i)),
                         lambda i: self.ghas(self.kterm(self.gat(i))))])
        return l

    def __setitem__(self, k, v):
        self.gn = None
        SDict.__setitem__(self, k, v)

    def items(self):
        v = self.val
        return self._comp(lambda k: (k, v(self.kterm(k))))

    def keys(self):
        return self._comp(lambda k: k)

    def __iter__(self):
        return iter(self.keys())

    def values(self):
        v = self.val
        return self._comp(lambda k: v(self.kterm(k)))


def map_of_pairs(l):
    """the dict made by {k: v ...} from a symbolic list of pairs with distinct
    keys"""
    segs = as_segs(l)
    if len(segs) != 1 or isinstance(segs[0], Item):
        raise Unsupported('dict comprehension over a mixed sequence')
    g = segs[0]
    j = T.fresh_name('dc')
    k = g.elem(T.var(j, 'I'))[0]
    kt = SDict.kterm(k)
    if not (kt[1] == 'app' and kt[2] in T.SEQPOS and
            kt[3] == (T.var(j, 'I'),)):
        raise Unsupported('dict comprehension with computed keys')
    pos = T.SEQPOS[kt[2]]
    seq = kt[2]

    def at(i):
        return SStr(('k', 'app', seq, (i,)))
    at_pos = lambda q: T.mk_app(pos, (q,), 'I')
    d = SDict() if g.guard is None else GMap()

    def val(q):
        return g.elem(at_pos(q))[1]

    def has(q):
        p = at_pos(q)
        f = T.member(pos, q, g.n)
        if g.guard is not None:
            f = T.and_(f, g.guard(p))
        return f
    if g.guard is None:
        d.set_map(val, has, (g.n, at))
    else:
        d.set_map(val, has, None)
        d.gn, d.gat, d.ghas = g.n, at, lambda q: g.guard(at_pos(q))
    return d


def in_symbolic_loop():
    return any(L.in_body for L in cur().active_loops)


# ---------------------------------------------------------------- visibility
# Within a cut loop only containers that the loop can see at its head (or
# that its body has made) may be written to: anything else would be lost.
_CLOCK = [0]


def now():
    _CLOCK[0] += 1
    return _CLOCK[0]


def frozen(v):
    """a member of a symbolic sequence, made anew at each access: writing to
    it would be lost"""
    if isinstance(v, tuple):
        for x in v:
            frozen(x)
    elif isinstance(v, (SList, SVec, SDict)):
        v.lost = True
    elif isinstance(v, SRec) or hasattr(v, '__dict__') and \
            type(v).__module__.startswith('auxi'):
        e = cur()
        if e is not None and id(v) not in e.frozen:
            e.frozen[id(v)] = v
            for x in v.__dict__.values():
                if isinstance(x, (SList, SVec, SDict, SRec)):
                    frozen(x)
    return v


def stored(o):
    e = cur()
    if e is not None and id(o) in e.frozen:
        raise Unsupported('write to a member of a symbolic sequence')


SRec.hook = stored


def visible(v, born):
    for L in cur().active_loops:
        if L.in_body and L.snap1 is not None and born < L.born and \
                id(v) not in L.snap0.byid and id(v) not in L.snap1.byid:
            raise Unsupported('write to a container a loop cannot see')


def _guard(cls, names):
    for nm in names:
        f = cls.__dict__.get(nm)
        if f is None:
            f = getattr(cls, nm)

        def g(self, *a, _f=f, **k):
            if self.lost:
                raise Unsupported('write to a member of a symbolic sequence')
            if cur() is not None and cur().active_loops:
                visible(self, self.born)
            return _f(self, *a, **k)
        g.__name__ = nm
        setattr(cls, nm, g)

    def new(c, *a, **k):
        r = object.__new__(c) if c.__mro__[-2] is SVec else \
            (list if issubclass(c, list) else dict).__new__(c)
        r.born = now()
        return r
    cls.__new__ = new
    cls.lost = False


_guard(SList, ['append', 'extend', 'insert', 'pop', 'remove', 'sort',
               'reverse', 'clear', '__setitem__', '__delitem__'])
_guard(SVec, ['__setitem__'])
_guard(SDict, ['__setitem__', '__delitem__', 'pop', 'update', 'clear',
               'setdefault'])
for _c in (SDefault, GMap):
    for _n in ('__setitem__', '__delitem__', 'pop', 'update', 'clear'):
        if _n in _c.__dict__:
            _guard(_c, [_n])
