"""Small functions the engine's rules are tried on (see ../../selftest.py)."""


def total(xs):
    s = 0.0
    for x in xs:
        s += x
    return s


def total_restart(xs):
    s = 0.0
    for x in xs:
        s = 0.0
        s += x
    return s


def total_skip_first(xs):
    s = 0.0
    for i in range(1, len(xs)):
        s += xs[i]
    return s


def total_positive(xs):
    s = 0.0
    for x in xs:
        if x > 0.0:
            s += x
    return s


def total_until_negative(xs):
    s = 0.0
    for x in xs:
        if x < 0.0:
            break
        s += x
    return s


def first_negative(xs):
    for i, x in enumerate(xs):
        if x < 0.0:
            return i
    return -1


def last_negative(xs):
    r = -1
    for i, x in enumerate(xs):
        if x < 0.0:
            r = i
    return r


def count_negative(xs):
    c = 0
    for x in xs:
        if x < 0.0:
            c += 1
    return c


def any_negative(xs):
    for x in xs:
        if x < 0.0:
            return True
    return False


def doubled(xs):
    return [2 * x for x in xs]


def doubled_in_place(xs):
    for i in range(len(xs)):
        xs[i] *= 2
    return xs


def shifted_in_place(xs):
    for i in range(1, len(xs)):
        xs[i] = xs[i - 1]
    return xs


def prefix_in_place(xs):
    for i in range(1, len(xs)):
        xs[i] += xs[i - 1]
    return xs


def scatter_all_to_first(xs, ys):
    for y in ys:
        xs[0] = y
    return xs


def scatter_add_first(xs, ys):
    for y in ys:
        xs[0] += y
    return xs


def alternating(xs):
    s = 0.0
    sign = 1.0
    for x in xs:
        s += sign * x
        sign = -sign
    return s


def growing(xs):
    s = 0.0
    for x in xs:
        s += s + x
    return s


def weighted(xs):
    s = 0.0
    for i, x in enumerate(xs):
        s += i * x
    return s


def lagged(xs):
    s = 0.0
    last = 0.0
    for x in xs:
        s += last
        last = x
    return s


def largest(xs):
    m = xs[0]
    for x in xs:
        if x > m:
            m = x
    return m


def largest_abs(xs):
    m = 0.0
    for x in xs:
        m = max(m, abs(x))
    return m


def filtered(xs):
    return [x for x in xs if x > 0.0]


def sum_filtered(xs):
    return sum([x for x in xs if x > 0.0])


def reversed_list(xs):
    return [xs[len(xs) - 1 - i] for i in range(len(xs))]


def to_dict(ks, xs):
    d = {}
    for i, k in enumerate(ks):
        d[k] = xs[i]
    return d


def to_dict_add(ks, xs):
    d = {}
    for i, k in enumerate(ks):
        d[k] = d.get(k, 0.0) + xs[i]
    return d


def merge(ks, xs, js, ys):
    d = {}
    for i, k in enumerate(ks):
        d[k] = xs[i]
    for i, k in enumerate(js):
        d[k] = ys[i]
    return d


def merge_add(ks, xs, js, ys):
    d = {}
    for i, k in enumerate(ks):
        d[k] = xs[i]
    for i, k in enumerate(js):
        if k in d:
            d[k] += ys[i]
        else:
            d[k] = ys[i]
    return d


def alias(xs):
    ys = xs
    ys[0] = 7.0
    return xs


def alias_slice(xs):
    ys = xs[:]
    ys[0] = 7.0
    return xs


class Box(object):
    memo = {}

    def __init__(self, v):
        self.v = v
        self._m = None

    def double(self):
        if self._m is None:
            self._m = 2 * self.v
        return self._m

    def keyed(self, k):
        if k not in self.memo:
            self.memo[k] = self.v * k
        return self.memo[k]


def default_list(x, l=[]):
    l.append(x)
    return len(l)


def swallow(xs, i):
    try:
        return xs[i]
    except IndexError:
        return 0.0


def late_binding(xs):
    fs = [lambda: x for x in xs]
    return sum(f() for f in fs)


def truncates(x):
    return int(x)


def modulo(a, b):
    return a % b


def quotient(a, b):
    return a // b


def power(x):
    return x ** 2 - x * x


def nested(xs, ys):
    s = 0.0
    for x in xs:
        for y in ys:
            s += x * y
    return s


def nested_break(xs, ys):
    s = 0.0
    for x in xs:
        for y in ys:
            if y < 0.0:
                break
            s += x * y
    return s


def nested_carry(xs, ys):
    s = 0.0
    t = 0.0
    for x in xs:
        for y in ys:
            t += y
        s += x * t
    return s


def while_sum(xs):
    i = 0
    s = 0.0
    while i < len(xs):
        s += xs[i]
        i += 1
    return s


def for_else(xs):
    for x in xs:
        if x < 0.0:
            break
    else:
        return 1.0
    return 0.0


def index_of(ks, k):
    for i, q in enumerate(ks):
        if q == k:
            return i
    return None


def pairs(xs):
    s = 0.0
    for a, b in zip(xs, xs[1:]):
        s += b - a
    return s


def normalised(xs):
    t = sum(xs)
    return [x / t for x in xs]


def mutate_while_reading(xs):
    t = 0.0
    for i in range(len(xs)):
        xs[0] += 1.0
        t += xs[i]
    return t


def sort_key(xs):
    return sorted(xs)[0]


def collect(xs):
    out = []
    for x in xs:
        out.append(x)
        out.append(-x)
    return sum(out)


def collect_last(xs):
    out = [0.0]
    for x in xs:
        out.append(x)
    return out[-1]


def nan_like(x):
    if not x < 0.0 and not x > 0.0:
        return 1.0
    return 0.0


def short_circuit(x, y):
    return x and y


def chained(a, b, c):
    return a < b < c


def text_key(a, b):
    return str(a) + ',' + str(b)


def guard(xs):
    if sum(xs) > 0.0:
        return 1.0
    if any(x > 0.0 for x in xs):
        return 2.0
    return 3.0


def nested_search(xs, ys):
    """for every x the first y above it"""
    s = 0.0
    for x in xs:
        for y in ys:
            if y > x:
                s += y
                break
    return s


def position(xs, x):
    for i, y in enumerate(xs):
        if y > x:
            return i
    return -1


def sum_positions(xs, ys):
    s = 0
    for x in xs:
        s += position(ys, x)
    return s


def while_search(xs, lo):
    i = 0
    while i < len(xs) and xs[i] < lo:
        i += 1
    return i


def count_members(xs, ys):
    c = 0
    for x in xs:
        if x in ys:
            c += 1
    return c


def largest_of(xs):
    m = 0.0
    for x in xs:
        if x > m:
            m = x
        else:
            m = m + 0.0
    return m


def nested_largest(xs, ys):
    s = 0.0
    for x in xs:
        m = x
        for y in ys:
            m = m if y < m * y else y
        s += m
    return s


def nested_while(xs):
    s = 0
    for x in xs:
        i = 0
        while i * i < x:
            i += 1
        s += i
    return s


def first_positive(xs, ys):
    s = 0.0
    for x in xs:
        s += [y for y in ys if y > x][0]
    return s


def all_below(xs, ys):
    c = 0
    for x in xs:
        if all(y < x for y in ys):
            c += 1
    return c


def divide_all(xs, a):
    s = 0.0
    for x in xs:
        if x == 0.0:
            continue
        s += a / x
    return s


class Item(object):
    def __init__(self, v):
        self.v = v
        self.seen = False

    def twice(self):
        return 2.0 * self.v


class Group(object):
    def __init__(self, items):
        self.items = items
        self.total = 0.0
        self.last = None

    def add_up(self):
        for i in self.items:
            self.total += i.v
            self.last = i

    def mark(self):
        for i in self.items:
            i.seen = True

    def scale(self, f):
        for i in self.items:
            i.v *= f

    def shift(self):
        p = 0.0
        for i in self.items:
            p, i.v = i.v, p

    def all_seen(self):
        return all(i.seen for i in self.items)

    def cap(self):
        for i in self.items:
            if i.v > 10.0:
                i.v = 10.0
                return True
        return False


def continue_late(xs):
    s = 0.0
    c = 0
    for x in xs:
        if c == 1:
            c = 0
            continue
        s += x
        c = 1
    return s


def reset_max(xs):
    run = best = 0
    for x in xs:
        run = run + 1 if x > 0.0 else 0
        best = max(best, run)
    return best


def find_then_use(xs):
    i = None
    for k, x in enumerate(xs):
        if x > 0.0:
            i = k
            break
    if i is None:
        return 0.0
    return xs[i]


def shadow(xs):
    x = 5.0
    for x in xs:
        pass
    return x


def try_in_loop(xs, ys):
    s = 0.0
    for i in range(len(xs)):
        try:
            s += ys[i]
        except IndexError:
            break
    return s


def pop_all(xs):
    xs = list(xs)
    s = 0.0
    while xs:
        s += xs.pop()
    return s


def drop_first(xs):
    return xs[1:]


def negative_index(xs):
    return xs[-1]


def halves(xs):
    m = len(xs) // 2
    return sum(xs[:m]), sum(xs[m:])


def concatenated(xs, ys):
    return sum(xs + ys), len(xs + ys)


def extended(xs, ys):
    xs += ys
    return xs


def shared_rows(n):
    row = [0.0]
    rows = [row for _ in range(n)]
    rows[0][0] = 1.0
    return rows[n - 1][0]


def closure(xs):
    total = [0.0]

    def add(x):
        total[0] += x
    for x in xs:
        add(x)
    return total[0]


def generator(xs):
    def gen():
        for x in xs:
            if x > 0.0:
                yield x
    return sum(gen())


def comp_of_comp(xs, ys):
    return sum(x * y for x in xs for y in ys if y > x)


def keyed(d, k):
    return d.get(k, -1.0)


def counting(ks):
    d = {}
    for k in ks:
        d[k] = d.get(k, 0) + 1
    return d


def dict_total(ks, xs):
    return sum(dict(zip(ks, xs)).values())


def removed(ks, xs, k):
    d = dict(zip(ks, xs))
    if k in d:
        del d[k]
    return d


def updated(ks, xs, k, v):
    d = dict(zip(ks, xs))
    d[k] = v
    return d


def ternary(x, y):
    return x if x else y


def or_value(x, y):
    return x or y


def rounding(x):
    return round(x, 2)


def finally_(xs):
    s = 0.0
    for x in xs:
        try:
            if x < 0.0:
                continue
            s += x
        finally:
            s += 1.0
    return s


def bounded_add(xs):
    s = 0.0
    for x in xs:
        if s < 100.0:
            s += x
    return s


def two_states(xs):
    a = b = 0.0
    for x in xs:
        a += x
        b += a
    return b


def squared(xs):
    p = 1.0
    for x in xs:
        p *= 2.0
    return p


def flip(xs):
    f = False
    for x in xs:
        if x > 0.0:
            f = not f
    return f


def ever(xs):
    f = False
    for x in xs:
        f = f or x > 0.0
    return f


def latest(xs):
    f = False
    for x in xs:
        f = x > 0.0
    return f


def add_to_made(ks, xs, k0, ys):
    d = {k: x for k, x in zip(ks, xs)}
    for y in ys:
        d[k0] = d.get(k0, 0.0) + y
    return d.get(k0, -5.0)


class Acc(object):
    def __init__(self):
        self.v = 0.0


def last_alias(xs):
    a = Acc()
    b = None
    for x in xs:
        a.v += x
        b = a
    a.v += 1.0
    return b.v - a.v


def last_made(xs):
    b = None
    for x in xs:
        b = Acc()
        b.v = x
    return b.v


def last_method(g):
    f = None
    for i in g.items:
        f = i.twice
    return f()


def last_closure(xs):
    f = None
    for x in xs:
        f = lambda y=x: y
    return f()


def last_closure2(xs):
    def make(x):
        return lambda: x
    f = None
    for x in xs:
        f = make(x)
    return f()


def last_pair(g):
    f = None
    for i in g.items:
        f = (i, 1.0)
    return f[0].v


def last_inner(xs):
    b = None
    for x in xs:
        c = Acc()
        c.v = x
        b = Acc()
        b.inner = c
    return b.inner.v
