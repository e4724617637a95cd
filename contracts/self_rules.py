"""Contracts of selftest/auxi/st.py: labels that begin with "wrong" are false
(the run-time check shows it) and must not be proved; the others are true.
Run by selftest.py, which is the setup command."""
from pyvc.harness import contract
from contracts import preload

preload.need('SELF', 'auxi.st')
M = 'auxi.st'


def c(fn):
    return contract('SELF', ['selftest/auxi/st.py:' + fn.__name__])(fn)


def xs_of(h, name='x', lo=0):
    n = h.size('n_' + name, lo=lo)
    return n, h.vec(name, n)


def cell(h, v, i, n):
    """v[i], 0 where there is none"""
    if type(i) is int and type(n) is int:
        return v[i] if 0 <= i < n else 0.0
    return h.at(v, i)


def neg(h, v, i):
    return h.lt(h.at(v, i), 0.0)


def pos(h, v, i):
    return h.lt(0.0, h.at(v, i))


@c
def sums(h):
    m = h.mod(M)
    n, x = xs_of(h)
    s = h.sum(n, lambda i: h.at(x, i))
    h.eq('total', m.total(x), s)
    h.eq('while', m.while_sum(x), s)
    h.eq('wrong-total', m.total(x), s + 1.0)
    h.eq('wrong-restart', m.total_restart(x), s)


@c
def collects(h):
    m = h.mod(M)
    n, x = xs_of(h)
    h.eq('collect', m.collect(x), 0.0)
    h.eq('wrong-collect', m.collect(x), h.sum(n, lambda i: h.at(x, i)))


@c
def skip_first(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    s = h.sum(n, lambda i: h.at(x, i))
    h.eq('skip', m.total_skip_first(x), s - h.at(x, 0))
    h.eq('wrong-skip', m.total_skip_first(x), s)
    h.eq('wrong-lagged', m.lagged(x), s)


@c
def lagged(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    s = h.sum(n, lambda i: h.at(x, i))
    h.eq('lagged', m.lagged(x), s - h.at(x, n - 1))


@c
def conditional(h):
    m = h.mod(M)
    n, x = xs_of(h)
    s = h.sum(n, lambda i: h.at(x, i))
    p = h.sum(n, lambda i: h.ite(pos(h, x, i), h.at(x, i), 0.0))
    h.eq('positive', m.total_positive(x), p)
    h.eq('filtered', m.sum_filtered(x), p)
    h.eq('wrong-positive', m.total_positive(x), s)
    h.eq('wrong-filtered', m.sum_filtered(x), s)


@c
def break_sum(h):
    m = h.mod(M)
    n, x = xs_of(h)
    p = h.sum(n, lambda i: h.ite(neg(h, x, i), 0.0, h.at(x, i)))
    h.eq('wrong-break', m.total_until_negative(x), p)


@c
def break_sum_all(h):
    m = h.mod(M)
    n, x = xs_of(h)
    h.eq('wrong-break-all', m.total_until_negative(x),
         h.sum(n, lambda i: h.at(x, i)))


@c
def searches(h):
    m = h.mod(M)
    n, x = xs_of(h)
    i = m.first_negative(x)
    some = h.exists(n, lambda k: neg(h, x, k))
    h.check('found', h.iff(h.le(0, i), some))
    h.check('is-negative', h.implies(h.le(0, i), h.lt(
        h.ite(h.lt(0, n), cell(h, x, i, n), 0.0), 0.0)))
    h.check('first', h.forall(n, lambda k: h.implies(
        h.all(neg(h, x, k), h.le(0, i)), h.le(i, k))))
    h.check('wrong-first', h.forall(n, lambda k: h.implies(
        neg(h, x, k), h.le(k, i))))
    h.check('wrong-none', h.lt(i, 0))


@c
def any_(h):
    m = h.mod(M)
    n, x = xs_of(h)
    some = h.exists(n, lambda k: neg(h, x, k))
    a = m.any_negative(x)
    h.check('any', h.iff(h.same(a, True), some))
    b = m.for_else(x)
    h.check('for-else', h.iff(h.same(b, 0.0), some))
    h.check('wrong-any', h.iff(h.same(a, True), h.forall(
        n, lambda k: neg(h, x, k))))
    h.check('wrong-for-else', h.same(b, 1.0))


@c
def last(h):
    m = h.mod(M)
    n, x = xs_of(h)
    i = m.last_negative(x)
    h.check('is-negative', h.implies(h.le(0, i), h.lt(
        h.ite(h.lt(0, n), cell(h, x, i, n), 0.0), 0.0)))
    h.check('last', h.forall(n, lambda k: h.implies(neg(h, x, k),
                                                     h.le(k, i))))
    h.check('wrong-last', h.forall(n, lambda k: h.implies(neg(h, x, k),
                                                           h.le(i, k))))


@c
def counts(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k = m.count_negative(x)
    h.check('count', h.same(k, h.sum(n, lambda i: h.ite(neg(h, x, i), 1,
                                                        0))))
    h.check('wrong-count', h.same(k, n))


@c
def maps(h):
    m = h.mod(M)
    n, x = xs_of(h)
    y = m.doubled(x)
    h.check('length', h.len(y) == n)
    h.check('doubled', h.forall(n, lambda i: h.close(h.at(y, i),
                                                     2 * h.at(x, i))))
    h.check('wrong-doubled', h.forall(n, lambda i: h.close(h.at(y, i),
                                                           h.at(x, i))))


@c
def in_place(h):
    m = h.mod(M)
    n, x = xs_of(h)
    old = h.snapshot(x)
    y = m.doubled_in_place(x)
    h.check('doubled', h.forall(n, lambda i: h.close(h.at(y, i),
                                                     2 * h.at(old, i))))
    h.check('wrong-unchanged', h.forall(n, lambda i: h.close(
        h.at(x, i), h.at(old, i))))


@c
def carried(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    old = h.snapshot(x)
    y = m.shifted_in_place(x)
    h.check('wrong-shift', h.forall(n - 1, lambda i: h.close(
        h.at(y, i + 1), h.at(old, i))))


@c
def carried_true(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    first = h.at(h.snapshot(x), 0)
    y = m.shifted_in_place(x)
    h.check('undecided-shift', h.forall(n, lambda i: h.close(h.at(y, i),
                                                             first)))


@c
def prefixes(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    old = h.snapshot(x)
    y = m.prefix_in_place(x)
    h.check('wrong-prefix', h.forall(n - 1, lambda i: h.close(
        h.at(y, i + 1), h.at(old, i + 1) + h.at(old, i))))


@c
def one_cell(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    k, y = xs_of(h, 'y')
    old = h.snapshot(x)
    r = m.scatter_add_first(x, y)
    h.check('undecided-added', h.close(h.at(r, 0), h.at(old, 0) + h.sum(
        k, lambda i: h.at(y, i))))
    h.check('wrong-added', h.close(h.at(r, 0), h.at(old, 0)))


@c
def one_cell_set(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    k, y = xs_of(h, 'y', lo=1)
    r = m.scatter_all_to_first(x, y)
    h.check('undecided-last', h.close(h.at(r, 0), h.at(y, k - 1)))
    h.check('wrong-first', h.close(h.at(r, 0), h.at(y, 0)))


@c
def alternating(h):
    m = h.mod(M)
    n, x = xs_of(h)
    h.eq('wrong-alternating', m.alternating(x),
         h.sum(n, lambda i: h.at(x, i)))


@c
def growing(h):
    m = h.mod(M)
    n, x = xs_of(h)
    h.eq('wrong-growing', m.growing(x), h.sum(n, lambda i: h.at(x, i)))


@c
def weighted(h):
    m = h.mod(M)
    n, x = xs_of(h)
    h.eq('weighted', m.weighted(x), h.sum(n, lambda i: i * h.at(x, i)))
    h.eq('wrong-weighted', m.weighted(x),
         h.sum(n, lambda i: (i + 1) * h.at(x, i)))


@c
def largest(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    v = m.largest(x)
    h.check('undecided-bound', h.forall(n, lambda i: h.le(h.at(x, i), v)))
    h.check('wrong-bound', h.forall(n, lambda i: h.le(v, h.at(x, i))))


@c
def largest_abs(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    v = m.largest_abs(x)
    h.check('wrong-attained', h.exists(n, lambda i: h.close(v, h.at(x, i))))


@c
def filtered(h):
    m = h.mod(M)
    n, x = xs_of(h)
    y = m.filtered(x)
    h.check('wrong-length', h.len(y) == n)


@c
def backwards(h):
    m = h.mod(M)
    n, x = xs_of(h)
    y = m.reversed_list(x)
    h.check('reversed', h.forall(n, lambda i: h.close(
        h.at(y, i), h.at(x, n - 1 - i))))
    h.eq('same-total', h.sum(n, lambda i: h.at(x, n - 1 - i)),
         h.sum(n, lambda i: h.at(x, i)))
    h.check('wrong-reversed', h.forall(n, lambda i: h.close(
        h.at(y, i), h.at(x, i))))


@c
def dicts(h):
    m = h.mod(M)
    n, x = xs_of(h)
    ks = h.names('k', n)
    d = m.to_dict(ks, x)
    h.check('values', h.forall(n, lambda i: h.close(
        h.value(d, h.at(ks, i)), h.at(x, i))))
    e = m.to_dict_add(ks, x)
    h.check('added', h.forall(n, lambda i: h.close(
        h.value(e, h.at(ks, i)), h.at(x, i))))
    h.check('wrong-values', h.forall(n, lambda i: h.close(
        h.value(d, h.at(ks, i)), h.at(x, 0))))


@c
def repeated_keys(h):
    m = h.mod(M)
    n, x = xs_of(h)
    ks = [h.choice('key%d' % i, ['a', 'b']) for i in range(2)]
    v = [h.real('u'), h.real('v')]
    d = m.to_dict(ks, v)
    h.eq('last', d[ks[1]], v[1])
    h.eq('wrong-first', d[ks[0]], v[0])


@c
def merges(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    a, b = (h.names(t, s, pool=list('pqrst')) for t, s in (
        ('a', n), ('b', k)))
    d = m.merge(a, x, b, y)
    h.check('second', h.forall(k, lambda i: h.close(
        h.value(d, h.at(b, i)), h.at(y, i))))
    h.check('wrong-first', h.forall(n, lambda i: h.close(
        h.value(d, h.at(a, i)), h.at(x, i))))


@c
def merge_adds(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    a, b = (h.names(t, s, pool=list('pqrst')) for t, s in (
        ('a', n), ('b', k)))
    d = m.merge_add(a, x, b, y)
    h.check('wrong-second', h.forall(k, lambda i: h.close(
        h.value(d, h.at(b, i)), h.at(y, i))))


@c
def aliases(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    v = h.at(x, 0)
    h.eq('slice', h.at(m.alias_slice(x), 0), v)
    h.eq('alias', h.at(m.alias(x), 0), 7.0)
    h.eq('wrong-alias', h.at(x, 0), v)


@c
def memos(h):
    m = h.mod(M)
    a, b, k = h.real('a'), h.real('b'), h.real('k')
    p = m.Box(a)
    h.eq('first', p.double(), 2 * a)
    p.v = b
    h.eq('wrong-second', p.double(), 2 * b)


@c
def keyed_memos(h):
    m = h.mod(M)
    m.Box.memo.clear()
    a, b, k, j = h.real('a'), h.real('b'), h.real('k'), h.real('j')
    h.eq('first', m.Box(a).keyed(k), a * k)
    h.eq('same-box-other-key', m.Box(a).keyed(j), a * j)
    h.eq('wrong-other-box', m.Box(b).keyed(k), b * k)


@c
def defaults(h):
    m = h.mod(M)
    x = h.real('x')
    a, b = m.default_list(x), m.default_list(x)
    h.check('one-more', b == a + 1)
    h.check('wrong-equal', b == a)


@c
def exceptions(h):
    m = h.mod(M)
    n, x = xs_of(h)
    i = h.int('i', lo=0, hi=3)
    r = m.swallow(x, i)
    h.check('outside', h.implies(h.le(n, i), h.close(r, 0.0)))
    h.check('inside', h.implies(h.lt(i, n), h.close(
        r, cell(h, x, i, n))))
    h.check('wrong', h.close(r, 0.0))


@c
def late(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    h.eq('wrong-late', m.late_binding(x), h.sum(n, lambda i: h.at(x, i)))


@c
def numbers(h):
    m = h.mod(M)
    x, y = h.real('x', lo=-9, hi=9), h.real('y', lo=-9, hi=9)
    t = m.truncates(x)
    h.check('int-below', h.implies(h.le(0, x), h.le(t, x)))
    h.check('wrong-int-below', h.le(t, x))
    h.eq('power', m.power(x), 0.0)
    h.check('compare', h.iff(m.nan_like(x) == 1.0, h.same(x, 0.0)))
    h.check('wrong-compare', m.nan_like(x) == 1.0)
    h.check('chained', h.iff(m.chained(x, y, 3), h.all(h.lt(x, y),
                                                       h.lt(y, 3))))
    h.check('wrong-chained', h.iff(m.chained(x, y, 3), h.lt(x, 3)))


@c
def integers(h):
    m = h.mod(M)
    a, b = h.int('a', lo=-9, hi=9), h.int('b', lo=1, hi=5)
    q, r = m.quotient(a, b), m.modulo(a, b)
    h.check('division', q * b + r == a)
    h.check('remainder', h.all(h.le(0, r), h.lt(r, b)))
    h.check('wrong-quotient', h.le(0, q))


@c
def nests(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    s = h.sum(n, lambda i: h.at(x, i)) * h.sum(k, lambda j: h.at(y, j))
    h.eq('product', m.nested(x, y), s)
    h.eq('wrong-product', m.nested(x, y), s + h.sum(
        n, lambda i: h.at(x, i)))


@c
def nest_break(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    h.eq('wrong-break', m.nested_break(x, y), h.sum(
        n, lambda i: h.sum(k, lambda j: h.ite(
            neg(h, y, j), 0.0, h.at(x, i) * h.at(y, j)))))


@c
def nest_carry(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    h.eq('wrong-carry', m.nested_carry(x, y), h.sum(
        n, lambda i: h.at(x, i)) * h.sum(k, lambda j: h.at(y, j)))


@c
def positions(h):
    m = h.mod(M)
    n = h.size('n', lo=1)
    ks = h.names('k', n)
    k, i = h.name_in('asked', ks, n)
    h.check('position', h.same(m.index_of(ks, k), i))
    h.check('wrong-position', h.same(m.index_of(ks, k), 0))


@c
def telescope(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    h.eq('undecided-pairs', m.pairs(x), h.at(x, n - 1) - h.at(x, 0))
    h.eq('wrong-pairs', m.pairs(x), h.at(x, n - 1))


@c
def shares(h):
    m = h.mod(M)
    n = h.size('n', lo=1)
    x = h.vec('x', n, pos=True)
    y = m.normalised(x)
    h.eq('one', h.sum(n, lambda i: h.at(y, i)), 1.0)
    h.check('wrong-equal', h.forall(n, lambda i: h.close(
        h.at(y, i), h.div(1.0, n))))


@c
def reads_what_it_writes(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    old = h.snapshot(x)
    t = m.mutate_while_reading(x)
    h.eq('wrong-total', t, h.sum(n, lambda i: h.at(old, i)))


@c
def reads_what_it_writes_2(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    old = h.snapshot(x)
    t = m.mutate_while_reading(x)
    h.eq('undecided-total', t, h.sum(n, lambda i: h.at(old, i)) + 1.0)


@c
def lists(h):
    m = h.mod(M)
    n, x = xs_of(h)
    h.eq('last', m.collect_last(x), h.ite(
        h.lt(0, n), cell(h, x, n - 1, n), 0.0))
    h.eq('wrong-last', m.collect_last(x), 0.0)


@c
def keys_of_numbers(h):
    m = h.mod(M)
    a, b, a2, b2 = (h.int(x, lo=0, hi=30) for x in ('a', 'b', 'a2', 'b2'))
    h.check('text', h.implies(h.all(h.same(a, a2), h.same(b, b2)), h.same(
        m.text_key(a, b), m.text_key(a2, b2))))
    h.check('wrong-text', h.same(m.text_key(a, b), m.text_key(a2, b2)))


@c
def guards(h):
    m = h.mod(M)
    n, x = xs_of(h)
    g = m.guard(x)
    h.check('three', h.implies(h.same(g, 3.0), h.forall(
        n, lambda i: h.le(h.at(x, i), 0.0))))
    h.check('wrong-three', h.same(g, 3.0))
    h.check('wrong-two', h.implies(h.same(g, 2.0), h.forall(
        n, lambda i: h.le(h.at(x, i), 0.0))))


@c
def two_searches(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    i, j = m.first_negative(x), m.first_negative(y)
    h.check('wrong-equal', h.same(i, j))
    h.check('wrong-equal-found', h.implies(h.all(h.le(0, i), h.le(0, j)),
                                           h.same(i, j)))


@c
def two_searches_2(h):
    m = h.mod(M)
    n, x = xs_of(h)
    a, b = h.real('a'), h.real('b')
    i, j = m.position(x, a), m.position(x, b)
    h.check('wrong-equal', h.implies(h.all(h.le(0, i), h.le(0, j)),
                                     h.same(i, j)))
    h.check('ordered', h.implies(h.all(h.le(0, i), h.le(0, j), h.le(a, b)),
                                 h.le(i, j)))


@c
def three_searches(h):
    m = h.mod(M)
    n = h.size('n', lo=1)
    ks = h.names('k', n)
    (a, i), (b, j) = h.name_in('a', ks, n), h.name_in('b', ks, n)
    h.check('first', h.same(m.index_of(ks, a), i))
    h.check('second', h.same(m.index_of(ks, b), j))
    h.check('wrong-third', h.same(m.index_of(ks, a), m.index_of(ks, b)))


@c
def nested_searches(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y', lo=1)
    r = m.nested_search(x, y)
    h.check('wrong-multiple', h.exists(k, lambda j: h.close(
        r, h.at(y, j) * n)))


@c
def nested_searches_2(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y', lo=1)
    r = m.sum_positions(x, y)
    h.check('wrong-multiple', h.any(h.exists(k, lambda j: h.same(
        r, j * n)), h.same(r, -n)))


@c
def while_searches(h):
    m = h.mod(M)
    n, x = xs_of(h)
    a, b = h.real('a'), h.real('b')
    i, j = m.while_search(x, a), m.while_search(x, b)
    h.check('range', h.all(h.le(0, i), h.le(i, n)))
    h.check('wrong-equal', h.same(i, j))
    h.check('wrong-end', h.same(i, n))


@c
def members(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k = h.size('k')
    y = h.vec('y', k)
    r = m.count_members(x, y)
    h.check('range', h.all(h.le(0, r), h.le(r, n)))
    h.check('wrong-all', h.same(r, n))
    h.check('wrong-none', h.same(r, 0))


@c
def members_true(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k = h.size('k')
    y = h.vec('y', k)
    h.check('all', h.implies(h.forall(n, lambda i: h.exists(
        k, lambda j: h.same(h.at(x, i), h.at(y, j)))),
        h.same(m.count_members(x, y), n)))


@c
def unknown_results(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    k, y = xs_of(h, 'y', lo=1)
    h.check('wrong-equal', h.same(m.largest_of(x), m.largest_of(y)))
    h.check('wrong-equal-2', h.same(m.growing(x), m.growing(y)))


@c
def nested_unknown(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y', lo=1)
    r = m.nested_largest(x, y)
    h.check('wrong-multiple', h.any(h.exists(k, lambda j: h.close(
        r, h.at(y, j) * n)), h.exists(n, lambda j: h.close(
            r, h.at(x, j) * n)), n == 0))


@c
def nested_whiles(h):
    m = h.mod(M)
    n = h.size('n', lo=2)
    x = h.vec('x', n, lo=1, hi=90)
    r = m.nested_while(x)
    q = h.int('q', lo=1, hi=10)
    h.check('wrong-multiple', h.implies(h.same(m.nested_while(h.list(
        h.at(x, 0), h.at(x, 1))), 2 * q), h.same(r, q * n)))


@c
def filtered_firsts(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y', lo=1)
    h.assume(h.forall(n, lambda i: h.exists(k, lambda j: h.lt(
        h.at(x, i), h.at(y, j)))))
    r = m.first_positive(x, y)
    h.check('wrong-multiple', h.exists(k, lambda j: h.close(
        r, h.at(y, j) * n)))


@c
def alls(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    r = m.all_below(x, y)
    h.check('wrong-all', h.same(r, n))
    h.check('wrong-none', h.same(r, 0))


@c
def divisions(h):
    m = h.mod(M)
    n, x = xs_of(h)
    a = h.real('a')
    r = m.divide_all(x, a)
    h.eq('wrong-zero', r, 0.0)
    s = m.divide_all(x, 2 * a)
    h.eq('linear', s, 2 * r)


def group(h, lo=0):
    m = h.mod(M)
    n = h.size('n', lo=lo)
    v = h.func('v') if h.sym else None
    if not h.sym:
        vs = [h.rng.choice([h.rng.uniform(-20, 20), 3.0]) for _ in range(n)]
        v = vs.__getitem__
    return m, n, v, m.Group(h.objects(n, lambda i: m.Item(v(i))))


@c
def object_totals(h):
    m, n, v, g = group(h)
    g.add_up()
    s = h.sum(n, v)
    h.eq('total', g.total, s)
    g.add_up()
    h.eq('twice', g.total, 2 * s)
    h.eq('wrong-once', g.total, s)


@c
def object_marks(h):
    m, n, v, g = group(h)
    h.check('before', h.implies(h.lt(0, n), not g.all_seen()))
    h.check('wrong-before', h.same(g.all_seen(), True))


@c
def object_marks_after(h):
    m, n, v, g = group(h)
    g.mark()
    h.check('after', h.same(g.all_seen(), True))
    h.check('wrong-after', h.same(g.all_seen(), False))


@c
def object_scales(h):
    m, n, v, g = group(h)
    f = h.real('f')
    g.scale(f)
    g.add_up()
    h.eq('scaled', g.total, f * h.sum(n, v))
    h.eq('wrong-scaled', g.total, h.sum(n, v))


@c
def object_shift(h):
    m, n, v, g = group(h, lo=1)
    g.shift()
    g.add_up()
    h.eq('wrong-shift', g.total, h.sum(n, v))


@c
def object_cap(h):
    m, n, v, g = group(h)
    r = g.cap()
    g.add_up()
    h.eq('wrong-cap', g.total, h.sum(n, v))
    h.check('wrong-found', h.same(r, True))


@c
def object_cap_all(h):
    m, n, v, g = group(h)
    g.cap()
    g.add_up()
    h.eq('wrong-cap-all', g.total, h.sum(n, lambda i: h.ite(
        h.lt(10.0, v(i)), 10.0, v(i))))


@c
def more_loops(h):
    m = h.mod(M)
    n, x = xs_of(h)
    s = h.sum(n, lambda i: h.at(x, i))
    h.eq('wrong-continue', m.continue_late(x), s)
    h.eq('finally', m.finally_(x), h.sum(n, lambda i: h.ite(
        neg(h, x, i), 1.0, h.at(x, i) + 1.0)))
    h.eq('wrong-finally', m.finally_(x), s + n)


@c
def more_loops_2(h):
    m = h.mod(M)
    n, x = xs_of(h)
    s = h.sum(n, lambda i: h.at(x, i))
    h.eq('wrong-bounded', m.bounded_add(h.list(60.0, 70.0, 80.0)), 210.0)
    h.eq('wrong-two', m.two_states(x), s)


@c
def more_loops_3(h):
    m = h.mod(M)
    n = h.size('n')
    x = h.vec('x', n, lo=0, hi=90)
    s = h.sum(n, lambda i: h.at(x, i))
    h.eq('wrong-bounded', m.bounded_add(x), s)


@c
def powers(h):
    m = h.mod(M)
    n, x = xs_of(h)
    h.eq('wrong-power', m.squared(x), 1.0 + n)


@c
def runs(h):
    m = h.mod(M)
    n, x = xs_of(h)
    h.check('wrong-run', h.same(m.reset_max(x), h.sum(n, lambda i: h.ite(
        pos(h, x, i), 1, 0))))


@c
def flags(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    some = h.exists(n, lambda i: pos(h, x, i))
    h.check('undecided-ever', h.iff(m.ever(x), some))
    h.check('wrong-ever', h.iff(m.ever(x), pos(h, x, n - 1)))


@c
def flags_2(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    h.check('latest', h.iff(m.latest(x), pos(h, x, n - 1)))
    h.check('wrong-latest', h.iff(m.latest(x), pos(h, x, 0)))


@c
def flags_3(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    h.check('wrong-flip', h.iff(m.flip(x), h.exists(
        n, lambda i: pos(h, x, i))))


@c
def found_value(h):
    m = h.mod(M)
    n, x = xs_of(h)
    r = m.find_then_use(x)
    some = h.exists(n, lambda i: pos(h, x, i))
    h.check('positive', h.iff(h.lt(0.0, r), some))
    h.check('wrong-positive', h.lt(0.0, r))


@c
def shadows(h):
    m = h.mod(M)
    n, x = xs_of(h)
    r = m.shadow(x)
    h.eq('last', r, h.ite(h.lt(0, n), cell(h, x, n - 1, n), 5.0))
    h.eq('wrong-last', r, 5.0)


@c
def tries(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    r = m.try_in_loop(x, y)
    h.eq('wrong-tries', r, h.sum(k, lambda i: h.at(y, i)))


@c
def pops(h):
    m = h.mod(M)
    n, x = xs_of(h)
    old = h.snapshot(x)
    h.eq('undecided-pops', m.pop_all(x), h.sum(n, lambda i: h.at(old, i)))


@c
def slices(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    y = m.drop_first(x)
    h.check('length', h.len(y) == n - 1)
    h.check('rest', h.forall(n - 1, lambda i: h.close(
        h.at(y, i), h.at(x, i + 1))))
    h.eq('last', m.negative_index(x), h.at(x, n - 1))
    h.eq('wrong-last', m.negative_index(x), h.at(x, 0))
    h.check('wrong-rest', h.forall(n - 1, lambda i: h.close(
        h.at(y, i), h.at(x, i))))


@c
def splits(h):
    m = h.mod(M)
    n, x = xs_of(h)
    a, b = m.halves(x)
    s = h.sum(n, lambda i: h.at(x, i))
    h.eq('undecided-halves', a + b, s)
    h.eq('wrong-halves', a, b)


@c
def joins(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    t, l = m.concatenated(x, y)
    sx, sy = (h.sum(q, lambda i: h.at(v, i)) for q, v in ((n, x), (k, y)))
    h.eq('total', t, sx + sy)
    h.check('length', l == n + k)
    h.eq('wrong-total', t, sx)
    h.check('unchanged', h.len(x) == n)


@c
def joins_in_place(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    m.extended(x, y)
    h.check('wrong-unchanged', h.len(x) == n)


@c
def shares_rows(h):
    m = h.mod(M)
    n = h.size('n', lo=2)
    h.eq('wrong-rows', m.shared_rows(n), 0.0)


@c
def closures(h):
    m = h.mod(M)
    n, x = xs_of(h)
    s = h.sum(n, lambda i: h.at(x, i))
    h.eq('undecided-closure', m.closure(x), s)
    h.eq('wrong-closure', m.closure(x), 0.0)


@c
def generators(h):
    m = h.mod(M)
    n, x = xs_of(h)
    p = h.sum(n, lambda i: h.ite(pos(h, x, i), h.at(x, i), 0.0))
    h.eq('undecided-generator', m.generator(x), p)
    h.eq('wrong-generator', m.generator(x), h.sum(n, lambda i: h.at(x, i)))


@c
def double_comps(h):
    m = h.mod(M)
    n, x = xs_of(h)
    k, y = xs_of(h, 'y')
    r = m.comp_of_comp(x, y)
    h.eq('undecided-comp', r, h.sum(n, lambda i: h.sum(k, lambda j: h.ite(
        h.lt(h.at(x, i), h.at(y, j)), h.at(x, i) * h.at(y, j), 0.0))))
    h.eq('wrong-comp', r, h.sum(n, lambda i: h.at(x, i)) * h.sum(
        k, lambda j: h.at(y, j)))


@c
def counts_of_keys(h):
    m = h.mod(M)
    n = h.size('n')
    ks = h.names('k', n)
    d = m.counting(ks)
    h.check('wrong-two', h.forall(n, lambda i: h.same(
        h.value(d, h.at(ks, i)), 2)))


@c
def dict_changes(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    ks = h.names('k', n)
    k, i = h.name_in('asked', ks, n)
    v = h.real('new')
    d = m.updated(ks, x, k, v)
    h.eq('undecided-new', h.value(d, k), v)
    h.check('undecided-others', h.forall(n, lambda j: h.implies(
        h.not_(h.same(i, j)), h.close(h.value(d, h.at(ks, j)),
                                      h.at(x, j)))))
    h.check('wrong-others', h.forall(n, lambda j: h.close(
        h.value(d, h.at(ks, j)), h.at(x, j))))


@c
def dict_removals(h):
    m = h.mod(M)
    n, x = xs_of(h, lo=1)
    ks = h.names('k', n)
    k, i = h.name_in('asked', ks, n)
    d = m.removed(ks, x, k)
    h.check('undecided-gone', h.not_(h.has_key(d, k)))
    h.check('wrong-there', h.has_key(d, k))


@c
def dict_totals(h):
    m = h.mod(M)
    n, x = xs_of(h)
    ks = h.names('k', n)
    r = m.dict_total(ks, x)
    h.eq('undecided-total', r, h.sum(n, lambda i: h.at(x, i)))
    h.eq('wrong-total', r, 0.0)


@c
def truth_values(h):
    m = h.mod(M)
    x, y = h.real('x', gen=lambda r: r.choice([0.0, 2.0])), h.real('y')
    t = m.ternary(x, y)
    h.check('ternary', h.close(t, h.ite(h.same(x, 0.0), y, x)))
    h.check('or', h.close(m.or_value(x, y), t))
    h.check('wrong-or', h.close(t, x))
    r = m.rounding(y)
    h.check('near', h.near(r, y, 0.00501))
    h.check('wrong-exact', h.same(r, y))


@c
def added_to_missing_keys(h):
    """what a dictionary does not hold counts as 0, not as what the function
    behind it says"""
    m = h.mod(M)
    n, x = xs_of(h)
    ks = h.names('k', n)
    k0 = h.str('k0', gen=lambda r: 'none' if r.random() < .5 else (
        list(ks) + ['none'])[0])
    k, y = xs_of(h, 'y', lo=1)
    r = m.add_to_made(ks, x, k0, y)
    t = h.sum(k, lambda i: h.at(y, i))
    none = h.forall(n, lambda i: h.not_(h.same(ks[i], k0)))
    h.check('missing', h.implies(none, h.close(r, t)))
    h.check('wrong-missing', h.implies(none, h.close(r, -5.0)))
    h.check('wrong-held', h.close(r, t))


def last_rules(h, f, false):
    m = h.mod(M)
    n, x = xs_of(h, lo=2)
    r = getattr(m, 'last_' + f)(x)
    h.eq(f, r, h.at(x, n - 1) if f != 'alias' else 0.0)
    h.eq('wrong-' + f, r, false or h.at(x, 0))


@c
def last_alias(h):
    """what a loop leaves in a variable is that of its last iteration"""
    last_rules(h, 'alias', -1.0)


@c
def last_made(h):
    last_rules(h, 'made', None)


@c
def last_inner(h):
    last_rules(h, 'inner', None)


@c
def last_closure(h):
    last_rules(h, 'closure', None)


@c
def last_closure2(h):
    last_rules(h, 'closure2', None)


@c
def last_method(h):
    m, n, v, g = group(h, lo=2)
    h.eq('undecided-method', m.last_method(g), 2.0 * v(n - 1))
    h.eq('wrong-method', m.last_method(g), 2.0 * v(0))


@c
def last_pair(h):
    m, n, v, g = group(h, lo=2)
    h.eq('undecided-pair', m.last_pair(g), v(n - 1))
    h.eq('wrong-pair', m.last_pair(g), v(0))
