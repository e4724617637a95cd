"""C16: the loan activity."""
import datetime

from contracts import preload, ledger as L
from pyvc.harness import contract

BASIC = 'auxi.modelling.business.basic'
STR = 'auxi.modelling.business.structure'
preload.need('C16', L.DES, STR, BASIC)
F = 'auxi/modelling/business/basic.py:BasicLoanActivity.'
INIT = [F + '__init__', F + '_update_monthly_payment_']


class Clock(object):
    def __init__(self, now, ix):
        self.now, self.timestep_ix = now, ix

    def get_datetime(self):
        return self.now


class Loan(object):
    """a loan of any amount, rate and duration"""

    def __init__(self, h, rate='any'):
        self.h = h
        self.A = h.real('amount', nonneg=True, gen=lambda r: r.choice(
            [0.0, 1.0, 1000.0, r.uniform(1, 1e6)]))
        if rate == 0:
            self.rate = 0.0
        else:
            self.rate = h.real('rate', gen=lambda r: r.uniform(0.005, 0.9),
                               pos=True)
        self.n = h.int('duration', lo=0, gen=lambda r: r.randrange(61))
        self.i = self.rate / 12
        if h.sym:
            class Span(object):
                def __init__(self, months):
                    self.m = months

                def __radd__(self, t):
                    return h.func('months after', arity=2)(t, self.m)
            h.stub(BASIC, 'relativedelta', Span)
            self.start = h.real('start')
        else:
            self.start = datetime.datetime(2016, 1 + h.rng.randrange(12), 1)
        self.names = [h.str(x, gen=lambda r, x=x: x, nonempty=True)
                      for x in ('bank', 'loan', 'interest')]
        if h.sym:
            for k in range(3):
                for j in range(k):
                    h.assume(h.not_(h.same(self.names[k], self.names[j])))
        self.cls = h.mod(BASIC).BasicLoanActivity

    def make(self, private=True, **k):
        a = dict(amount=self.A, interest_rate=self.rate, duration=self.n)
        a.update(k)
        l = self.cls('loan', *self.names, start=self.start, **a)
        self.h.need(not private or all(hasattr(l, x) for x in (
            '_months_executed', '_amount_left', '_monthly_payment')),
            'a loan with other attributes')
        return l

    def end(self, n):
        if self.h.sym:
            return self.h.func('months after', arity=2)(self.start, n + 1)
        m = self.start.month + n
        return self.start.replace(year=self.start.year + m // 12,
                                  month=m % 12 + 1)

    def grown(self, k):
        return self.h.pow(1 + self.i, k)

    def payment_is(self, label, p, A=None, n=None):
        """p pays off A in n months"""
        h = self.h
        A = self.A if A is None else A
        n = self.n if n is None else n
        none = h.same(n, 0)
        h.check(label + '-none', h.implies(none, h.close(p, 0)))
        if h.force(none):
            return
        if self.rate == 0.0:
            h.eq(label, p * n, A)
        else:
            h.eq(label, p * (1 - 1 / self.grown(n)), A * self.i)


def same_date(h, a, b):
    return h.close(a, b) if h.sym else a == b


def kinds(name, targets):
    """register for loans with and without interest"""
    def deco(f):
        for suffix, rate in (('', 'any'), ('_without_interest', 0)):
            def g(h, rate=rate):
                f(h, Loan(h, rate))
            g.__doc__ = f.__doc__
            contract('C16', targets, name=name + suffix)(g)
        return f
    return deco


@kinds('payment', INIT)
def payment(h, l):
    """The payment is the annuity of amount, rate and duration."""
    a = l.make()
    l.payment_is('payment', a._monthly_payment)
    h.check('end', same_date(h, a.end_datetime, l.end(l.n)))
    h.eq('amount', a.amount, l.A)
    h.eq('rate', a.interest_rate, l.rate)
    h.eq('duration', a.duration, l.n)


@kinds('changed', INIT + [F + 'amount', F + 'duration',
                                     F + 'interest_rate'])
def changed(h, l):
    """Payment and end follow a changed amount, rate or duration."""
    which = h.choice('change', ['amount', 'duration', 'interest_rate'])
    other = h.real('other', pos=True)
    if which == 'amount':
        a = l.make(amount=other)
        a.amount = l.A
    elif which == 'duration':
        a = l.make(duration=h.int('other duration', lo=0))
        a.duration = l.n
    else:
        a = l.make(interest_rate=other)
        a.interest_rate = l.rate
    l.payment_is('payment', a._monthly_payment)
    h.check('end', same_date(h, a.end_datetime, l.end(l.n)))
    h.eq('amount', a.amount, l.A)
    h.eq('rate', a.interest_rate, l.rate)
    h.eq('duration', a.duration, l.n)


def ledger(h):
    des = h.mod(L.DES)
    if not h.sym:
        return des.GeneralLedger('gl', des.GeneralLedgerStructure('s'))
    gl = des.GeneralLedger.__new__(des.GeneralLedger)
    gl.transactions = h.list()
    return gl


def credit(h, gl, q):
    return h.over(gl.transactions, lambda t: t.amount * (
        h.ite(h.same(t.cr_account, q), 1, 0) -
        h.ite(h.same(t.dt_account, q), 1, 0)))


@kinds('month', [F + 'run', F + 'prepare_to_run', F + '_meet_execution_criteria',
                 'auxi/modelling/business/structure.py:'
                 'Activity._meet_execution_criteria',
                 'auxi/modelling/financial/des.py:'
                 'GeneralLedger.create_transaction'])
def month(h, l):
    """In a month k of its life a loan is made (k = 0) or the interest on
    what is left is charged and the payment made; what is left is the balance
    of the loan account, by induction A(1+i)^k - P((1+i)^k-1)/i."""
    a = l.make()
    P = a._monthly_payment
    first, last = h.int('first period', lo=0), h.int('end period', lo=0)
    ix = h.int('period', lo=0)
    a.start_period_ix, a.end_period_ix = first, last
    now = h.real('now') if h.sym else datetime.datetime(2017, 3, 1)
    k = h.int('month', lo=0)
    a._months_executed = k
    if l.rate == 0.0:
        left = l.A - k * P
    else:
        left = l.A * l.grown(k) - P * (l.grown(k) - 1) / l.i
    a._amount_left = left
    # the size of the terms of the sums (rounding at run time)
    size = 0.0 if h.sym else abs(l.A * l.grown(k + 1)) + abs(P * (k + 1))
    gl = ledger(h)
    a.run(Clock(now, ix), gl)
    due = h.all(h.le(first, ix), h.le(ix + 1, last), h.lt(0, l.A),
                h.lt(0, l.n))
    bank, loan, interest = l.names
    cs = [credit(h, gl, q) for q in l.names]
    if not h.force(due):
        h.check('not-due', len(gl.transactions) == 0)
        h.eq('same-left', a._amount_left, left)
        h.eq('same-month', a._months_executed, k)
        return
    h.eq('next-month', a._months_executed, k + 1)
    h.check('dated', h.every(gl.transactions, lambda t: same_date(
        h, t.tx_date, now)))
    h.check('source', h.every(gl.transactions, lambda t: h.same(
        t.source, a.path)))
    if h.force(h.same(k, 0)):
        h.check('one-transaction', len(gl.transactions) == 1)
        h.eq('loan-received', cs[0], -l.A)
        h.eq('loan-owed', cs[1], l.A)
        h.eq('no-interest', cs[2], 0)
        return
    h.check('two-transactions', len(gl.transactions) == 2)
    h.eq('interest-charged', cs[2], -(left * l.i), size)
    h.eq('payment-made', cs[0], P)
    h.eq('owed', cs[1], a._amount_left - left, size)
    if l.rate == 0.0:
        h.eq('left', a._amount_left, l.A - (k + 1) * P, size)
    else:
        h.eq('left', a._amount_left, l.A * l.grown(k + 1) -
             P * (l.grown(k + 1) - 1) / l.i, size)


@kinds('paid_back', INIT)
def paid_back(h, l):
    """After n payments nothing is left; the first payment is preceded by
    the amount of the loan."""
    h.assume(h.lt(0, l.n))
    P = l.make()._monthly_payment
    left = lambda k: l.A - k * P if l.rate == 0.0 else (
        l.A * l.grown(k) - P * (l.grown(k) - 1) / l.i)
    h.eq('at-first', left(0), l.A)
    if h.sym:
        h.eq('at-last', left(l.n), 0)
    else:
        h.check('at-last', abs(left(l.n)) <= 1e-9 * (1 + abs(
            l.A * l.grown(l.n))))


@kinds('first_months', INIT + [F + 'run', F + 'prepare_to_run'])
def first_months(h, l):
    """The first months of a loan as they are seen in the ledger: made, then
    the interest on what is owed and equal payments that pay it off in the
    duration (any amount, rate and duration; three months)."""
    a = l.make(private=False)
    h.stub(STR, 'Activity.prepare_to_run', lambda *x: None)
    h.assume(h.all(h.lt(0, l.A), h.lt(0, l.n)))
    first = h.int('first period', lo=0)
    months = 1 + h.choice('months', [0, 1, 2])
    a.prepare_to_run(Clock(l.start, 0) if h.sym else h.mod(
        'auxi.core.time').Clock('c', start_datetime=l.start), 80)
    a.start_period_ix = first
    a.end_period_ix = first + l.n + 1
    h.assume(h.le(months, l.n))
    owed = l.A
    paid = None
    for k in range(months + 1):
        gl = ledger(h)
        now = h.real('now') if h.sym else datetime.datetime(2017, 3, 1)
        a.run(Clock(now, first + k), gl)
        cs = [credit(h, gl, q) for q in l.names]
        if k == 0:
            h.check('one-transaction', len(gl.transactions) == 1)
            h.eq('loan-received', cs[0], -l.A)
            h.eq('loan-owed', cs[1], l.A)
            h.eq('no-interest', cs[2], 0)
            continue
        size = 0.0 if h.sym else abs(l.A) * (1 + abs(l.rate))
        h.check('two-transactions', len(gl.transactions) == 2)
        h.eq('interest-charged', cs[2], -(owed * l.i), size)
        if paid is None:
            paid = cs[0]
            l.payment_is('payment', paid)
        h.eq('equal-payments', cs[0], paid, size)
        h.eq('owed', cs[1], owed * l.i - paid, size)
        owed = owed + owed * l.i - paid
        h.check('dated', h.every(gl.transactions, lambda t: same_date(
            h, t.tx_date, now)))


@contract('C16', [F + 'prepare_to_run'], conc=False)
def prepared(h):
    """A run starts with the whole amount left."""
    l = Loan(h)
    a = l.make()
    a._months_executed, a._amount_left = h.int('month'), h.real('left')
    seen = []
    h.stub(STR, 'Activity.prepare_to_run', lambda *x: seen.append(x))
    clock, count = h.token('clock'), h.int('periods')
    a.prepare_to_run(clock, count)
    h.eq('month', a._months_executed, 0)
    h.eq('left', a._amount_left, l.A)
    h.check('prepared-as-activity', len(seen) == 1 and seen[0][1] is clock)
    h.eq('periods', seen[0][2], count)


@contract('C16', [F + 'run', F + 'prepare_to_run'], sym=False,
          bounded='whole loans run by a real clock, durations up to 60 months')
def life(h):
    """A loan that starts within a run of monthly periods is made once, paid
    back by the given number of equal payments and then settled."""
    l = Loan(h, h.choice('kind', [0, 'any']))
    h.assume(l.A > 0 and l.n > 0)
    d0 = datetime.datetime(2016, 1, 1)
    clock = h.mod('auxi.core.time').Clock('clock', start_datetime=d0)
    a = l.make(private=False)
    if h.rng.random() < 0.3:
        a.duration = l.n = 1 + h.rng.randrange(40)
    if h.rng.random() < 0.3:
        a.amount = l.A = 500.0
    ahead = h.rng.randrange(3)
    clock.timestep_ix = ahead
    gl = ledger(h)
    for runs in range(h.rng.choice([1, 2])):
        del gl.transactions[:]
        clock.reset()
        if runs and h.rng.random() < 0.5:
            a.duration = l.n = 1 + h.rng.randrange(40)
            a.amount = l.A = 700.0
            h.log['changed'] = [l.n, l.A]
        a.prepare_to_run(clock, 80)
        for ix in range(80):
            a.run(clock, gl)
            clock.tick()
        ts = gl.transactions
        bank, loan, interest = l.names
        paid = [t for t in ts if t.cr_account == bank]
        h.check('made-once', [t.amount for t in ts if t.dt_account == bank]
                == [l.A])
        h.check('payments', len(paid) == l.n)
        h.check('equal', len({t.amount for t in paid}) <= 1)
        h.check('settled', abs(credit(h, gl, loan)) < 1e-7 * l.A * (
            1 + l.grown(l.n)))
        h.check('monthly', len({(t.tx_date.year, t.tx_date.month)
                                for t in paid}) == l.n)
        h.check('nothing-else', len(ts) == 1 + 2 * l.n)
