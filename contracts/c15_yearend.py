"""C15: the year end of an entity."""
import datetime
from collections import OrderedDict

from contracts import preload, ledger as L
from pyvc.harness import contract

STR = 'auxi.modelling.business.structure'
preload.need('C15', L.DES, STR)
F = 'auxi/modelling/business/structure.py:Entity.'


class SymAccounts(object):
    """a mapping of any number of accounts to amounts"""

    def __init__(self, h, label, kinds):
        from pyvc.values import SRec
        des = h.mod(L.DES)
        self.h, self.n = h, h.size(label)
        self.paths = h.names(label + ' path', self.n)
        self._type = h.members(label + ' type', des.AccountType)
        self.amount = h.func(label + ' amount')
        self.rec = lambda i: SRec(
            path=self.path(i), name=self.path(i), ix=i,
            account_type=self._type(i))
        if kinds:
            h.assume(h.forall(self.n, lambda i: h.any(*[
                self.is_type(i, k) for k in kinds])))

    def path(self, i):
        return self.h.at(self.paths, i)

    def is_type(self, i, v):
        return self._type(i) == self.h.mod(L.DES).AccountType(v)

    def items(self):
        return self.h.objects(self.n, lambda i: (self.rec(i),
                                                 self.amount(i)))

    def keys(self):
        return self.h.objects(self.n, self.rec)
    sym_iter = keys

    def values(self):
        return self.h.objects(self.n, self.amount)

    def __getitem__(self, a):
        return self.amount(a.ix)


class SymBooks(object):
    def __init__(self, h):
        self.h = h
        des, st = h.mod(L.DES), h.mod(STR)
        self.des = des
        self.gls = des.GeneralLedgerStructure('structure')
        self.gl = des.GeneralLedger.__new__(des.GeneralLedger)
        self.gl.name, self.gl.description = 'ledger', None
        self.gl.structure = self.gls
        self.gl.transactions = h.list()
        self.entity = st.Entity.__new__(st.Entity)
        self.entity.gl = self.gl
        self.entity.path = h.str('path of the entity')

    def accounts(self, label, kinds=()):
        r = SymAccounts(self.h, label, kinds)
        for a in self.special():
            self.h.assume(self.h.not_(self.h.contains(r.paths, a)))
        return r

    def special(self):
        g = self.gls
        return (g._acci_gross_prof_.path, g._acci_inc_sum_.path,
                g._accb_ret_earnings_acc_.path)

    def year_end(self):
        return self.h.real('year end')

    def credit(self, q, when=None):
        """net credit of the account q by the transactions of the ledger"""
        h = self.h
        return h.over(self.gl.transactions, lambda t: t.amount * (
            h.ite(h.same(t.cr_account, q), 1, 0) -
            h.ite(h.same(t.dt_account, q), 1, 0)))

    def same_date(self, a, b):
        return self.h.close(a, b)


class RealAccounts(object):
    def __init__(self, b, label, kinds):
        h = b.h
        pool = [a for a in b.pool if not kinds or
                a.account_type.value in kinds]
        self.accs = h.rng.sample(pool, h.rng.randrange(len(pool) + 1))
        self.n = len(self.accs)
        self.am = [h.rng.choice([0.0, 10.0, -3.5, h.rng.uniform(-50, 50)])
                   for a in self.accs]
        h.log[label] = [(a.path, x) for a, x in zip(self.accs, self.am)]
        self.d = OrderedDict(zip(self.accs, self.am))

    def path(self, i):
        return self.accs[i].path

    def amount(self, i):
        return self.am[i]

    def is_type(self, i, v):
        return self.accs[i].account_type.value == v


class RealBooks(SymBooks):
    def __init__(self, h):
        self.h = h
        des, st = h.mod(L.DES), h.mod(STR)
        self.des = des
        self.gls = gls = des.GeneralLedgerStructure('structure')
        self.pool = [
            gls['Sales'].create_account('Calcium', '0010'),
            gls['Sales']['Calcium'].create_account('Fine', '0010'),
            gls['Sales'].create_account('Lime', '0020'),
            gls['Cost of Sales'].create_account('Power', '0010'),
            gls['Cost of Sales'].create_account('Coal', '0020'),
            gls['Other Income'].create_account('Rent', '0010'),
            gls['Other Income'].create_account('Lime', '0020'),
            gls['Expense'].create_account('Coal', '0030'),
            gls['Cost of Sales'].create_account('Interest', '0030'),
            gls['Sales'].create_account('Rent', '0030'),
            gls['Expense'].create_account('Rent', '0010'),
            gls['Expense'].create_account('Interest', '0020'),
            gls['Bank']['Default'], gls['Sales'], gls['Expense'],
            gls['Long Term Borrowing']]
        self.entity = st.Entity('e', gls)
        self.entity.set_parent_path('model')
        self.gl = self.entity.gl

    def accounts(self, label, kinds=()):
        return RealAccounts(self, label, kinds)

    def year_end(self):
        return datetime.datetime(2016, 12, 31, 23, 59, 59)

    def same_date(self, a, b):
        return a == b


def books(h):
    return SymBooks(h) if h.sym else RealBooks(h)


def given(h, a):
    return a if h.sym else a.d


def closing(h, b, when):
    """what every closing transaction looks like"""
    h.check('dated-at-year-end', h.every(
        b.gl.transactions, lambda t: b.same_date(t.tx_date, when)))
    h.check('flagged-as-closing', h.every(
        b.gl.transactions, lambda t: h.any(t.is_closing_cr_account,
                                           t.is_closing_dt_account)))
    h.check('source', h.every(b.gl.transactions, lambda t: h.same(
        t.source, b.entity.path)))
    h.check('not-negative', h.every(b.gl.transactions, lambda t: h.le(
        0, t.amount)))


def some(h, a, f):
    """f for an arbitrary one of the accounts"""
    if h.sym:
        _, i = h.name_in('q', a.paths, a.n)
        f(i)
    else:
        for i in range(a.n):
            f(i)


@contract('C15', [F + '_perform_year_end_income_summary',
                  'auxi/modelling/financial/des.py:'
                  'GeneralLedger.create_transaction'])
def income_summary(h):
    """Every other revenue and expense account is settled against the income
    summary, and the result is the income."""
    b = books(h)
    a = b.accounts('account', (L.REVENUE, L.EXPENSE))
    gp = h.real('gross profit')
    when = b.year_end()
    r = h.private(b.entity, '_perform_year_end_income_summary',
                  year_end_datetime=when, gross_profit=gp,
                  income_summary_write_off_accounts=given(h, a))
    sign = lambda i: h.ite(a.is_type(i, L.REVENUE), 1, -1)
    income = h.sum(a.n, lambda i: sign(i) * a.amount(i))
    h.eq('result', r, gp + income)
    h.eq('income-summary', b.credit(b.gls._acci_inc_sum_.path), income)
    some(h, a, lambda i: h.eq('account-settled', b.credit(a.path(i)),
                              -(sign(i) * a.amount(i))))
    other = h.foreign_name('other', a.paths) if h.sym else 'Bank'
    if h.sym:
        h.assume(h.not_(h.same(other, b.gls._acci_inc_sum_.path)))
    h.eq('no-other-account', b.credit(other), 0)
    closing(h, b, when)


@contract('C15', [F + '_perform_year_end_gross_profit'])
def gross_profit(h):
    """Every sales and cost of sales account is settled against the gross
    profit, and the result is the gross profit."""
    b = books(h)
    a = b.accounts('account', (L.REVENUE, L.EXPENSE))
    when = b.year_end()
    r = h.private(b.entity, '_perform_year_end_gross_profit',
                  year_end_datetime=when,
                  gross_profit_write_off_accounts=given(h, a))
    h.eq('result', r, h.sum(a.n, a.amount))

    def one(i):
        c = b.credit(a.path(i))
        h.check('settled-by-its-amount', h.any(
            h.close(c, a.amount(i)), h.close(c, -a.amount(i))))
        h.eq('account-settled', c, -a.amount(i))
    h.eq('against-gross-profit', b.credit(b.gls._acci_gross_prof_.path),
         -h.sum(a.n, lambda i: b.credit(a.path(i))))
    closing(h, b, when)
    some(h, a, one)


@contract('C15', [F + '_perform_year_end_gross_profit_and_income_summary'],
          conc=False)
def gross_profit_and_income_summary(h):
    """The gross profit is settled against the income summary, and the result
    is that of the income summary given the gross profit."""
    b = books(h)
    when = b.year_end()
    gp, total = h.real('gross profit'), h.real('income')
    seen = []
    st = b.entity
    one, two = h.token('sales'), h.token('others')

    def gross_profit(self, *a):
        seen.append(('gross profit',) + a)
        return gp

    def income_summary(self, *a):
        seen.append(('income summary',) + a)
        return total
    h.stub(STR, 'Entity._perform_year_end_gross_profit', gross_profit,
           ('year_end_datetime', 'gross_profit_write_off_accounts'))
    h.stub(STR, 'Entity._perform_year_end_income_summary', income_summary,
           ('year_end_datetime', 'gross_profit',
            'income_summary_write_off_accounts'))
    r = h.private(st, '_perform_year_end_gross_profit_and_income_summary',
                  year_end_datetime=when, gross_profit_write_off_accounts=one,
                  income_summary_write_off_accounts=two)
    h.need([x[0] for x in seen] in (
        ['gross profit', 'income summary'], ['gross profit'],
        ['income summary']), 'calls of other functions')
    h.check('calls', [x[0] for x in seen] == ['gross profit',
                                              'income summary'])
    h.check('sales', h.all(b.same_date(seen[0][1], when),
                           h.same(seen[0][2], one)))
    h.check('others', h.all(b.same_date(seen[1][1], when),
                            h.same(seen[1][3], two)))
    h.eq('gross-profit', seen[1][2], gp)
    h.eq('result', r, total)
    h.eq('gross-profit-account', b.credit(b.gls._acci_gross_prof_.path), -gp)
    h.eq('income-summary', b.credit(b.gls._acci_inc_sum_.path), gp)
    closing(h, b, when)


@contract('C15', [F + '_perform_year_end_income_tax',
                  F + '_perform_year_end_retained_earnings'])
def retained_earnings(h):
    """The income is moved from the income summary to retained earnings."""
    b = books(h)
    when = b.year_end()
    x = h.real('income')
    h.eq('no-tax', h.private(
        b.entity, '_perform_year_end_income_tax', year_end_datetime=when,
        income_summary_amount=x), x)
    h.private(b.entity, '_perform_year_end_retained_earnings',
              year_end_datetime=when, income_summary_amount=x)
    ret = b.credit(b.gls._accb_ret_earnings_acc_.path)
    h.check('moved', h.any(h.close(ret, x), h.close(ret, -x)))
    h.eq('from-income-summary', b.credit(b.gls._acci_inc_sum_.path), -ret)
    profit = h.le(0, x)
    h.check('profit', h.implies(profit, h.close(ret, x)))
    h.check('profit-not-negative', h.implies(profit, h.every(
        b.gl.transactions, lambda t: h.le(0, t.amount))))
    h.check('flagged-as-closing', h.every(
        b.gl.transactions, lambda t: h.any(t.is_closing_cr_account,
                                           t.is_closing_dt_account)))
    h.check('dated-at-year-end', h.every(
        b.gl.transactions, lambda t: b.same_date(t.tx_date, when)))
    h.check('loss', h.implies(h.not_(profit), h.close(ret, x)))


class Clock(object):
    def __init__(self, now, ix):
        self.now, self.timestep_ix = now, ix

    def get_datetime(self):
        return self.now


class Group(object):
    """the descendants of an account: those for which `has` holds"""

    def __init__(self, has):
        self.has = has

    def __contains__(self, a):
        return bool(self.has(a))


def year_end(h, date, ended, clipped):
    """At a year end, and only then, the balances of exactly the transactions
    of that year are handed to the closing of the accounts; the next year
    begins where this one ended."""
    from pyvc.values import SStr
    b = L.ledger(h)
    des, st = h.mod(L.DES), h.mod(STR)
    real = des.GeneralLedgerStructure('structure')
    sales, costs = h.pred('below sales'), h.pred('below cost of sales')

    class Account(SStr):
        __slots__ = ()
        account_type = property(lambda a: b._type(a))
        path = property(lambda a: SStr(a.k))

    class Structure(object):
        _acci_sales_, _acci_cos_ = real._acci_sales_, real._acci_cos_

        def get_account(self, name):
            return Account(name.k)

        def get_account_descendants(self, a):
            return Group(sales if a is self._acci_sales_ else
                         costs if a is self._acci_cos_ else
                         h.pred('below ' + a.path))
    b.gl.structure = Structure()
    h.stub(STR, 'timedelta', lambda seconds: seconds)

    class Span(object):
        def __init__(self, **k):
            self.f = h.func('after %r' % k, facts=lambda t: [
                h.lt(t, self.f(t))])

        def __radd__(self, t):
            return self.f(t)
    h.stub(STR, 'relativedelta', Span)
    year = Span(years=1).f
    seen = []

    def summary(self, when, gp, others):
        seen.append(('summary', when, gp, others))
        return h.real('income')

    def tax(self, when, x):
        seen.append(('tax', when, x))
        return h.real('after tax')

    def earnings(self, when, x):
        seen.append(('earnings', when, x))
    E = 'Entity._perform_year_end_'
    h.stub(STR, E + 'gross_profit_and_income_summary', summary,
           ('year_end_datetime', 'gross_profit_write_off_accounts',
            'income_summary_write_off_accounts'))
    both = ('year_end_datetime', 'income_summary_amount')
    h.stub(STR, E + 'income_tax', tax, both)
    h.stub(STR, E + 'retained_earnings', earnings, both)
    e = st.Entity.__new__(st.Entity)
    e.gl = b.gl
    e.path = h.str('path of the entity')
    start, end = h.real('year start'), h.real('next year start')
    last = h.real('end of the run')
    e._prev_year_end_datetime, e._curr_year_end_datetime = start, end
    e._exec_year_end_datetime = last
    e.period_count = h.int('period count')
    now, ix = h.real('now'), h.int('period')
    # dates have a resolution of a second
    h.assume(h.forall(b.n, lambda i: h.any(
        h.le(b.date(i), end - 1), h.le(end, b.date(i)))))
    for given, c in ((date, h.le(end, now)),
                     (ended, h.same(ix, e.period_count)),
                     (clipped, h.lt(last, year(end)))):
        if given is not None:
            h.assume(c if given else h.not_(c))
    h.private(e, '_perform_year_end_procedure', clock=Clock(now, ix))
    due = h.any(h.le(end, now), h.same(ix, e.period_count))
    if not h.force(due):
        h.check('not-due', len(seen) == 0)
        h.eq('same-year', e._prev_year_end_datetime, start)
        h.eq('same-end', e._curr_year_end_datetime, end)
        return
    h.check('closed', len(seen) > 0)
    h.need([x[0] for x in seen] == ['summary', 'tax', 'earnings'],
           'calls of other functions')
    for x in seen:
        h.eq('dated', x[1], end - 1)
    h.eq('taxed', seen[1][2], h.real('income'))
    h.eq('retained', seen[2][2], h.real('after tax'))
    h.eq('next-year-starts', e._prev_year_end_datetime, end)
    h.eq('next-year-ends', e._curr_year_end_datetime, h.ite(
        h.le(year(end), last), year(end), last))
    q = b.account('some account')
    inside = lambda i: h.all(h.le(start, b.date(i)), h.lt(b.date(i), end))
    bal = h.sum(b.n, lambda i: h.ite(inside(i), b.amount(i) * (
        h.ite(h.same(b.cr(i), q), 1, 0) -
        h.ite(h.same(b.dt(i), q), 1, 0)), 0))
    trade = h.any(sales(q), costs(q))
    h.eq('sales', h.value(seen[0][2], q), h.ite(trade, bal, 0))
    h.eq('others', h.value(seen[0][3], q), h.ite(
        trade, 0, h.ite(b.is_type(q, L.REVENUE), bal, h.ite(
            b.is_type(q, L.EXPENSE), -bal, 0))))


def register(name, doc, *case):
    def f(h):
        year_end(h, *case)
    f.__doc__ = year_end.__doc__ + doc
    contract('C15', [F + '_perform_year_end_procedure'], name=name,
             conc=False)(f)


# (the cases cover all: the path conditions are split to use more processors)
register('year_end_not_due', ' (No year end.)', False, False, None)
register('year_end_full', ' (By date, a full year follows.)',
         True, None, False)
register('year_end_short', ' (By date, the run ends within the next year.)',
         True, None, True)
register('year_end_last_full', ' (In the last period only.)',
         False, True, False)
register('year_end_last_short', ' (In the last period only, clipped.)',
         False, True, True)


@contract('C15', [F + 'prepare_to_run', F + 'run',
                  F + '_perform_year_end_procedure'], sym=False, samples=150,
          bounded='ledgers of up to 12 transactions, two years by months, weeks '
          'or days')
def two_years(h):
    """Two years of a real entity: accounts are settled, retained earnings
    receive the income of each year."""
    clock_mod = h.mod('auxi.core.time')
    b = RealBooks(h)
    rng = h.rng
    d0 = datetime.datetime(rng.choice([2014, 2015, 2016, 2019]),
                           rng.choice([1, 3, 7]), 1)
    unit, count = rng.choice([('month', 30), ('month', 30), ('week', 131),
                              ('day', 915)])
    clock = clock_mod.Clock('clock', None, d0,
                            getattr(clock_mod.TimePeriod, unit))
    h.log['periods'] = unit
    e = b.entity
    if rng.random() < 0.5:
        # an earlier run of another length from another date
        old = clock_mod.Clock('old', start_datetime=d0.replace(
            year=d0.year + rng.randrange(-2, 3)))
        e.prepare_to_run(old, rng.choice([0, 7, 30]))
        for ix in range(e.period_count):
            old.timestep_ix = ix
            e.run(old)
        h.log['earlier run'] = [str(old.start_datetime), e.period_count]
    b.gl.create_transaction('old', None, d0, 'Bank', 'Sales', None, 5.0)
    e.prepare_to_run(clock, count)
    h.check('cleared', len(b.gl.transactions) == 0)
    names = [a.path for a in b.pool]
    for i in range(rng.randrange(13)):
        ix = rng.randrange(count * 27 // 30)
        t = b.gl.create_transaction(
            'tx', None, clock.get_datetime_at_period_ix(ix) +
            datetime.timedelta(days=rng.randrange(27),
                               seconds=rng.choice([0, 86399, 7200])),
            rng.choice(names), rng.choice(names), None,
            rng.choice([10.0, 30.0, 70.0, -5.0, rng.uniform(0, 100)]))
        h.log.setdefault('transactions', []).append(
            [str(t.tx_date), t.dt_account, t.cr_account, t.amount])
    given = list(b.gl.transactions)
    ends = [d0.replace(year=d0.year + k) for k in (0, 1, 2, 3)]
    for ix in range(count):
        clock.timestep_ix = ix
        e.run(clock)
    kind = {}
    for a in b.pool + [b.gls._acci_gross_prof_, b.gls._acci_inc_sum_,
                       b.gls._accb_ret_earnings_acc_]:
        kind[a.path] = a.account_type.value
    new = [t for t in b.gl.transactions if t not in given]

    summary = b.gls._acci_inc_sum_.path
    retained = b.gls._accb_ret_earnings_acc_.path

    def credit(ts, q, k):
        return sum(t.amount * ((t.cr_account == q) - (t.dt_account == q))
                   for t in ts if ends[k] <= t.tx_date < ends[k + 1])
    gross = b.gls._acci_gross_prof_.path
    for t in new:
        ends_of = {t.dt_account, t.cr_account}
        trade = any(q.startswith(('Sales/', 'Cost of Sales/'))
                    for q in ends_of)
        h.check('against', len(ends_of) == 2 and (
            gross in ends_of if trade else summary in ends_of))
        h.check('dated', t.tx_date + datetime.timedelta(seconds=1) in ends)
        h.check('closing', t.is_closing_cr_account or t.is_closing_dt_account)
    for k in (0, 1):
        income = 0.0
        for q in names:
            c = credit(given, q, k)
            if kind[q] not in (L.REVENUE, L.EXPENSE):
                h.near_eq('not-closed', credit(new, q, k), 0.0)
                continue
            income += c
            if q.startswith('Sales/') or q.startswith('Cost of Sales/'):
                h.near_eq('settled-by-its-balance', abs(credit(new, q, k)),
                          abs(c))
            else:
                h.near_eq('settled', credit(new, q, k), -c)
        r = credit(new, retained, k)
        if income > 1e-9:
            h.near_eq('profit-retained', r, income)
            h.near_eq('from-income-summary', credit(new, summary, k), 0.0)
        else:
            h.near_eq('amount-retained', abs(r), abs(income))
    h.check('no-third-year', not any(t.tx_date >= ends[2] for t in new))
