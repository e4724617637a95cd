"""A general ledger with any number of transactions (C14, C15, C25)."""
import datetime

DES = 'auxi.modelling.financial.des'
REP = 'auxi.modelling.financial.reporting'
ASSET, EQUITY, EXPENSE, LIABILITY, REVENUE = 1, 2, 3, 4, 5
TYPES = {'asset': 1, 'equity': 2, 'expense': 3, 'liability': 4, 'revenue': 5}


def sym_tx(b, i):
    """a transaction whose every attribute is arbitrary"""
    from pyvc.values import SRec
    return SRec(
        tx_date=b.date(i), cr_account=b.cr(i), dt_account=b.dt(i),
        amount=b.amount(i), name=b.name(i), description=b._description(i),
        source=b._source(i), is_closing_cr_account=b.closing_cr(i),
        is_closing_dt_account=b.closing_dt(i))


class SymLedger(object):
    """n transactions between accounts of a structure that may be any
    assignment of account types to account names"""

    def __init__(self, h, closing=True, n=None):
        self.h = h
        self.des = h.mod(DES)
        self.n = h.size('transactions') if n is None else n
        self._date = h.func('date')
        self.date = lambda i: self._date(i)
        self.amount = h.func('amount')
        self.cr = h.texts('credit account', nonempty=True)
        self.dt = h.texts('debit account', nonempty=True)
        self.name = h.texts('tx name')
        self._source = h.optional('source')
        self.has_source = lambda i: h.not_(h.same(self._source(i), None))
        self.raw_source = self._source
        self.source = lambda i: h.bare(self._source(i))
        self._description = h.optional('description')
        self.description = lambda i: h.or_empty(self._description(i))
        no = lambda i: False
        self.closing_cr = h.pred('closing credit') if closing else no
        self.closing_dt = h.pred('closing debit') if closing else no
        self._type = h.members('account type', self.des.AccountType)
        self.gl = self.des.GeneralLedger.__new__(self.des.GeneralLedger)
        self.gl.name, self.gl.description = 'ledger', None
        self.gl.transactions = h.objects(self.n, lambda i: sym_tx(self, i))
        self.gl.structure = self
    # the structure, by the contract of get_account (C18)
    def get_account(self, name):
        return Account(name, self._type(name))

    def is_type(self, name, v):
        return self._type(name) == self.des.AccountType(v)

    def instant(self, label):
        return self.h.real(label)

    def first(self):
        """a date before all transactions"""
        x = self.h.real('first')
        self.h.assume(self.h.forall(self.n, lambda i: self.h.le(
            x, self._date(i))))
        return x

    def day(self, x):
        return x

    def account(self, label):
        return self.h.str(label, nonempty=True)


class Account(object):
    def __init__(self, name, type_):
        self.name, self.account_type = name, type_


class RealLedger(object):
    """a GeneralLedger with a structure from /repo"""

    def __init__(self, h, closing=True, n=None):
        self.h = h
        self.des = h.mod(DES)
        rng = h.rng
        self.gls = self.des.GeneralLedgerStructure('structure')
        kinds = dict(TYPES)
        pool = ['Bank/Default', 'Sales', 'Expense', 'Long Term Borrowing',
                'Retained Income/Retained Earnings', 'Cost of Sales']
        self.gls['Sales'].create_account('Calcium', '0010')
        self.gls['Cost of Sales'].create_account('Power', '0010')
        self.gls['Expense'].create_account('Rent', '0010')
        self.gls['Fixed Assets'].create_account('Plant', '0010')
        self.gls['Retained Income'].create_account('Reserve', '0010')
        pool += ['Retained Income/Reserve', 'Sales/Calcium', 'Cost of Sales/Power', 'Expense/Rent',
                 'Fixed Assets/Plant', 'Account Payable']
        self.every = pool
        self.pool = rng.sample(pool, rng.randrange(1, len(pool)))
        self.gl = self.des.GeneralLedger(
            h.rng.choice(['ledger', 'm', 'm/plant']), self.gls)
        self.n = h.size('transactions', hi=8) if n is None else n
        srcs = [None, 'm/plant', 'm/plant2', 'm/plant/kiln', 'm',
                'm/plant/kiln/feed']
        self.log = []
        for i in range(self.n):
            if i and rng.random() < 0.2:
                # the same once more, with other accounts at times
                t = self.gl.transactions[-1]
                self.gl.create_transaction(
                    t.name, t.description, t.tx_date, t.dt_account if
                    rng.random() < 0.5 else rng.choice(self.pool),
                    t.cr_account if rng.random() < 0.5 else
                    rng.choice(self.pool), t.source, t.amount)
                t = self.gl.transactions[-1]
                self.log.append([t.name, 'again', t.dt_account, t.cr_account,
                                 t.source, t.amount])
                continue
            d = datetime.date(2016, rng.randrange(1, 4), rng.randrange(1, 9))
            k = rng.randrange(3)
            if k == 1:
                dd = datetime.datetime(d.year, d.month, d.day,
                                       rng.randrange(24), 30)
            elif k == 2:
                dd = d.isoformat()
            else:
                dd = d
            t = self.gl.create_transaction(
                rng.choice(['buy', 'sell', 'kiln', 'feed']),
                rng.choice([None, 'text']), dd,
                rng.choice(self.pool), rng.choice(self.pool),
                rng.choice(srcs), rng.choice([0.0, 10.0, -3.5, 12.25, 0.004,
                                              rng.uniform(-50, 50)]))
            if closing:
                t.is_closing_cr_account = rng.random() < 0.15
                t.is_closing_dt_account = rng.random() < 0.15
            self.log.append([t.name, str(dd), t.dt_account, t.cr_account,
                             t.source, t.amount, t.is_closing_cr_account,
                             t.is_closing_dt_account])
        if n is None and rng.random() < 0.4:
            self._mirror(rng)
        h.log['transactions'] = self.log
        self.txs = list(self.gl.transactions)

    def _mirror(self, rng):
        """two accounts of one type with equal balances"""
        a = rng.choice(self.pool)
        b = [x for x in self.every if x != a and
             self._type(x) == self._type(a)]
        if not b:
            return
        b = rng.choice(b)
        sub = lambda x: b if x == a else x
        old = [t for t in self.gl.transactions
               if b not in (t.dt_account, t.cr_account)]
        self.gl.transactions[:] = old
        for t in [t for t in old if a in (t.dt_account, t.cr_account)]:
            u = self.gl.create_transaction(
                t.name, t.description, t.tx_date, sub(t.dt_account),
                sub(t.cr_account), t.source, t.amount)
            u.is_closing_cr_account = t.is_closing_cr_account
            u.is_closing_dt_account = t.is_closing_dt_account
        self.log.append(['the transactions of', a, 'instead of those of', b])
        self.n = len(self.gl.transactions)

    def _t(self, i):
        return self.txs[i]

    def date(self, i):
        return self.day(self.txs[i].tx_date)

    def day(self, x):
        if isinstance(x, str):
            x = datetime.date.fromisoformat(x)
        if isinstance(x, datetime.datetime):
            x = x.date()
        return x.toordinal()

    def amount(self, i):
        return self.txs[i].amount

    def cr(self, i):
        return self.txs[i].cr_account

    def dt(self, i):
        return self.txs[i].dt_account

    def name(self, i):
        return self.txs[i].name

    def raw_source(self, i):
        return self.txs[i].source

    def source(self, i):
        return self.txs[i].source or ''

    def description(self, i):
        return self.txs[i].description or ''

    def has_source(self, i):
        return self.txs[i].source is not None

    def closing_cr(self, i):
        return self.txs[i].is_closing_cr_account

    def closing_dt(self, i):
        return self.txs[i].is_closing_dt_account

    def _type(self, name):
        acc = self.gls
        for part in name.split('/'):
            acc = [a for a in acc.accounts if a.name == part][0]
        return acc.account_type.value

    def is_type(self, name, v):
        return self._type(name) == v

    def first(self):
        return datetime.datetime.min

    def instant(self, label):
        d = datetime.date(2016, self.h.rng.randrange(1, 4),
                          self.h.rng.randrange(1, 9))
        k = self.h.rng.randrange(3)
        if k == 1:
            d = datetime.datetime(d.year, d.month, d.day, 11, 15)
        elif k == 2:
            d = d.isoformat()
        self.h.log[label] = str(d)
        return d

    def account(self, label):
        a = self.h.rng.choice(self.pool)
        self.h.log[label] = a
        return a


def component(h):
    """a component path of a report: none, or that of some component"""
    if h.choice('component', ['all', 'one']) == 'all':
        return ''
    return h.str('component', edge='/', nonempty=True, gen=lambda r: r.choice(
        ['m', 'm/plant', 'm/plant/kiln', 'm/plant2']))


def ledger(h, **k):
    return SymLedger(h, **k) if h.sym else RealLedger(h, **k)


class Tables(object):
    """the tables laid out as text meanwhile, and what is printed"""
    TEXT = 'the text of a table'

    def __init__(self, h):
        self.h, self.tables, self.printed = h, [], []
        self.mod = h.mod('auxi.core.reporting')

    def __enter__(self):
        m = self.mod
        self.h.need('tabulate' in vars(m) and 'print' not in vars(m),
                    'tabulate and print')
        self.tabulate, m.tabulate = m.tabulate, self._layout
        m.print = self.printed.append

    def __exit__(self, *a):
        self.mod.tabulate = self.tabulate
        del self.mod.print

    def _layout(self, table, headers=(), tablefmt='simple', **k):
        self.h.need(headers == 'firstrow' and not k, 'another layout')
        self.tables.append(table)
        return self.TEXT

    def only(self):
        self.h.need(len(self.tables) == 1, 'one table')
        return self.tables[0]


def period(h):
    """the first and the last day of a report"""
    return [datetime.date(2016, h.rng.randrange(lo, hi), h.rng.randrange(
        1, 9)) for lo, hi in ((1, 3), (2, 4))]


def again(h, ask):
    """asked for again after the transactions changed, a ledger gives what a
    new one with the transactions as they are now gives"""
    b = RealLedger(h)
    rng = h.rng
    h.need(b.gl.transactions, 'a transaction')
    ask(b.gl)
    for k in range(rng.randrange(1, 3)):
        t = rng.choice(b.gl.transactions)
        what = h.choice('change', ['amount', 'account', 'date', 'source',
                                   'remove', 'replace', 'add'])
        if what == 'amount':
            t.amount += 100.0
        elif what == 'account':
            t.dt_account = rng.choice(b.pool)
            t.cr_account = rng.choice(b.pool)
        elif what == 'date':
            t.tx_date = datetime.date(2016, rng.randrange(1, 4), 5)
        elif what == 'source':
            t.source = rng.choice([None, 'm/plant', 'm/plant/kiln'])
        elif what == 'remove':
            b.gl.transactions.remove(t)
            break
        else:
            if what == 'replace':
                b.gl.transactions.remove(t)
            b.gl.create_transaction(
                'new', None, datetime.date(2016, 2, rng.randrange(1, 9)),
                rng.choice(b.pool), rng.choice(b.pool), 'm/plant', 7.0)
    new = b.des.GeneralLedger(b.gl.name, b.gls, b.gl.description)
    new.transactions = list(b.gl.transactions)
    h.check('as-it-is-now', ask(b.gl) == ask(new))
