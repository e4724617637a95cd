"""C14: balance sheet and income statement."""
from contracts import preload, ledger as L
from pyvc.harness import contract

preload.need('C14', L.DES, L.REP, 'auxi.core.reporting')
F = 'auxi/modelling/financial/reporting.py:'
D = 'auxi/modelling/financial/des.py:'
R = 'auxi/core/reporting.py:'
RENDER = 'auxi.core.reporting'
T_BS = [F + 'BalanceSheet._sum_amounts_per_account_', F + '_as_date_']
T_IS = [F + 'IncomeStatement._sum_amounts_per_account_',
        F + '_is_from_component_']


def balance(h, L_, q, when, sign):
    """sum over the selected transactions of debits minus credits to q"""
    return h.sum(L_.n, lambda i: h.ite(
        when(i), sign * L_.amount(i) * (
            h.ite(h.same(L_.dt(i), q), 1, 0) -
            h.ite(h.same(L_.cr(i), q), 1, 0)), 0))


@contract('C14', T_BS)
def balance_sheet_accounts(h):
    """Each account's balance: assets debit-positive, liabilities and equity
    credit-positive, over the transactions up to the end date."""
    b = L.ledger(h)
    end = b.instant('end')
    rep = h.mod(L.REP).BalanceSheet(b.gl, end)
    is_balance(h, b, rep._sum_amounts_per_account_(), end)


def is_balance(h, b, sums, end):
    assets, liabs, equity = sums
    q = b.account('some account')
    until = lambda i: h.le(b.date(i), b.day(end))
    for label, d, kind, sign in (('assets', assets, L.ASSET, 1),
                                 ('liabilities', liabs, L.LIABILITY, -1),
                                 ('equity', equity, L.EQUITY, -1)):
        bal = balance(h, b, q, until, sign)
        h.eq(label, h.value(d, q), h.ite(b.is_type(q, kind), bal, 0))
        h.check(label + '-listed', h.iff(h.has_key(d, q), h.all(
            b.is_type(q, kind), h.exists(b.n, lambda i: h.all(
                until(i), h.any(h.same(b.dt(i), q), h.same(b.cr(i), q)))))))


def in_component(h, b, i, path):
    """selected by the component path of a report"""
    src = b.source(i)
    return h.any(h.same(path, ''), h.all(b.has_source(i), h.any(
        h.same(src, path), h.starts(src, path, '/'))))


def selected(h, b, i, start, end, path):
    return h.all(h.le(b.day(start), b.date(i)), h.le(b.date(i), b.day(end)),
                 in_component(h, b, i, path))


@contract('C14', T_IS)
def income_statement_accounts(h):
    """Revenue accounts credit-positive, expense accounts debit-positive,
    over the selected transactions that close no account."""
    b = L.ledger(h)
    start, end = b.instant('start'), b.instant('end')
    path = L.component(h)
    rep = h.mod(L.REP).IncomeStatement(b.gl, start, end, path)
    is_income(h, b, rep._sum_amounts_per_account_(), start, end, path)


def is_income(h, b, sums, start, end, path):
    income, expenses = sums
    q = b.account('some account')
    sel = lambda i: h.all(selected(h, b, i, start, end, path),
                          h.not_(b.closing_cr(i)), h.not_(b.closing_dt(i)))
    for label, d, kind, sign in (('income', income, L.REVENUE, -1),
                                 ('expenses', expenses, L.EXPENSE, 1)):
        bal = balance(h, b, q, sel, sign)
        h.eq(label, h.value(d, q), h.ite(b.is_type(q, kind), bal, 0))
        h.check(label + '-listed', h.iff(h.has_key(d, q), h.all(
            b.is_type(q, kind), h.exists(b.n, lambda i: h.all(
                sel(i), h.any(h.same(b.dt(i), q), h.same(b.cr(i), q)))))))


class Reports(object):
    """the reports that make their table meanwhile: its contract"""

    def __init__(self, h, cls):
        self.h, self.cls, self.all = h, cls, []

    def __enter__(self):
        self.h.need('_generate_table_' in vars(self.cls),
                    'a table of its own')
        self.old = self.cls._generate_table_
        self.cls._generate_table_ = lambda rep: self.all.append(rep) or self

    def __exit__(self, *a):
        self.cls._generate_table_ = self.old

    def only(self, tables):
        self.h.need(len(self.all) == 1 and tables.only() is self,
                    'one report')
        return self.all[0]


def asked(h, f, report):
    """what the ledger gives or prints is this report"""
    text = h.force(h.pred('as text')(0))
    formats = h.mod(RENDER).ReportFormat
    tables, reports = L.Tables(h), Reports(h, type(report))
    with tables, reports:
        r = f(formats.string if text else formats.printout)
    h.check('given', r is None if not text else r == tables.TEXT)
    h.check('printed', tables.printed == ([] if text else [tables.TEXT]))
    rep = reports.only(tables)
    h.check('report', type(rep) is type(report) and
            set(vars(rep)) == set(vars(report)))
    h.check('asked-for', h.all(*[
        x is vars(rep)[k] or h.same(x, vars(rep)[k])
        for k, x in vars(report).items()]))


@contract('C14', [D + 'GeneralLedger.balance_sheet', R + 'Report.render',
                  F + '_as_date_'])
def balance_sheet_of_the_ledger(h):
    """The balance sheet asked of the ledger is that of this ledger up to
    the date asked for."""
    b = L.ledger(h)
    end = b.instant('end')
    asked(h, lambda x: b.gl.balance_sheet(end, x),
          h.mod(L.REP).BalanceSheet(b.gl, end))


@contract('C14', [D + 'GeneralLedger.income_statement', R + 'Report.render',
                  F + '_as_date_'])
def income_statement_of_the_ledger(h):
    """The income statement asked of the ledger is that of this ledger,
    period and component."""
    b = L.ledger(h)
    start, end = b.instant('start'), b.instant('end')
    path = L.component(h)
    asked(h, lambda x: b.gl.income_statement(start, end, x, path),
          h.mod(L.REP).IncomeStatement(b.gl, start, end, path))


@contract('C14', T_BS + T_IS)
def accounting_equation(h):
    """Assets equal liabilities plus equity plus the net income of the
    transactions up to the same date."""
    b = L.ledger(h, closing=False)
    end = b.instant('end')
    start = b.first()
    R = h.mod(L.REP)
    assets, liabs, equity = R.BalanceSheet(
        b.gl, end)._sum_amounts_per_account_()
    income, expenses = R.IncomeStatement(
        b.gl, start, end)._sum_amounts_per_account_()
    h.eq('assets-equal-liabilities-equity-and-income',
         h.total(assets), h.total(liabs) + h.total(equity) +
         h.total(income) - h.total(expenses))


EXPENSES = ['Cost of Sales', 'Cost of Sales/a', 'Cost', 'Cost of S', 'b',
            'b/Cost of Sales']


@contract('C14', [F + 'IncomeStatement._generate_table_'])
def income_table(h):
    """The income statement lists each account that has a balance once, on
    its side, and the totals of what it lists."""
    n, m = h.size('accounts of income'), h.size('accounts of expense')
    inc, exp = h.names('income', n), h.names('expense', m, pool=EXPENSES)
    f, g = (h.func(x, grain=64) for x in ('income of', 'expense of'))
    income, expenses = h.map(inc, n, f), h.map(exp, m, g)
    d = h.mod(L.DES)
    gl = d.GeneralLedger('ledger', d.GeneralLedgerStructure('structure'))
    rep = h.mod(L.REP).IncomeStatement(gl)
    h.need(hasattr(rep, '_sum_amounts_per_account_') and
           rep._sum_amounts_per_account_() == ({}, {}),
           'a helper that gives the balances')
    rep._sum_amounts_per_account_ = lambda: (income, expenses)
    t = rep._generate_table_()
    # each weight of rows adds up to that of the wanted ones: these are the
    # rows, each once
    w = h.func('weight', arity=3)
    cos = lambda q: h.starts(q, 'Cost of Sales')
    tot = h.sum(n, lambda i: f(h.at(inc, i)))
    out = h.sum(m, lambda i: g(h.at(exp, i)))
    sales = h.sum(m, lambda i: h.ite(cos(h.at(exp, i)), g(h.at(exp, i)), 0))
    net = tot - out
    loss = h.force(h.lt(net, 0))
    wanted = (
        w('', 'Debit', 'Credit') + w('Revenues', '', '') +
        w('--------', '', '') +
        h.sum(n, lambda i: w(h.at(inc, i), '', h.cents(f(h.at(inc, i))))) +
        w('', '', '') + w('Cost of Sales', '', '') +
        w('-------------', '', '') +
        h.sum(m, lambda i: w(h.at(exp, i), h.cents(g(h.at(exp, i))), '')) +
        w('', '', '--------') + w('', '', '--------') +
        w('Gross Revenues (including interest income)', '',
              h.cents(tot - sales)) +
        w('Expenses', '', '') + w('--------', '', '') +
        w('', '--------', '') +
        w('Total Expenses', h.cents(out - sales), '') +
        w('', '--------', '--------') +
        (w('Net Income', '', '(' + h.cents(-net) + ')') if loss else
         w('Net Income', '', h.cents(net))))
    h.eq('rows', h.over(t, lambda r: w(*r)), wanted)


@contract('C14', [F + 'BalanceSheet._generate_table_',
                  F + 'IncomeStatement._generate_table_'], sym=False,
          samples=400, bounded='ledgers of up to 8 transactions on up to 10 '
          'accounts: the tables list formatted texts in dictionary order')
def statement_tables(h):
    """The tables show each account's balance once and the totals of what
    they list."""
    b = L.ledger(h)
    R = h.mod(L.REP)
    start, end = b.instant('start'), b.instant('end')
    path = L.component(h)
    bs = R.BalanceSheet(b.gl, end)
    assets, liabs, equity = bs._sum_amounts_per_account_()
    t = bs._generate_table_()
    dash = lambda r: all(set(x) <= {'-', ''} for x in r)
    rows = [r for r in t[1:] if not dash(r)]
    h.check('balance-sheet-assets', shows(
        [(r[0], r[1]) for r in rows if r[1] and r[0] != 'Total'],
        list(assets.items())))
    h.check('balance-sheet-liabilities-and-equity', shows(
        [(r[2], r[3]) for r in rows if r[3]],
        list(liabs.items()) + list(equity.items())))
    h.check('balance-sheet-totals', shows(
        [(r[2], r[4]) for r in rows if r[4] and r[2] != 'Total'],
        [('Total liabilities', sum(liabs.values())),
         ("Total owners' equities", sum(equity.values()))]) and shows(
        [(rows[-1][0], rows[-1][1]), (rows[-1][2], rows[-1][4])],
        [('Total', sum(assets.values())),
         ('Total', sum(liabs.values()) + sum(equity.values()))]))
    inc = R.IncomeStatement(b.gl, start, end, path)
    income, expenses = inc._sum_amounts_per_account_()
    t = [r for r in inc._generate_table_()[1:] if not dash(r)]
    net = sum(income.values()) - sum(expenses.values())
    cos = sum(v for k, v in expenses.items()
              if k.startswith('Cost of Sales'))
    h.check('income-statement-debits', shows(
        [(r[0], r[1]) for r in t if r[1]], list(expenses.items()) +
        [('Total Expenses', sum(expenses.values()) - cos)]))
    h.check('income-statement-credits', shows(
        [(r[0], r[2]) for r in t if r[2]], list(income.items()) + [
            ('Gross Revenues (including interest income)',
             sum(income.values()) - cos), ('Net Income', net)]))


def shows(rows, wanted):
    """the printed (name, amount) rows are the wanted ones, in any order"""
    def value(x):
        return -float(x[1:-1]) if x.startswith('(') else float(x)
    a = sorted((k, value(x)) for k, x in rows)
    b = sorted(wanted)
    return len(a) == len(b) and all(
        x[0] == y[0] and abs(x[1] - y[1]) < 0.00501 for x, y in zip(a, b))


@contract('C14', [D + 'GeneralLedger.balance_sheet',
                  D + 'GeneralLedger.income_statement', R + 'Report.render',
                  F + 'BalanceSheet._generate_table_',
                  F + 'IncomeStatement._generate_table_'], sym=False,
          bounded='ledgers of up to 8 transactions, changed once or twice')
def asked_again(h):
    """Statements asked for again show the transactions as they are then."""
    start, end = L.period(h)
    path = L.component(h)
    text = h.mod(RENDER).ReportFormat.string
    L.again(h, lambda gl: [gl.balance_sheet(end, text),
                           gl.income_statement(start, end, text, path)])
