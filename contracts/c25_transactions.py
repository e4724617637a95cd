"""C25: the transaction list report."""
from contracts import preload, ledger as L
from contracts.c14_statements import selected, in_component
from pyvc.harness import contract

preload.need('C25', L.DES, L.REP, 'auxi.core.reporting')
F = 'auxi/modelling/financial/reporting.py:'
D = 'auxi/modelling/financial/des.py:'
R = 'auxi/core/reporting.py:'
RENDER = 'auxi.core.reporting'


@contract('C25', [F + 'TransactionList._generate_table_',
                  F + '_is_from_component_', F + '_as_date_'])
def transaction_list(h):
    """The rows are the selected transactions, each once, by date; the total
    is the sum of their amounts."""
    b = L.ledger(h)
    start, end = b.instant('start'), b.instant('end')
    path = L.component(h)
    rep = h.mod(L.REP).TransactionList(b.gl, start, end, path)
    is_list(h, b, rep._generate_table_(), start, end, path)


@contract('C25', [D + 'GeneralLedger.transaction_list', R + 'Report.render',
                  F + 'TransactionList._generate_table_',
                  F + '_is_from_component_', F + '_as_date_'],
          note='tabulate: the text it gives is not specified here')
def from_the_ledger(h):
    """What the ledger prints, or gives as text, is the list of the
    transactions of this ledger, period and component."""
    b = L.ledger(h)
    start, end = b.instant('start'), b.instant('end')
    path = L.component(h)
    text = h.force(h.pred('as text')(0))
    formats = h.mod(RENDER).ReportFormat
    tables = L.Tables(h)
    with tables:
        r = b.gl.transaction_list(
            start, end, formats.string if text else formats.printout, path)
    h.check('given', r is None if not text else r == tables.TEXT)
    h.check('printed', tables.printed == ([] if text else [tables.TEXT]))
    is_list(h, b, tables.only(), start, end, path)


def is_list(h, b, t, start, end, path):
    sel = lambda i: selected(h, b, i, start, end, path)
    (head,), rows, (total,) = h.parts(t, 1, 1)
    h.check('total-row', h.same(total[2], 'Total'))
    h.check('total', h.same(total[5], h.two(h.sum(
        b.n, lambda i: h.ite(sel(i), b.amount(i), 0)))))
    # each weight of rows adds up to that of the selected transactions: the
    # rows are these transactions, each once
    w = h.func('weight')

    def expected(i):
        repeats = h.all(b.has_source(i), h.ends(b.source(i), b.name(i)))
        return w(b.date(i), b.raw_source(i), h.ite(repeats, '', b.name(i)),
                 b.dt(i), b.cr(i), h.cents(b.amount(i)), b.description(i))
    h.eq('rows', h.over(rows, lambda r: w(b.day(r[0]), *r[1:])),
         h.sum(b.n, lambda i: h.ite(sel(i), expected(i), 0)))
    h.check('by-date', h.in_order(rows, lambda r: b.day(r[0])))


@contract('C25', [D + 'GeneralLedger.transaction_list', R + 'Report.render',
                  F + 'TransactionList._generate_table_'], sym=False,
          bounded='ledgers of up to 8 transactions, changed once or twice')
def asked_again(h):
    """The list asked for again shows the transactions as they are then."""
    start, end = L.period(h)
    path = L.component(h)
    text = h.mod(RENDER).ReportFormat.string
    L.again(h, lambda gl: gl.transaction_list(start, end, text, path))
