"""C26: the chart of accounts as a report; reports in every format."""
import csv
import os
import shutil
import tempfile

from contracts import preload, ledger as L
from pyvc.harness import contract
from pyvc.rec import SRec

CORE = 'auxi.core.reporting'
preload.need('C26', L.DES, L.REP, CORE)
F = 'auxi/modelling/financial/reporting.py:GeneralLedgerStructure.'
D = 'auxi/modelling/financial/des.py:GeneralLedgerStructure.'
R = 'auxi/core/reporting.py:Report.'


@contract('C26', [F + '_gl_accounts_to_table_'], conc=False)
def branch(h):
    """The rows of an account are its own and, once each, those of its
    members, whose numbers follow its number."""
    des, rep = h.mod(L.DES), h.mod(L.REP)
    cls = rep.GeneralLedgerStructure
    a = des.GeneralLedgerAccount('a')
    a._name, a.description = h.str('name'), h.str('description')
    a.number = h.str('number') if h.choice('number', [0, 1]) else None
    n = h.size('accounts')
    number = h.optional('number of a member')
    a.accounts = h.objects(n, lambda i: SRec(ix=i, number=number(i)))
    r = cls(des.GeneralLedgerStructure('s'))
    one = cls._gl_accounts_to_table_
    h.stub(L.REP, 'GeneralLedgerStructure._gl_accounts_to_table_',
           lambda self, table, account, prefix='': table.append(
               h.list(account.ix, prefix)), ['table', 'account', 'prefix'])
    first = [h.real('a row before'), '']
    t = h.list(first)
    prefix = h.str('prefix') if h.choice('prefix', [0, 1]) else ''
    one(r, t, a, prefix)
    (before, itself), rest, _ = h.parts(t, 2, 0)
    h.check('kept', before is first)
    h.check('row', len(itself) == 4)
    h.check('type', itself[0] == a.account_type.name)
    own = prefix + (a.number or '')
    h.check('number', h.same(itself[1], own))
    h.check('name', h.same(itself[2], a._name))
    h.check('description', h.same(itself[3], a.description))
    w = h.func('weight', arity=2)
    h.eq('members', h.over(rest, lambda x: w(*x)),
         h.sum(n, lambda i: w(i, own + '/')))


@contract('C26', [F + '_generate_table_'], conc=False)
def chart(h):
    """The chart of accounts lists the rows of each category once, those of
    the income statement first."""
    des, rep = h.mod(L.DES), h.mod(L.REP)
    s = des.GeneralLedgerStructure('s')
    n = h.size('categories')
    number = h.texts('number of a category')
    # a fact about texts
    h.assume(h.forall(n, lambda i: h.not_(h.all(
        h.starts(number(i), 'I'), h.starts(number(i), 'B')))))
    s.accounts = h.objects(n, lambda i: SRec(ix=i, number=number(i)))
    r = rep.GeneralLedgerStructure(s)
    h.stub(L.REP, 'GeneralLedgerStructure._gl_accounts_to_table_',
           lambda self, table, account, prefix='': table.append(
               h.list(account.ix, prefix, account.number)),
           ['table', 'account', 'prefix'])
    t = r._generate_table_()
    (head,), rest, _ = h.parts(t, 1, 0)
    h.check('head', head == ['Type', 'Number', 'Name', 'Description'])
    w = h.func('weight', arity=3)
    of = lambda c: h.sum(n, lambda i: h.ite(h.starts(number(i), c), w(
        i, '', number(i)), 0))
    h.eq('categories', h.over(rest, lambda x: w(*x)), of('I') + of('B'))
    h.check('income-first', h.in_order(rest, lambda x: h.ite(
        h.starts(x[2], 'I'), 1, 2)))


class File(object):
    """an output file"""

    def __init__(self, name, mode):
        self.name, self.mode, self.text, self.rows = name, mode, [], []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def write(self, text):
        self.text.append(text)

    def getvalue(self):
        return self


class Output(object):
    """what is printed and written meanwhile"""

    def __init__(self, h):
        self.h, self.mod = h, h.mod(CORE)
        self.printed, self.files, self.buffers = [], [], []
        self.laid_out = []

    def __enter__(self):
        m, h = self.mod, self.h
        self.old = dict(vars(m))
        h.need(all(x in self.old for x in ('tabulate', 'csv', 'StringIO')) and
               not any(x in self.old for x in ('open', 'print')),
               'tabulate, csv, StringIO, open and print')
        m.tabulate = self.tabulate
        m.open, m.print = self.open, self.printed.append
        m.StringIO = lambda: self.buffers.append(File(None, 'w')) or \
            self.buffers[-1]
        m.csv = self

    def __exit__(self, *a):
        for x in ('open', 'print'):
            delattr(self.mod, x)
        for x in ('tabulate', 'csv', 'StringIO'):
            setattr(self.mod, x, self.old[x])

    def tabulate(self, table, headers=(), tablefmt='simple', **more):
        self.laid_out.append((table, headers, tablefmt, more))
        return 'table %d' % len(self.laid_out)

    def open(self, name, mode='r'):
        self.files.append(File(name, mode))
        return self.files[-1]

    def writer(self, f, lineterminator='\r\n'):
        self.h.need(isinstance(f, File) and lineterminator in (
            '\r\n', '\n'), 'a file')
        self.to = f
        return self

    def writerows(self, rows):
        self.to.rows.extend(rows)

    def writerow(self, row):
        self.to.rows.append(row)


@contract('C26', [R + 'render', R + '_render_latex_', R + '_render_txt_',
                  R + '_render_csv_'], conc=False,
          note='tabulate and csv: what they lay out is their contract')
def rendered(h):
    """A report gives, prints or writes its table once, in the format asked
    for, to the file asked for, and nothing else."""
    m = h.mod(CORE)
    tables = [[object(), object()]]

    class Some(m.Report):
        def _generate_table_(self):
            return tables[-1]
    kind = h.choice('format', ['string', 'printout', 'txt', 'latex', 'csv'])
    path = h.str('path') if h.choice('path', [0, 1]) else None
    report = Some(None, path)
    if h.choice('again', [0, 1]):
        # what it reports on has changed since
        with Output(h):
            report.render(getattr(m.ReportFormat, h.choice(
                'format before', ['string', 'printout', 'csv'])))
        tables.append([object(), object()])
    table = tables[-1]
    out = Output(h)
    with out:
        r = report.render(getattr(m.ReportFormat, kind))
    text = 'table 1'
    if kind != 'csv':
        h.check('laid-out', out.laid_out == [(
            table, 'firstrow', 'latex' if kind == 'latex' else 'simple',
            {})])
    to_file = path is not None and kind in ('txt', 'latex', 'csv')
    h.check('given', (r == text) if kind == 'string' else r is None)
    h.check('one-file', len(out.files) == (1 if to_file else 0))
    if to_file:
        f, = out.files
        h.check('opened', f.mode == 'w')
        h.check('file', h.same(f.name, path + {
            'txt': '.txt', 'latex': '.tex', 'csv': '.csv'}[kind]))
        h.check('not-printed', out.printed == [])
    elif kind == 'csv':
        h.check('printed-once', len(out.printed) == 1)
        f = out.printed[0]
        h.check('printed-all', isinstance(f, File) and f in out.buffers)
    if kind == 'csv':
        h.check('rows', f.rows == table and f.text == [])
    elif to_file:
        h.check('text', f.text == [text] and f.rows == [])
    else:
        h.check('printed', out.printed == (
            [] if kind == 'string' else [text]))


# ------------------------------------------------------------------ bounded
def rows_of(a, before=''):
    number = before + (a.number or '')
    yield [a.account_type.name, number, a.name, a.description]
    for c in a.accounts:
        for r in rows_of(c, number + '/'):
            yield r


@contract('C26', [F + '_generate_table_', F + '_gl_accounts_to_table_',
                  D + 'report', R + 'render', R + '_render_latex_',
                  R + '_render_txt_', R + '_render_csv_'], sym=False,
          bounded='charts with up to 12 more accounts')
def chart_in_every_format(h):
    """The chart of accounts has each account once, below its parent and
    with its type; every format has all of the rows."""
    des, m = h.mod(L.DES), h.mod(CORE)
    rng = h.rng
    s = des.GeneralLedgerStructure('s')
    for k in range(rng.randrange(3)):
        s._create_account_('category %d' % k, rng.choice(
            ['I25', 'B60', 'I07', 'B05']), rng.choice(
                sorted(des.AccountType, key=str)))
    every = list(s.accounts)
    for k in range(rng.randrange(13)):
        a = rng.choice(every).create_account(
            'account %d' % k, rng.choice([None, '0010', '0000', '0100', 'B']),
            rng.choice([None, 'some text', 'a, "b"']))
        every.append(a)
        h.log.setdefault('accounts', []).append((a.path, a.number))
    table = h.mod(L.REP).GeneralLedgerStructure(s)._generate_table_()
    wanted = [r for a in s.accounts for r in rows_of(a)]
    key = lambda r: [str(x) for x in r]
    h.check('each-once', sorted(map(key, table[1:])) ==
            sorted(map(key, wanted)))
    level = [r[1].count('/') for r in table[1:]]
    h.check('below-its-parent', all(
        table[1 + i][1].startswith([table[1 + j][1] for j in range(i)
                                    if level[j] < level[i]][-1] + '/')
        for i in range(len(level)) if level[i]))
    words = [str(x) for r in table for x in r[:3] if x]
    folder = tempfile.mkdtemp(prefix='c26-')
    printed = []
    m.print = lambda x: printed.append(x)
    try:
        name = rng.choice(['chart', 'chart.2016', 'v1.0', 'a chart'])
        path = os.path.join(folder, name)
        for kind, ext in (('csv', '.csv'), ('txt', '.txt'),
                          ('latex', '.tex')):
            f = getattr(m.ReportFormat, kind)
            to = rng.random() < 0.5
            if to and rng.random() < 0.5:
                with open(path + ext, 'w') as g:
                    g.write('an old one\n' * 100)
            del printed[:]
            r = s.report(f, path if to else None)
            h.check('nothing-given', r is None)
            h.check('printed-or-written', len(printed) == (0 if to else 1) and
                    os.path.exists(path + ext) == to)
            if to:
                with open(path + ext, newline='') as g:
                    text = g.read()
            else:
                text, = printed
            if kind == 'csv':
                got = [x for x in csv.reader(text.splitlines()) if x]
                h.check('csv', got == [
                    ['' if x is None else x for x in r] for r in table])
            else:
                h.check(kind, shows_all(text, words))
        text = s.report(m.ReportFormat.string)
        h.check('text', shows_all(text, words))
        del printed[:]
        h.check('printed', s.report() is None and printed == [text])
        h.check('no-other-file', set(os.listdir(folder)) <= {
            name + '.csv', name + '.txt', name + '.tex'})
        report = h.mod(L.REP).GeneralLedgerStructure(s)
        report.render(m.ReportFormat.string)
        rng.choice(every).create_account('the last one', '0999')
        h.check('current', 'the last one' in report.render(
            m.ReportFormat.string))
    finally:
        del m.print
        shutil.rmtree(folder)


def shows_all(text, words):
    """the words in this order"""
    at = 0
    for w in words:
        at = text.find(w, at)
        if at < 0:
            return False
        at += len(w)
    return True
