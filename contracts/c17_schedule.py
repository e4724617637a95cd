"""C17: when activities run."""
import datetime

from contracts import preload, ledger as L
from pyvc.harness import contract
from pyvc.rec import SRec

TIME = 'auxi.core.time'
STR = 'auxi.modelling.business.structure'
BASIC = 'auxi.modelling.business.basic'
MODELS = 'auxi.modelling.business.models'
preload.need('C17', TIME, STR, BASIC, MODELS, L.DES)
F = 'auxi/modelling/business/structure.py:'
T = 'auxi/core/time.py:Clock.'
M = 'auxi/modelling/business/models.py:TimeBasedModel.'
MIN, MAX = datetime.datetime.min, datetime.datetime.max


class SymDates(SRec):
    """a clock whose periods begin at any dates"""

    def __init__(self, h, tag=''):
        self.h = h
        self.count = h.int(tag + 'periods', lo=0)
        self.date = h.func(tag + 'date of period')
        self.now, self.timestep_ix = h.real('now'), h.int('period', lo=0)
        if tag:
            return

        class D(object):
            min, max = h.real('first of all dates'), h.real('last of all')
        for m in (STR, BASIC):
            h.stub(m, 'datetime', D)
        self.min, self.max = D.min, D.max

    def get_datetime_at_period_ix(self, i):
        return self.date(i)

    def get_datetime(self):
        return self.now

    def any_date(self, label):
        return self.h.real(label)


class RealDates(object):
    def __init__(self, h, tag=''):
        self.h = h
        tm = h.mod(TIME)
        self.count = h.rng.randrange(9)
        unit = h.rng.choice(['month', 'day', 'year', 'week', 'hour'])
        ix = h.int(tag + 'period', lo=0, gen=lambda r: r.randrange(
            120 if r.random() < .3 else 9))
        h.assume(ix < 100000)
        if ix > 200:
            unit = 'day'
        self.clock = tm.Clock(
            'c', start_datetime=datetime.datetime(2016, h.rng.randrange(1, 4),
                                                  h.rng.choice([1, 15])),
            timestep_period_duration=tm.TimePeriod[unit])
        self.get_datetime_at_period_ix = self.date = \
            self.clock.get_datetime_at_period_ix
        self.timestep_ix = ix
        self.now = self.date(self.timestep_ix)
        self.min, self.max = MIN, MAX
        h.log[tag + 'clock'] = [unit, self.count, str(self.clock.start_datetime),
                          self.timestep_ix]

    def get_datetime(self):
        return self.now

    def any_date(self, label):
        r = self.h.rng
        d = self.date(r.randrange(-2, 11)) + datetime.timedelta(
            days=r.choice([0, 0, 1, 3]))
        d = r.choice([d, d, d, MIN, MAX])
        self.h.log[label] = str(d)
        return d


def dates(h, tag=''):
    return SymDates(h, tag) if h.sym else RealDates(h, tag)


def fits(h, a, b):
    return h.close(a, b) if h.sym else a == b


def later(h, a, b):
    return h.lt(b, a) if h.sym else a > b


def start_is(h, d, s, start):
    """s is the period the date `start` asks for"""
    n, date = d.count, d.date
    none = h.forall(n, lambda i: h.not_(later(h, date(i), start)))
    at_last = h.all(h.lt(0, n), fits(h, date(n - 1), start))
    early = fits(h, start, d.min)
    h.check('from-the-beginning', h.implies(early, h.same(s, 0)))
    rest = h.not_(early)
    h.check('start-in-run', h.implies(h.all(rest, h.not_(none)), h.all(
        h.le(0, s), h.lt(s, n))))
    h.check('starts-after', h.implies(
        h.all(rest, h.not_(none)), later(h, date(s), start)))
    h.check('first-of-these', h.implies(h.all(rest, h.not_(none)), h.forall(
        s, lambda i: h.not_(later(h, date(i), start)))))
    h.check('in-last-period', h.implies(h.all(rest, none, at_last), h.same(
        s, n - 1)))
    h.check('after-the-run', h.implies(
        h.all(rest, none, h.not_(at_last)), h.same(s, n)))


def activity(h, d, start, end, interval=1):
    return h.mod(STR).Activity('activity', start=start, end=end,
                               interval=interval)


PREP = F + 'Activity.prepare_to_run'


@contract('C17', [PREP, F + 'Activity.__init__'])
def starts(h):
    """An activity starts in the first period that begins after its start
    date."""
    d = dates(h)
    start = d.any_date('start')
    a = activity(h, d, start, d.max)
    a.prepare_to_run(d, d.count)
    start_is(h, d, a.start_period_ix, start)
    h.eq('to-the-end', a.end_period_ix, a.start_period_ix + d.count)


@contract('C17', [PREP])
def starts_by_index(h):
    """A start or a number of periods that has been set is kept."""
    d = dates(h)
    a = activity(h, d, d.any_date('start'), d.any_date('end'))
    s, c = h.int('start period', lo=0), h.int('own periods', lo=0)
    a.start_period_ix, a.period_count = s, c
    a.prepare_to_run(d, d.count)
    h.eq('start', a.start_period_ix, s)
    h.eq('periods', a.period_count, c)
    h.eq('end', a.end_period_ix, s + c)


@contract('C17', [PREP])
def repeats(h):
    """An activity with a number of periods ends after that many periods."""
    d = dates(h)
    start = d.any_date('start')
    a = activity(h, d, start, d.any_date('end'))
    c = h.int('own periods', lo=0)
    a.period_count = c
    a.prepare_to_run(d, d.count)
    start_is(h, d, a.start_period_ix, start)
    h.eq('end', a.end_period_ix, a.start_period_ix + c)


@contract('C17', [PREP])
def ends(h):
    """An activity ends before the first period that begins after its end
    date, and never before its start."""
    d = dates(h)
    end = d.any_date('end')
    s = h.int('start period', lo=0)
    a = activity(h, d, d.any_date('start'), end)
    a.start_period_ix = s
    a.prepare_to_run(d, d.count)
    h.eq('start', a.start_period_ix, s)
    e, n, date = a.end_period_ix, d.count, d.date
    open_ = h.any(fits(h, end, d.max), h.forall(
        n, lambda i: h.not_(later(h, date(i), end))))
    h.check('open-end', h.implies(open_, h.same(e, s + n)))
    dated = h.not_(open_)
    h.check('not-before-start', h.implies(dated, h.le(s, e)))
    p = h.int('some period', lo=0)
    # the periods of an activity: from its start to before its end
    active = h.all(h.le(s, p), h.lt(p, e))
    h.check('no-period-after-end', h.implies(
        h.all(dated, active), h.all(h.lt(p, n), h.not_(later(
            h, date(p), end)))))
    if h.sym:
        # the dates of the periods of a clock increase
        h.assume(h.forall(n, lambda i: h.implies(
            h.le(i, p), h.le(date(i), date(p)))))
    h.check('every-period-before-end', h.implies(
        h.all(dated, h.le(s, p), h.lt(p, n), h.not_(later(h, date(p), end))),
        active))


@contract('C17', [PREP], samples=400)
def runs_again(h):
    """An activity that ran before - by another clock, for another number of
    periods, with other settings - runs like a new one."""
    d = dates(h)
    former = dates(h, 'former ')
    set_ = h.choice('set', ['dates', 'start period', 'periods'])
    settings = [d.any_date('start'), d.any_date('end')]
    old = [d.any_date('former start'), d.any_date('former end')]
    # (start and end apart where proved, together in the run-time cases)
    vary = h.choice('vary', [0, 1] if h.sym else [0, 1, 2, 3])
    if vary < 2:
        settings[vary] = old[vary] = (d.min, d.max)[vary]
    elif vary == 2:
        old = list(settings)
    a, b = (activity(h, d, *x) for x in (old, settings))
    late = h.choice('set after the former run', [0, 1])
    s = h.int('own value', lo=0)

    def given(x):
        if set_ == 'start period':
            x.start_period_ix = s
        elif set_ == 'periods':
            x.period_count = s
    if not late:
        given(a)
    a.prepare_to_run(former, former.count)
    if late:
        # (a value equal to the one found for the former run may be
        # taken for that one)
        h.assume(h.not_(h.any(h.same(a.start_period_ix, s),
                              h.same(a.period_count, s))))
        given(a)
    a.start_datetime, a.end_datetime = settings
    given(b)
    a.prepare_to_run(d, d.count)
    b.prepare_to_run(d, d.count)
    h.eq('start', a.start_period_ix, b.start_period_ix)
    h.eq('end', a.end_period_ix, b.end_period_ix)


class Ledger(object):
    def __init__(self):
        self.seen = []

    def create_transaction(self, name, description=None, tx_date=None,
                           dt_account=None, cr_account=None, source=None,
                           amount=0.0):
        self.seen.append((name, dict(
            description=description, tx_date=tx_date, dt_account=dt_account,
            cr_account=cr_account, source=source, amount=amount)))


def ready(h, d, a):
    a.start_period_ix = h.int('start period', lo=0)
    a.end_period_ix = h.int('end period', lo=0)
    if h.choice('number of periods was set', [False, True]):
        a.period_count = a.end_period_ix - a.start_period_ix
        h.assume(h.le(0, a.period_count))
    ix = d.timestep_ix
    a.interval = k = h.int('interval', lo=0, gen=lambda r: r.choice(
        [r.randrange(4), r.randrange(4), ix + 1, (ix + 1) // 2, 12, 13,
         r.randrange(100)]))
    return h.all(
        h.le(a.start_period_ix, ix), h.le(ix + k, a.end_period_ix),
        h.any(h.same(k, 0), h.same((ix + 1) % h.ite(h.same(k, 0), 1, k), 0)))


@contract('C17', [F + 'Activity._meet_execution_criteria'])
def criteria(h):
    """An activity is due in every interval-th period between start and
    end."""
    d = dates(h)
    a = activity(h, d, d.min, d.max)
    due = ready(h, d, a)
    h.check('due', h.iff(a._meet_execution_criteria(d.timestep_ix), due))


@contract('C17', ['auxi/modelling/business/basic.py:BasicActivity.run',
                  'auxi/modelling/business/basic.py:'
                  'BasicActivity._meet_execution_criteria'])
def runs(h):
    """A basic activity books its amount once when it is due."""
    d = dates(h)
    x = h.real('amount', gen=lambda r: r.choice([0, -1.0, 5.0, 7.5]))
    dt, cr = (h.str(s, gen=lambda r, s=s: s, nonempty=True)
              for s in ('debit', 'credit'))
    text = h.choice('description', [None, 'text'])
    a = h.mod(BASIC).BasicActivity('activity', dt, cr, amount=x, start=d.min,
                                   end=d.max, description=text)
    a.set_parent_path(h.str('path', gen=lambda r: 'model/entity'))
    due = h.all(ready(h, d, a), h.lt(0, x))
    gl = Ledger()
    a.run(d, gl)
    if not h.force(due):
        h.check('not-due', len(gl.seen) == 0)
        return
    h.check('once', len(gl.seen) == 1)
    name, k = gl.seen[0]
    h.check('name', h.same(name, 'activity' if text is None else text))
    h.eq('amount', k['amount'], x)
    h.check('accounts', h.all(h.same(k['dt_account'], dt),
                              h.same(k['cr_account'], cr)))
    h.check('dated', fits(h, k['tx_date'], d.now))
    h.check('source', h.same(k['source'], a.path))
    h.check('referenced', [str(y) if not h.sym else y
                           for y in a.get_referenced_accounts()] == [dt, cr])


# the length of a period and how it is added to a date
UNITS = dict(
    millisecond=('timedelta', 'milliseconds', 1),
    second=('timedelta', 'seconds', 1), minute=('timedelta', 'minutes', 1),
    hour=('timedelta', 'hours', 1), day=('relativedelta', 'days', 1),
    week=('relativedelta', 'days', 7), month=('relativedelta', 'months', 1),
    year=('relativedelta', 'years', 1))
SECONDS = dict(millisecond=0.001, second=1, minute=60, hour=3600, day=86400,
               week=7 * 86400)


@contract('C17', [T + x for x in ('__init__', 'tick', 'reset', 'get_datetime',
                                  'get_datetime_at_period_ix')], samples=300)
def clock(h):
    """Period i begins i units after the start of the clock."""
    tm = h.mod(TIME)
    unit = h.choice('unit', sorted(UNITS))
    if h.sym:
        # seconds since the start, or for months and years an unknown
        # function of start and number
        def span(kind):
            class Span(object):
                def __init__(self, **k):
                    (self.unit, self.n), = k.items()

                def __radd__(self, t):
                    size = SECONDS.get(self.unit[:-1])
                    if self.unit == 'milliseconds' and kind != 'timedelta':
                        size = None
                    if size is not None:
                        return t + h.const(str(size)) * self.n
                    return h.func('add ' + self.unit, arity=2)(t, self.n)
            return Span
        for x in ('timedelta', 'relativedelta'):
            h.stub(TIME, x, span(x))
        start = h.real('start')
        i, j = h.int('period'), h.int('other', lo=0)

        def at(k):
            if unit in SECONDS:
                return start + h.const(str(SECONDS[unit])) * k
            return h.func('add %ss' % unit, arity=2)(start, k)
    else:
        start = datetime.datetime(2016, h.rng.randrange(1, 13),
                                  h.rng.randrange(1, 32) % 28 + 1,
                                  h.rng.randrange(24))
        i, j = h.rng.randrange(-20, 50), h.rng.randrange(20)

        def at(k):
            if unit == 'month':
                m = start.month - 1 + k
                return start.replace(year=start.year + m // 12,
                                     month=m % 12 + 1)
            if unit == 'year':
                return start.replace(year=start.year + k)
            return start + k * datetime.timedelta(seconds=SECONDS[unit])
    c = tm.Clock('clock', start_datetime=start,
                 timestep_period_duration=tm.TimePeriod[unit])
    h.check('at-index', fits(h, c.get_datetime_at_period_ix(i), at(i)))
    h.check('first', h.same(c.timestep_ix, 0))
    c.timestep_ix = j
    h.check('now', fits(h, c.get_datetime(), at(j)))
    c.tick()
    h.eq('tick', c.timestep_ix, j + 1)
    h.check('next', fits(h, c.get_datetime(), at(j + 1)))
    c.reset()
    h.eq('reset', c.timestep_ix, 0)
    h.check('start-again', fits(h, c.get_datetime(), at(0)))



class Log(object):
    """records which of any number of parts has been asked for what, when"""

    def __init__(self, h, clock):
        self.h, self.clock = h, clock
        clock.calls = self.calls = h.list()

    def parts(self, label, kind):
        """parts that may be prepared and run"""
        h = self.h
        n = h.size(label)

        def call(part, what, clock, x):
            clock.calls.append(record(
                h, kind=kind, ix=part.ix, what=what, at=clock.timestep_ix,
                arg=x))

        def prepare_to_run(part, clock, count):
            call(part, 1, clock, count)

        def run(part, clock, gl=None):
            call(part, 2, clock, 0 if gl is None else gl)

        class Part(SRec):
            pass
        Part.prepare_to_run, Part.run = prepare_to_run, run
        if h.sym:
            return n, h.objects(n, lambda i: Part(ix=i))
        return n, [Part(ix=i) for i in range(n)]

    def times(self, kind, i, what, at=None, arg=None):
        """how often part i of a kind was asked for something"""
        h = self.h

        def one(c):
            return h.ite(h.all(
                h.same(c.kind, kind), h.same(c.ix, i), h.same(c.what, what),
                True if at is None else h.same(c.at, at),
                True if arg is None else h.same(c.arg, arg)), 1, 0)
        return h.over(self.clock.calls, one)


def record(h, **k):
    return SRec(**k)


@contract('C17', [M + 'run', M + 'prepare_to_run'])
def model(h):
    """A model prepares every entity once, runs every entity once in every
    period and ticks its clock once per period."""
    md = h.mod(MODELS)
    m = md.TimeBasedModel('model', period_count=0)
    m.period_count = h.int('periods', lo=0, gen=lambda r: r.randrange(5))
    m.clock.timestep_ix = h.int('clock', lo=0)
    log = Log(h, m.clock)
    n, m.entities = log.parts('entities', 1)
    m.run()
    h.eq('clock', m.clock.timestep_ix, m.period_count)
    i, p = h.index('entity', n), h.int('period', lo=0)
    h.eq('prepared', log.times(1, i, 1, 0, m.period_count), 1)
    h.eq('prepared-once', log.times(1, i, 1), 1)
    h.eq('run-in-period', log.times(1, i, 2, p), h.ite(
        h.lt(p, m.period_count), 1, 0))


@contract('C17', [F + 'Component.run', F + 'Component.prepare_to_run'])
def component(h):
    """A component hands on every request to each of its parts once."""
    st = h.mod(STR)
    clock = record(h, timestep_ix=h.int('period', lo=0))
    log = Log(h, clock)
    c = st.Component('component', None)
    n1, c.components = log.parts('components', 1)
    n2, c.activities = log.parts('activities', 2)
    count, gl = h.int('periods', lo=0), h.int('ledger')
    what = h.choice('request', [1, 2])
    if what == 1:
        c.prepare_to_run(clock, count)
    else:
        c.run(clock, gl)
    arg = count if what == 1 else gl
    i, j = h.index('some component', n1), h.index('some activity', n2)
    at = clock.timestep_ix
    h.eq('component', log.times(1, i, what, at, arg), 1)
    h.eq('activity', log.times(2, j, what, at, arg), 1)
    h.eq('component-once', log.times(1, i, what), 1)
    h.eq('activity-once', log.times(2, j, what), 1)
    h.eq('nothing-else', log.times(1, i, 3 - what) + log.times(
        2, j, 3 - what), 0)


@contract('C17', [F + 'Entity.run', F + 'Entity.prepare_to_run'])
def entity(h):
    """An entity prepares every component, forgets earlier transactions, and
    runs every component once in each of its periods, then the year end."""
    st, des = h.mod(STR), h.mod(L.DES)
    d = dates(h)
    log = Log(h, d)
    e = st.Entity('entity', None)
    n, e.components = log.parts('components', 1)
    e.gl.transactions = h.list()
    e.gl.transactions.append(record(h, amount=1))
    at = d.timestep_ix
    if h.sym:
        class Span(object):
            def __init__(self, **k):
                self.f = h.func('after %r' % k)

            def __radd__(self, t):
                return self.f(t)
        h.stub(STR, 'relativedelta', Span)
        d.start_datetime = h.real('start')
        year = Span(years=1).f(d.start_datetime)
    else:
        d.start_datetime = d.clock.start_datetime
        year = d.start_datetime.replace(year=d.start_datetime.year + 1)
    e.prepare_to_run(d, d.count)
    h.eq('periods', e.period_count, d.count)
    h.check('ledger-empty', len(e.gl.transactions) == 0)
    h.check('year', h.all(
        fits(h, e._prev_year_end_datetime, d.start_datetime),
        fits(h, e._curr_year_end_datetime, year),
        fits(h, e._exec_year_end_datetime, d.date(d.count))))
    i = h.index('some component', n)
    h.eq('prepared', log.times(1, i, 1, at, d.count), 1)
    ends = []
    name = '_perform_year_end_procedure'
    h.need(hasattr(e, name), 'no ' + name)
    if h.sym:
        h.stub(STR, 'Entity.' + name, lambda self, c: ends.append(
            (c, log.times(1, i, 2))), ('clock',))
        e.gl = 7
    else:
        setattr(e, name, lambda c: ends.append((c, log.times(1, i, 2))))
    e.run(d)
    inside = h.lt(at, d.count)
    h.eq('run', log.times(1, i, 2, at), h.ite(inside, 1, 0))
    h.eq('prepared-once', log.times(1, i, 1), 1)
    if h.force(inside):
        h.check('year-end', len(ends) == 1 and ends[0][0] is d)
        h.eq('year-end-last', ends[0][1], 1)
        if h.sym:
            h.eq('ledger', log.times(1, i, 2, at, 7), 1)
    else:
        h.check('no-year-end', len(ends) == 0)
