"""C04: enthalpy and entropy are the integrals of the heat capacity."""
from contracts import preload
from pyvc.harness import contract

MOD = 'auxi.tools.chemistry.thermochemistry'
F = 'auxi/tools/chemistry/thermochemistry.py:'
preload.need('C04', MOD)

EXPS = [0.0, 1.0, -1.0, -2.0, 2.0, 3.0, -0.5, 0.5, -3.0, 1.5, 4.0, -1.5,
        0.25, -4.0]


def record(h, mod, tag=''):
    """an arbitrary Cp record -> record, n, coefficients, exponents"""
    n = h.size('terms' + tag, hi=5)
    if h.sym:
        c = h.func('coefficient' + tag)
        e = h.func('exponent' + tag)
    else:
        cs = [h.real('c%s%d' % (tag, i), gen=lambda r: r.uniform(-50, 50))
              for i in range(n)]
        es = [h.real('e%s%d' % (tag, i), gen=lambda r: r.choice(
            EXPS + [r.uniform(-3, 3)])) for i in range(n)]
        c, e = cs.__getitem__, es.__getitem__
    tmin = h.real('Tmin' + tag, pos=True, gen=lambda r: r.choice(
        [298.15, r.uniform(100, 2000)]))
    tmax = h.real('Tmax' + tag, pos=True, gen=lambda r: tmin + r.choice(
        [100.0, r.uniform(1, 3000)]))
    h.assume(tmin < tmax)
    d = {'Tmin': tmin, 'Tmax': tmax, 'Terms': h.objects(
        n, lambda i: {'Coefficient': c(i), 'Exponent': e(i)})}
    return mod.CpRecord(d), n, c, e, tmin, tmax


def temperature(h, name, lo, hi):
    t = h.real(name, pos=True, gen=lambda r: r.uniform(lo, hi))
    h.assume(h.all(lo <= t, t < hi))
    return t


@contract('C04', [F + 'CpRecord.Cp', F + 'CpRecord.__init__'])
def record_heat_capacity(h):
    mod = h.mod(MOD)
    r, n, c, e, tmin, tmax = record(h, mod)
    T = h.real('T', pos=True, gen=lambda r: r.uniform(100, 4000))
    h.eq('sum-of-terms', r.Cp(T), h.sum(n, lambda i: c(i) * h.pow(T, e(i))),
         scale=1.0)
    h.eq('Tmin', r.Tmin, tmin)
    h.eq('Tmax', r.Tmax, tmax)


@contract('C04', [F + 'CpRecord.H'])
def record_enthalpy(h):
    mod = h.mod(MOD)
    r, n, c, e, tmin, tmax = record(h, mod)
    h.eq('zero-at-Tmin', r.H(tmin), 0, scale=1.0)
    T = temperature(h, 'T', tmin, tmax)
    h.close_deriv('dH/dT-is-Cp', h.deriv(r.H, T, hi=tmax), r.Cp(T), scale=1.0)
    T2 = h.real('T2', pos=True, gen=lambda r: tmax + r.uniform(0, 1000))
    h.assume(T2 >= tmax)
    h.eq('constant-above-Tmax', r.H(T2), r.H(tmax), scale=1.0)
    h.eq('continuous-at-Tmax', h.limit(r.H, T, tmax), r.H(tmax), scale=1.0)


@contract('C04', [F + 'CpRecord.S'])
def record_entropy(h):
    mod = h.mod(MOD)
    r, n, c, e, tmin, tmax = record(h, mod)
    h.eq('zero-at-Tmin', r.S(tmin), 0, scale=1.0)
    T = temperature(h, 'T', tmin, tmax)
    h.close_deriv('dS/dT-is-Cp/T', h.deriv(r.S, T, hi=tmax), r.Cp(T) / T,
                  scale=1.0)
    T2 = h.real('T2', pos=True, gen=lambda r: tmax + r.uniform(0, 1000))
    h.assume(T2 >= tmax)
    h.eq('constant-above-Tmax', r.S(T2), r.S(tmax), scale=1.0)
    h.eq('continuous-at-Tmax', h.limit(r.S, T, tmax), r.S(tmax), scale=1.0)


TREF = 298.15
MAGNETIC = [{'Tc': 1043.0, 'beta0': 2.22, 'p': 0.4},
            {'Tc': 633.0, 'beta0': 0.52, 'p': 0.28},
            {'Tc': 311.5, 'beta0': 0.008, 'p': 0.28},
            {'Tc': 1396.0, 'beta0': 1.35, 'p': 0.28},
            {'Tc': 848.0, 'beta0': 44.54, 'p': 0.4}]


def magnetic(h):
    if h.rng.random() < 0.5:
        return h.rng.choice(MAGNETIC)
    return {'Tc': h.rng.uniform(250, 2000), 'beta0': h.rng.uniform(0.01, 50),
            'p': h.rng.choice([0.28, 0.4, 1.0, 2.0, h.rng.uniform(0.1, 2.5)])}


class Record(object):
    """a heat capacity record that obeys the contracts of CpRecord.Cp/H/S"""
    _vc_terms = ("i",)

    def __init__(self, s, i):
        self.s, self.i = s, i

    def Cp(self, T):
        return self.s.cp(self.i, T)

    def H(self, T):
        return self.s.hr(self.i, T)

    def S(self, T):
        return self.s.sr(self.i, T)


class SomePhase(object):
    """a phase with any number of contiguous records from Tref upwards, with
    or without magnetic data"""

    def __init__(self, h, mod):
        self.h = h
        n = self.n = h.size('records', lo=1, hi=4)
        self.magnetic = h.choice('magnetic', [False, True])
        self.dh = h.real('DHref', gen=lambda r: r.uniform(-2e6, 2e5))
        self.s0 = h.real('Sref', gen=lambda r: r.uniform(0, 300))
        t = self.t = h.increasing('Tmax', n, lo=TREF, gen=lambda r: r.choice(
            [500.0, 1000.0, 2000.0, 3000.0, r.uniform(300, 4000)]))
        d = {'Symbol': 'S1', 'DHref': self.dh, 'Sref': self.s0,
             'Cp_records': {}}
        if self.magnetic:
            d['magnetic'] = {k: h.real(k + '_mag', pos=True) for k in (
                'Tc', 'beta0', 'p')} if h.sym else magnetic(h)
        if h.sym:
            self.symbolic(h, mod, d, n, t)
            return
        recs = {}
        for j, k in enumerate(h.rng.sample(range(n), n)):
            c = [h.rng.uniform(-30, 60) for _ in range(h.rng.randrange(4))]
            e = [h.rng.choice([0.0, 1.0, -1.0, -2.0, 2.0, 0.5, -0.5, -3.0])
                 for _ in c]
            f = {0.0: 1.0, 1.0: 1e-3, -1.0: 1e3, -2.0: 1e5, 2.0: 1e-6,
                 0.5: 0.03, -0.5: 30.0, -3.0: 1e7}
            recs[h.rng.choice([str, float])(t[k])] = {
                'Tmin': t[k - 1] if k else TREF, 'Tmax': t[k],
                'Terms': [{'Coefficient': a * f[b], 'Exponent': b}
                          for a, b in zip(c, e)]}
        d['Cp_records'] = recs
        h.log['phase'] = d
        self.phase = mod.Phase(d)
        by = {float(k): v for k, v in recs.items()}
        rs = [mod.CpRecord(by[x]) for x in t]
        self.record = lambda j: rs[j]
        p = self.phase
        self.mag = {k: getattr(p, k) for k in ('Cp_mag', 'H_mag', 'S_mag',
                                               'G_mag')}
        if not self.magnetic:
            self.mag = {k: (lambda T: 0.0) for k in self.mag}

    def symbolic(self, h, mod, d, n, t):
        def const_above(f):
            # record contracts: constant above Tmax, zero at Tmin
            def facts(i, T):
                low = h.ite(i >= 1, h.at(t, i - 1), h.const(TREF))
                return [h.implies(T >= h.at(t, i), h.close(
                    f()(i, T), f()(i, h.at(t, i)))),
                    h.implies(h.close(T, low), h.close(f()(i, T), 0))]
            return facts
        self.cp = h.func('Cp_record', arity=2)
        self.hr = h.func('H_record', arity=2,
                         facts=const_above(lambda: self.hr))
        self.sr = h.func('S_record', arity=2,
                         facts=const_above(lambda: self.sr))
        self.mag = {}
        for k in ('Cp_mag', 'H_mag', 'S_mag', 'G_mag'):
            # contract: magnetic_contributions G-is-H-TS
            f = h.func(k, facts=(lambda T: [h.close(
                self.mag['G_mag'](T), self.mag['H_mag'](T) -
                T * self.mag['S_mag'](T))]) if k == 'H_mag' and self.magnetic
                else None)
            if self.magnetic:
                # contract: magnetic_contributions
                h.stub(MOD, 'Phase.' + k, lambda self, T, f=f: f(T))
                self.mag[k] = f
            else:
                self.mag[k] = lambda T: h.const(0)
        p = self.phase = mod.Phase(d)
        p._Cp_records = h.text_map('order', t, n, lambda i: Record(self, i))
        self.record = lambda j: Record(self, j)

    def lower(self, j):
        """Tmin of record j"""
        if j >= 1:
            return self.h.at(self.t, j - 1)
        return self.h.const(TREF) if self.h.sym else TREF

    def upper(self, j):
        return self.h.at(self.t, j)

    def covered(self, name, j, where=None):
        """a temperature covered by record j"""
        h = self.h
        lo, hi = self.lower(j), self.upper(j)
        if where == 'lower end':
            T = h.real(name, pos=True, gen=lambda r: lo)
            h.assume(h.close(T, lo) if h.sym else T == lo)
            return lo
        T = h.real(name, pos=True, gen=lambda r: r.choice(
            [hi, r.uniform(lo, hi)]))
        h.assume(h.all(lo < T, T <= hi))
        return T


def a_record(h, p):
    j = h.int('record', gen=lambda r: r.randrange(p.n))
    h.assume(h.all(j >= 0, j < p.n))
    return j


@contract('C04', [F + 'Phase.H', F + 'Phase.__init__', F + 'Phase._init'])
def phase_enthalpy(h):
    mod = h.mod(MOD)
    p = SomePhase(h, mod)
    j = a_record(h, p)
    T1 = p.covered('T1', j, h.choice('from', ['inside', 'lower end']))
    T2 = p.covered('T2', j)
    r, m = p.record(j), p.mag['H_mag']
    h.eq('difference-is-the-integral', p.phase.H(T2) - p.phase.H(T1),
         r.H(T2) - r.H(T1) + m(T2) - m(T1), scale=1e3)


@contract('C04', [F + 'Phase.H'])
def phase_enthalpy_above(h):
    mod = h.mod(MOD)
    p = SomePhase(h, mod)
    last = p.upper(p.n - 1)
    T = h.real('T', pos=True, gen=lambda r: last + r.uniform(0, 2000))
    h.assume(T > last)
    m = p.mag['H_mag']
    h.eq('constant-heat-capacity', p.phase.H(T) - p.phase.H(last),
         p.record(p.n - 1).Cp(last) * (T - last) + m(T) - m(last), scale=1e3)


@contract('C04', [F + 'Phase.H', F + 'Phase.S'])
def phase_reference(h):
    mod = h.mod(MOD)
    p = SomePhase(h, mod)
    T = h.const(TREF)
    h.eq('H(Tref)-is-DHref', p.phase.H(T), p.dh + p.mag['H_mag'](T), scale=1)
    h.eq('S(Tref)-is-Sref', p.phase.S(T), p.s0 + p.mag['S_mag'](T), scale=1)
    h.eq('Tref', p.phase.Tref, TREF)


@contract('C04', [F + 'Phase.S'])
def phase_entropy(h):
    mod = h.mod(MOD)
    p = SomePhase(h, mod)
    j = a_record(h, p)
    T1 = p.covered('T1', j, h.choice('from', ['inside', 'lower end']))
    T2 = p.covered('T2', j)
    r, m = p.record(j), p.mag['S_mag']
    h.eq('difference-is-the-integral', p.phase.S(T2) - p.phase.S(T1),
         r.S(T2) - r.S(T1) + m(T2) - m(T1), scale=1)


@contract('C04', [F + 'Phase.S'])
def phase_entropy_above(h):
    mod = h.mod(MOD)
    p = SomePhase(h, mod)
    last = p.upper(p.n - 1)
    T = h.real('T', pos=True, gen=lambda r: last + r.uniform(0, 2000))
    h.assume(T > last)
    m = p.mag['S_mag']
    h.eq('constant-heat-capacity', p.phase.S(T) - p.phase.S(last),
         p.record(p.n - 1).Cp(last) * h.log_(T / last) + m(T) - m(last),
         scale=1)


@contract('C04', [F + 'Phase.Cp'])
def phase_heat_capacity(h):
    mod = h.mod(MOD)
    p = SomePhase(h, mod)
    if h.choice('where', ['covered', 'above']) == 'covered':
        j = a_record(h, p)
        lo, hi = p.lower(j), p.upper(j)
        T = h.real('T', pos=True, gen=lambda r: r.choice(
            [lo, r.uniform(lo, hi)]))
        h.assume(h.all(lo <= T, T < hi))
        h.eq('of-the-record', p.phase.Cp(T), p.record(j).Cp(T) +
             p.mag['Cp_mag'](T), scale=1)
    else:
        last = p.upper(p.n - 1)
        T = h.real('T', pos=True, gen=lambda r: last + r.choice(
            [0, r.uniform(0, 2000)]))
        h.assume(T >= last)
        h.eq('last-value', p.phase.Cp(T), p.record(p.n - 1).Cp(last) +
             p.mag['Cp_mag'](T), scale=1)


@contract('C04', [F + 'Phase.Cp_mag', F + 'Phase.H_mag', F + 'Phase.S_mag',
                  F + 'Phase.G_mag', F + 'Phase._init'])
def magnetic_contributions(h):
    """the magnetic contributions obey the same relations, below the critical
    temperature, above it and across it"""
    mod = h.mod(MOD)
    m = {k: h.real(k, pos=True) for k in ('Tc', 'beta0', 'p')} if h.sym \
        else magnetic(h)
    if not h.sym:
        h.log['magnetic'] = m
    p = mod.Phase({'Symbol': 'S1', 'DHref': 0.0, 'Sref': 0.0,
                   'magnetic': m, 'Cp_records': {}})
    # D_mag = 0 at p = 2.69...
    h.assume(m['p'] < h.const('2.69'))
    tc = m['Tc']
    side = h.choice('side', ['below', 'above', 'at'])
    if side == 'at':
        T = tc
    else:
        T = h.real('T', pos=True, gen=lambda r: tc * (
            r.uniform(0.1, 1) if side == 'below' else r.uniform(1, 4)))
        h.assume(T < tc if side == 'below' else T > tc)
    h.eq('G-is-H-TS', p.G_mag(T), p.H_mag(T) - T * p.S_mag(T), scale=1)
    if side == 'at':
        return
    for f in (p.H_mag, p.S_mag, p.G_mag):
        h.eq('continuous-at-Tc', h.limit(f, T, tc), f(tc), scale=1)
    lo, hi = (None, tc) if side == 'below' else (tc, None)
    h.close_deriv('dH/dT-is-Cp', h.deriv(p.H_mag, T, lo=lo, hi=hi),
                  p.Cp_mag(T), scale=1e-2)
    h.close_deriv('dS/dT-is-Cp/T', h.deriv(p.S_mag, T, lo=lo, hi=hi),
                  p.Cp_mag(T) / T, scale=1e-4)


DATA = [[500.0], ['1200.0', '500'], ['700.0', 500, '1200.00']]


@contract('C04', [F + 'Phase.__init__', F + 'Phase.Cp', F + 'Phase.H',
                  F + 'Phase.S'])
def phase_from_data(h):
    """a phase built from a data dictionary whose records have one term c*T
    (one to three records, listed in any order, limits as text or numbers)"""
    mod = h.mod(MOD)
    keys = h.choice('limits', DATA)
    lim = sorted(float(k) for k in keys)
    low = dict(zip(lim, [TREF] + lim))
    low = {k: h.const(v) for k, v in low.items()}
    c = {k: h.real('c%d' % i, gen=lambda r: r.uniform(0.01, 1))
         for i, k in enumerate(lim)}
    p = mod.Phase({
        'Symbol': 'S1', 'DHref': h.real('DHref', gen=lambda r: r.uniform(
            -1e5, 1e5)), 'Sref': h.real('Sref', gen=lambda r: r.uniform(
                0, 300)),
        'Cp_records': {k: {'Tmin': low[float(k)], 'Tmax': float(k), 'Terms': [
            {'Coefficient': c[float(k)], 'Exponent': 1.0}]} for k in keys}})
    i = h.choice('record', list(range(3)))
    if i >= len(lim):
        return
    hi = lim[i]
    lo = low[hi]
    T = h.real('T', pos=True, gen=lambda r: r.uniform(lo, hi))
    h.assume(h.all(lo <= T, T < hi))
    h.eq('Cp', p.Cp(T), c[hi] * T, scale=1)
    H, S = p.DHref, p.Sref
    for k in lim[:i]:
        H = H + c[k] * (h.const(k) ** 2 - low[k] * low[k]) / 2
        S = S + c[k] * (k - low[k])
    h.eq('H', p.H(T), H + c[hi] * (T * T - lo * lo) / 2, scale=1)
    h.eq('S', p.S(T), S + c[hi] * (T - lo), scale=1)


@contract('C04', [F + 'load_data_auxi'], samples=1, sym=False,
          bounded='the 115 phases of the library shipped with the package')
def shipped_library(h):
    """the precondition of the contracts above (contiguous records from Tref
    upwards) holds for the data that is loaded by default"""
    mod = h.mod(MOD)
    h.check('not-empty', len(mod.compounds) >= 50)
    for f, c in sorted(mod.compounds.items()):
        h.check('formula', c.formula == f, f)
        for k, p in sorted(c._phases.items()):
            lo = TREF
            h.check('has-records', p._Cp_records, '%s[%s]' % (f, k))
            for x in sorted(float(x) for x in p._Cp_records):
                r = p._Cp_records[str(x)]
                h.check('contiguous', abs(r.Tmin - lo) < 1e-6 and
                        r.Tmax == x > lo, '%s[%s]: %r' % (f, k, x))
                lo = x
            h.eq('H(Tref)', p.H(TREF), p.DHref, scale=1)
            h.eq('S(Tref)', p.S(TREF), p.Sref, scale=1)
