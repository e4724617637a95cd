"""C06: thermochemical functions scale with mass and reject unknowns."""
from contracts import preload
from contracts.c04_heat import MOD, F
from pyvc.harness import contract

preload.need('C06', MOD)

PROPS = ['Cp', 'H', 'S', 'G']
PHASES = ['S', 'L', 'G', 'S1', 'S2', 'G1', 'S1 (alp - delt)', 'L/G', 'aq']


class SomePhase(object):
    """a phase of a compound that obeys the contract phase_gibbs"""

    def __init__(self, s, i):
        self.s, self.i = s, i

    def Cp(self, T):
        return self.s.cp(self.i, T)

    def H(self, T):
        return self.s.h_(self.i, T)

    def S(self, T):
        return self.s.s_(self.i, T)

    def G(self, T):
        return self.s.h_(self.i, T) - T * self.s.s_(self.i, T)


def phase_data(h, i):
    r = h.rng
    return {'DHref': r.uniform(-1e6, 1e5), 'Sref': r.uniform(0, 200),
            'Cp_records': {'2000.0': {
                'Tmin': 298.15, 'Tmax': 2000.0, 'Terms': [
                    {'Coefficient': r.uniform(5, 80), 'Exponent': 0.0},
                    {'Coefficient': r.uniform(0, .05), 'Exponent': 1.0}]}}}


class SomeCompound(object):
    """a compound with any number of phases"""

    def __init__(self, h, mod, formula='SiO2'):
        n = self.n = h.size('phases', hi=5)
        self.names = h.names('phase', n, PHASES, free='[]')
        if h.sym:
            mm = h.real('molar_mass', pos=True)
            h.stub(MOD, 'mm', lambda f: mm)      # contract: C01
            self.cp = h.func('Cp_phase', arity=2)
            self.h_ = h.func('H_phase', arity=2)
            self.s_ = h.func('S_phase', arity=2)
            c = self.compound = mod.Compound({'Formula': formula,
                                              'Phases': {}})
            c._phases = h.map(self.names, n, lambda i: SomePhase(self, i))
            self.phase = lambda i: SomePhase(self, i)
        else:
            d = {k: phase_data(h, i) for i, k in enumerate(self.names)}
            h.log['phases'] = d
            c = self.compound = mod.Compound({'Formula': formula,
                                              'Phases': d})
            self.phase = lambda k: c._phases[k]


class Library(object):
    """any set of loaded compounds, each with any phases"""

    def __init__(self, h, mod):
        self.h, self.mod = h, mod
        if not h.sym:
            self.n = len(mod.compounds)
            self.formulas = sorted(mod.compounds)
            return
        self.n = h.size('compounds')
        self.formulas = h.names('formula', self.n, free='[]')
        self.mm = h.func('molar_mass', pos=True)
        self.known = h.pred('has_phase', arity=2)
        self.f = {k: h.func(k + '_molar', arity=3) for k in ('Cp', 'H', 'S')}
        h.stub(MOD, 'compounds', h.map(self.formulas, self.n,
                                       lambda i: LibraryCompound(self, i)))

    def some(self):
        """-> formula, phase, text of a compound and phase with data"""
        h = self.h
        if h.sym:
            f, i = h.name_in('compound', self.formulas, self.n)
            ph = h.str('wanted', free='[]')
            h.assume(self.known(f, ph))
        else:
            f, i = h.name_in('compound', self.formulas, self.n)
            ph = h.rng.choice(sorted(self.mod.compounds[f]._phases))
            h.log['phase'] = ph
        self.i = f
        return f, ph, f + '[' + ph + ']'

    def molar(self, name, ph, T):
        if self.h.sym:
            return LibraryCompound(self, self.i).value(name, ph, T)
        c = self.mod.compounds[self.i]
        return getattr(c, name)(ph, T)

    def molar_mass(self):
        if self.h.sym:
            return self.mm(self.i)
        return self.mod.compounds[self.i].molar_mass


def celsius(r):
    return r.choice([r.uniform(-120, 25), 25.0, r.uniform(25, 2500)])


class LibraryCompound(object):
    """obeys the contracts compound_values, compound_gibbs"""

    def __init__(self, s, i):
        self.s, self.i = s, i
        self.molar_mass = s.mm(i)
        self.formula = 'X'

    def value(self, name, ph, T):
        f = self.s.f
        if name == 'G':
            return f['H'](self.i, ph, T) - T * f['S'](self.i, ph, T)
        return f[name](self.i, ph, T)

    def get(self, name, ph, T):
        if not self.s.known(self.i, ph):
            raise Exception('no such phase')
        return self.value(name, ph, T)

    def Cp(self, ph, T):
        return self.get('Cp', ph, T)

    def H(self, ph, T):
        return self.get('H', ph, T)

    def S(self, ph, T):
        return self.get('S', ph, T)

    def G(self, ph, T):
        return self.get('G', ph, T)


@contract('C06', [F + 'Cp', F + 'H', F + 'S', F + 'G', F +
                  '_finalise_result_', F + '_split_compound_string_'])
def value_of_a_mass(h):
    mod = h.mod(MOD)
    lib = Library(h, mod)
    f, ph, text = lib.some()
    name = h.choice('property', PROPS)
    T = h.real('T', gen=celsius)
    h.assume(T > -h.const('273.15'))
    m = h.real('mass')
    fn = getattr(mod, name)
    molar = lib.molar(name, ph, T + h.const(273.15))
    perkg = molar / lib.molar_mass() / 3600000
    h.eq('value', fn(text, T, m), perkg * m)
    h.eq('one-kilogram', fn(text, T), perkg)
    k = h.real('factor')
    h.eq('proportional', fn(text, T, k * m), k * fn(text, T, m))


@contract('C06', [F + 'Cp', F + 'H', F + 'S', F + 'G'])
def unknown_is_rejected(h):
    mod = h.mod(MOD)
    lib = Library(h, mod)
    name = h.choice('property', PROPS)
    T = h.real('T', gen=lambda r: r.uniform(25, 2500))
    m = h.real('mass')
    what = h.choice('unknown', ['compound', 'phase', 'no phase given'])
    if what == 'compound':
        f = h.foreign_name('other', lib.formulas, free='[]')
        text = f + '[' + h.str('wanted', free='[]', gen=lambda r: r.choice(
            PHASES)) + ']'
    elif what == 'phase':
        f, i = h.name_in('compound', lib.formulas, lib.n)
        ph = h.str('wanted', free='[]', gen=lambda r: r.choice(
            ['', 'Z', 's1', 'S12', 'L2']))
        if h.sym:
            h.assume(h.not_(lib.known(f, ph)))
        text = f + '[' + ph + ']'
    else:
        text, i = h.name_in('compound', lib.formulas, lib.n)
    e, r = h.call(getattr(mod, name), text, T, m)
    h.check('raises', e is not None, 'a value was returned: %r' % (r,))


@contract('C06', [F + '_split_compound_string_'])
def split(h):
    mod = h.mod(MOD)
    f = h.str('formula', free='[]', gen=lambda r: r.choice(
        ['Fe2O3', 'Al2(SO4)3', 'CuSO4.5H2O', 'C', '']))
    ph = h.str('phase', free='[]', gen=lambda r: r.choice(PHASES + ['']))
    a, b = mod._split_compound_string_(f + '[' + ph + ']')
    h.check('formula', a == f)
    h.check('phase', b == ph)


@contract('C06', [F + 'Compound.Cp', F + 'Compound.H', F + 'Compound.S',
                  F + 'Compound.G'])
def compound_values(h):
    mod = h.mod(MOD)
    c = SomeCompound(h, mod)
    name = h.choice('property', PROPS)
    fn = getattr(c.compound, name)
    T = h.real('T', pos=True, gen=lambda r: r.choice(
        [r.uniform(150, 300), r.uniform(300, 3000)]))
    if h.choice('known', [True, False]):
        ph, i = h.name_in('wanted', c.names, c.n)
        h.eq('value-of-the-phase', fn(ph, T), getattr(c.phase(ph), name)(T))
    else:
        ph = h.foreign_name('other', c.names)
        e, r = h.call(fn, ph, T)
        h.check('unknown-phase-raises', e is not None)


FORMULAS = ['SiO2', 'Fe2O3', 'Al2(SO4)3', 'CuSO4.5H2O', 'U', 'H2']


@contract('C06', [F + 'Compound.__init__', F + 'molar_mass'])
def compound_from_data(h):
    """a compound of up to three phases (with and without a symbol of their
    own)"""
    mod = h.mod(MOD)
    if h.sym:
        mm = h.func('molar_mass', pos=True)
        h.stub(MOD, 'mm', mm)                   # contract: C01
    else:
        mm = mod.mm
    f = h.str('formula', gen=lambda r: r.choice(FORMULAS))
    n = h.choice('phases', [0, 1, 2, 3])
    names = ['S1', 'L', 'G']
    dh = [h.real('DHref%d' % i) for i in range(n)]
    sr = [h.real('Sref%d' % i) for i in range(n)]
    own = h.choice('symbol', [False, True])
    d = {}
    for i in range(n):
        d[names[i]] = {'DHref': dh[i], 'Sref': sr[i], 'Cp_records': {
            '1000.0': {'Tmin': 298.15, 'Tmax': 1000.0, 'Terms': []}}}
        if own:
            d[names[i]]['Symbol'] = names[i]
    c = mod.Compound({'Formula': f, 'Phases': d})
    h.check('formula', c.formula == f)
    h.eq('molar-mass', c.molar_mass * 1000, mm(f))
    h.eq('molar_mass()', mod.molar_mass(f) * 1000, mm(f))
    h.check('phases', c.get_phase_list() == sorted(names[:n]))
    T = h.const(298.15)
    for i in range(n):
        h.eq('enthalpy', c.H(names[i], T), dh[i])
        h.eq('entropy', c.S(names[i], T), sr[i])
        h.check('symbol', c._phases[names[i]].symbol == names[i])
