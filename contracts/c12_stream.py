"""C12: mass and enthalpy flow balance of thermo streams."""
import os
import shutil

from contracts import preload, thermo_pkg

preload.need('C12', thermo_pkg.MOD)
thermo_pkg.register(thermo_pkg.Flavour(
    prop='C12', cls='MaterialStream', masses='_compound_mfrs',
    mass='mfr', H='Hfr', calc_H='_calculate_Hfr', create='create_stream',
    part='get_compound_mfr', parts='get_compound_mfrs', total='mfr',
    amount='get_compound_afr', amounts='get_compound_afrs',
    total_amount='afr', element='get_element_mfr',
    elements='get_element_mfrs', element_dict='get_element_mfr_dictionary'))


# --- coal -------------------------------------------------------------------
from contracts import pkg                                        # noqa: E402
from pyvc.harness import contract                                # noqa: E402

MOD, TC, ST = thermo_pkg.MOD, thermo_pkg.TC, thermo_pkg.ST
COALS = 'auxi.tools.materialphysicalproperties.coals'
F = thermo_pkg.FILE + 'MaterialStream.'
DAF, ASH, table = thermo_pkg.DAF, thermo_pkg.ASH, thermo_pkg.table
SYMBOLS = 'CHONS'


class World(object):
    """symbolic: any enthalpies h(compound, T), any element mass fractions,
    any enthalpy of dry ash-free coal daf(T, composition) and a solver that
    finds the temperature"""

    def __init__(self, h, names, n):
        self.h, self.names, self.n = h, names, n
        self.g = thermo_pkg.hh(h)
        if not h.sym:
            st = h.mod(ST)
            self.emf = st.element_mass_fraction
            self.cc = lambda s, t, e: st.convert_compound(1.0, s, t, e)
            model = h.mod(COALS).DafHTy()
            self.daf = lambda T, *y: model.calculate(T=T, **dict(zip(
                ['y_C', 'y_H', 'y_O', 'y_N', 'y_S'], y)))
            return
        self.emf = h.func('element_mass_fraction', nonneg=True, arity=2)
        self.cc = h.func('converted', nonneg=True, arity=3)
        self.daf = h.func('daf_enthalpy', arity=6)
        g, cc, daf, emf = self.g, self.cc, self.daf, self.emf
        h.stub(TC, 'H', lambda compound_string, T, mass=1.0:
               mass * g(compound_string, T))
        h.stub(ST, 'element_mass_fraction',
               lambda c, e: emf(c, e))
        h.stub(MOD, 'cc', lambda mass, source, target, element:
               mass * cc(source, target, element))
        h.stub(COALS, 'DafHTy.calculate', lambda self, T, y_C, y_H, y_O, y_N,
               y_S: daf(T, y_C, y_H, y_O, y_N, y_S))

    def element(self, i):
        """the conditions that compound i counts as C, H, O, N, S"""
        h = self.h
        c = h.at(self.names, i)
        c = h.before(c, '[') if h.sym else c.split('[')[0]
        r, before = [], []
        for e in SYMBOLS:
            x = h.close(self.emf(c, e), 1.0)
            r.append(h.all(x, *[h.not_(b) for b in before]))
            before.append(x)
        return r

    def daf_masses(self, v):
        h = self.h
        return [h.sum(self.n, lambda i, e=e: h.ite(
            self.element(i)[e], h.at(v, i), h.const(0)))
            for e in range(len(SYMBOLS))]

    def formation(self, v, HHV):
        """[kWh/kg] by the contract of _calculate_DH298_coal"""
        h, g, cc = self.h, self.g, self.cc
        m = self.daf_masses(v)
        M = m[0] + m[1] + m[2] + m[3] + m[4]
        out = (g('CO2[G]', 25) * m[0] * cc('C', 'CO2', 'C') +
               g('H2O[L]', 25) * m[1] * cc('H', 'H2O', 'H') +
               g('O2[G]', 25) * m[2] + g('N2[G]', 25) * m[3] +
               g('SO2[G]', 25) * m[4] * cc('S', 'SO2', 'S')) / M
        if HHV is None:
            return out * 2 - h.sum(self.n, lambda i: h.ite(
                h.any(*self.element(i)),
                h.at(v, i) * g(h.at(self.names, i), 25), h.const(0))) / M
        mfr = h.sum(self.n, lambda i: h.at(v, i))
        return HHV / 3.6 * mfr / M + out

    def enthalpy(self, v, T, formation):
        """[kWh/h] by the contract of _calculate_Hfr_coal"""
        h = self.h
        m = self.daf_masses(v)
        M = m[0] + m[1] + m[2] + m[3] + m[4]
        y = [x / M for x in m]
        ash = h.sum(self.n, lambda i: h.ite(
            h.any(*self.element(i)), h.const(0),
            h.at(v, i) * self.g(h.at(self.names, i), T)))
        return ash + M * (formation + self.daf(T + 273.15, *y) / 3.6e6 -
                          self.daf(298.15, *y) / 3.6e6)

    def opaque(self, s, T):
        """[kWh/h] the enthalpy depends on these only"""
        h = self.h
        v = s._compound_mfrs
        HHV = s.HHV
        f = h.func('enthalpy %s HHV' % ('without' if HHV is None else
                                        'with a'), arity=10)
        both = [h.sum(self.n, lambda i: h.ite(
            h.any(*self.element(i)), h.const(0),
            h.at(v, i) * self.g(h.at(self.names, i), t))) for t in (T, 25)]
        return f(T, *(self.daf_masses(v) + both + [
            h.sum(self.n, lambda i: h.at(v, i)),
            h.const(0) if HHV is None else HHV]))

    def by_contract(self, opaque=False):
        """the callers of the coal methods see their contracts"""
        h, w = self.h, self
        if not h.sym:
            return
        h.stub(MOD, 'MaterialStream._calculate_DH298_coal',
               lambda s: None if opaque else w.formation(
                   s._compound_mfrs, s.HHV))
        h.stub(MOD, 'MaterialStream._calculate_Hfr_coal',
               lambda s, T: w.opaque(s, T) if opaque else w.enthalpy(
                   s._compound_mfrs, T, s._DH298))
        k = [0]

        def solve(self, H):
            k[0] += 1
            T = h.real('solved_T%d' % k[0])
            h.assume(h.close(self._calculate_Hfr(T), H))
            return T
        h.stub(MOD, 'MaterialStream._calculate_T', solve)


class CoalStream(object):
    def __init__(self, h, w, mod, tag, m, given=False):
        self.h, self.w = h, w
        n = w.n
        self.v = h.vec('mfr_' + tag, n, pos=True, kind='np')
        self.T = h.real('T_' + tag, lo=25.0, hi=1500.0)
        self.P = h.real('P_' + tag, pos=True)
        self.HHV = h.real('HHV_' + tag, lo=10.0, hi=40.0) \
            if given or h.choice('HHV of ' + tag, [0, 1]) else None
        self.mfr = h.sum(n, lambda i: h.at(self.v, i))
        daf = w.daf_masses(self.v)
        self.daf = daf[0] + daf[1] + daf[2] + daf[3] + daf[4]
        h.assume(self.daf > 0.0)
        self.p = mod.MaterialStream(m, self.v.copy(), self.P, self.T, True,
                                    self.HHV)

    def f(self, i):
        return self.h.at(self.v, i)


def coal(h, callers=True, opaque=False, given=False):
    mod = h.mod(MOD)
    if h.sym:
        n = h.size('n', lo=1)
        names = h.names('compound', n)
    else:
        names = DAF + h.rng.sample(ASH, h.rng.randrange(len(ASH)))
        h.rng.shuffle(names)
        n = len(names)
        h.log['compounds'] = names
    w = World(h, names, n)
    if callers:
        w.by_contract(opaque)
    m = thermo_pkg.material(h, mod, 'coal', names, [
        pkg.some_assay(h, 'a', n, 'np')])
    return mod, n, names, m, w, CoalStream(
        h, w, mod, 'a', m, given)


def holds(h, label, p, n, f):
    h.check(label, h.forall(n, lambda i: h.close(
        h.at(p._compound_mfrs, i), f(i))))


def agrees(h, label, p):
    H = p._calculate_Hfr(p.T)
    h.check(label + '-enthalpy-belongs-to-temperature',
            h.near(p.Hfr, H, 3e-5, H))


@contract('C12', [F + '__init__', F + '_calculate_Hfr_coal',
                  F + '_calculate_DH298_coal', F + 'HHV'], samples=60)
def coal_enthalpy(h):
    """The enthalpy flow rate of a coal stream is that of its ash and of its
    dry ash-free coal at the temperature, the enthalpy of formation of the
    latter from the heating value."""
    mod, n, names, m, w, a = coal(h, False)
    H = w.enthalpy(a.v, a.T, w.formation(a.v, a.HHV))
    h.eq('enthalpy', a.p.Hfr, H, H)


@contract('C12', [F + '__init__', F + 'T', F + '__mul__', F + 'HHV'],
          samples=60)
def coal_scaled(h):
    """The enthalpy flow rate of a coal stream belongs to its temperature
    and is proportional to its mass flow rate."""
    mod, n, names, m, w, a = coal(h)
    k = h.real('k', pos=True)
    H = a.p.Hfr
    agrees(h, 'created', a.p)
    r = a.p * k
    holds(h, 'product', r, n, lambda i: a.f(i) * k)
    h.eq('enthalpy-scales', r.Hfr, H * k, H)
    agrees(h, 'product', r)
    h.check('heating-value', r.HHV is a.p.HHV or h.close(r.HHV, a.HHV))
    T = h.real('T', lo=25.0, hi=1500.0)
    r.T = T
    agrees(h, 'changed', r)
    h.eq('operand', a.p.Hfr, H)
    holds(h, 'operand-contents', a.p, n, a.f)


@contract('C12', [F + '__add__'], samples=60)
def coal_added(h):
    """Adding coal streams adds their mass and enthalpy flow rates."""
    mod, n, names, m, w, a = coal(h, opaque=True, given=True)
    b = CoalStream(h, w, mod, 'b', m, True)
    H, K = a.p.Hfr, b.p.Hfr
    r = a.p + b.p
    holds(h, 'sum', r, n, lambda i: a.f(i) + b.f(i))
    h.eq('enthalpy-adds-up', r.Hfr, H + K, abs(H) if not h.sym else 0)
    agrees(h, 'sum', r)
    h.eq('heating-value', r.HHV * (a.mfr + b.mfr),
         a.HHV * a.mfr + b.HHV * b.mfr)
    h.eq('operand', a.p.Hfr, H)
    holds(h, 'operand-contents', a.p, n, a.f)


@contract('C12', [F + '_extract_mfr'], samples=60)
def coal_extracted(h):
    """A mass flow rate extracted from coal takes its share of the enthalpy
    flow rate."""
    mod, n, names, m, w, a = coal(h)
    s = h.real('share', lo=0.01, hi=0.99)
    H = a.p.Hfr
    x = a.mfr * s
    r = a.p.extract(x)
    holds(h, 'extracted', r, n, lambda i: a.f(i) * s)
    holds(h, 'remaining', a.p, n, lambda i: a.f(i) * (1.0 - s))
    h.eq('share-of-enthalpy', r.Hfr, H * s, H)
    h.eq('remaining-enthalpy', a.p.Hfr, H * (1.0 - s), H)
    agrees(h, 'extracted', r)
    agrees(h, 'remaining', a.p)


@contract('C12', [F + '__add__', F + '_update_HHV', F + '_extract_compound',
                  F + '_extract_compound_mfr'], sym=False, samples=24,
          bounded='one stream: it shows known findings')
def coal_compounds(h):
    """A compound added to or extracted from a coal stream takes its
    enthalpy flow rate with it."""
    mod, tc = h.mod(MOD), h.mod(TC)
    path = table()
    m = mod.Material('coal', path)
    shutil.rmtree(os.path.dirname(path))

    def stream():
        return m.create_stream('A', 100.0, 1.0, 600.0)
    s = stream()
    what = h.choice('what', ['add', 'part', 'compound', 'coal'])
    if what == 'add':
        r = s + ('C[Sgr]', 1.0)
        H = s.Hfr + tc.H('C[Sgr]', 600.0, 1.0)
        h.check('compound-added', h.near(r.Hfr, H, 3e-5) and h.near(
            r.Hfr, r._calculate_Hfr(r.T), 3e-5))
    elif what == 'coal':
        b = mod.MaterialStream(m, s._compound_mfrs * 1.0, 1.0, 600.0, True)
        e, r = h.call(lambda: b + b)
        h.check('no-heating-value-added', e is None and h.near(
            r.Hfr, b.Hfr * 2.0, 3e-5) and h.near(
                r.Hfr, r._calculate_Hfr(r.T), 3e-5))
    else:
        r = stream()
        x = r.extract(('C[Sgr]', 1.0) if what == 'part' else 'SiO2[S]')
        h.check(what + '-extracted', h.near(r.Hfr + x.Hfr, s.Hfr, 3e-5))
