"""C23: viscosity of slags."""
from contracts import preload
from pyvc.harness import contract

MOD = 'auxi.tools.materialphysicalproperties.slags'
preload.need('C23', MOD)
F = 'auxi/tools/materialphysicalproperties/slags.py:'


class Slag(object):
    """any amounts of any compounds"""

    def __init__(self, h, pool):
        self.h, self.mod = h, h.mod(MOD)
        n = self.n = h.size('compounds', hi=8)
        self.names = h.names('compound', n, pool)
        self.T = h.real('T', pos=True, gen=lambda r: r.uniform(1300, 2300))
        if h.sym:
            self.x = h.func('x', nonneg=True)
        else:
            xs = {k: h.real('x ' + k, gen=lambda r: r.choice(
                [0.0, r.uniform(0, 1), r.uniform(0, 100)]))
                for k in self.names}
            self.x = xs.__getitem__
        self.d = self.dict()

    def used(self, m):
        """the model may have been asked about another slag or temperature
        before"""
        h = self.h
        before = h.choice('asked before', ['no', 'other T', 'other x'])
        if before == 'other T':
            m(T=h.real('T before', pos=True,
                       gen=lambda r: r.uniform(1300, 2300)), x=self.d)
        elif before == 'other x':
            x = h.func('x before', pos=True) if h.sym else \
                (lambda k: self.x(k) + 1)
            d = h.map(self.names, self.n, x)
            if h.sym:
                h.assume(h.lt(0, h.sum(self.n, lambda i: x(
                    h.at(self.names, i)))))
                h.assume(h.lt(0, self.of(*MODIFIERS, d=d)))
            m(T=self.T, x=d)
        return m

    def dict(self, k=1):
        return self.h.map(self.names, self.n, lambda c: k * self.x(c))

    def of(self, *cs, d=None):
        """the amount of these compounds together, absent ones being 0"""
        h = self.h
        return sum((h.amount(self.d if d is None else d, c) for c in cs), 0)

    def unchanged(self, old):
        h = self.h
        h.check('composition-kept', h.same_map(self.d, old))


OXIDES = ['SiO2', 'P2O5', 'CaO', 'MgO', 'Na2O', 'K2O', 'CaF2', 'FeO', 'MnO',
          'TiO2', 'ZrO2', 'Al2O3', 'Fe2O3', 'B2O3']


def urbain_of(h, T, X):
    """X(compound) -> mole fraction"""
    c = h.const
    xg = X('SiO2') + X('P2O5')
    xm = X('CaO') + X('MgO') + X('Na2O') + X('K2O') + X('FeO') + X('MnO') + \
        3 * X('CaF2') + 2 * X('TiO2') + 2 * X('ZrO2')
    xa = X('Al2O3') + X('Fe2O3') + X('B2O3')
    norm = 1 + X('CaF2') + X('Fe2O3') + X('TiO2') + X('ZrO2')
    g = h.div(xg, norm)
    a = h.div(xm, xm + xa)

    def quad(p, q, r):
        return c(p) + c(q) * a + c(r) * h.pow(a, 2)
    B = quad('13.8', '39.9355', '-44.049') + \
        quad('30.481', '-117.1505', '129.9978') * g + \
        quad('-40.9429', '234.0846', '-300.04') * h.pow(g, 2) + \
        quad('60.7619', '-153.9276', '211.1616') * h.pow(g, 3)
    return h.exp(-c('0.2693') * B - c('11.6725')) * T * \
        h.exp(h.div(1000 * B, T)) / 10


MODIFIERS = ['CaO', 'MgO', 'Na2O', 'K2O', 'CaF2', 'FeO', 'MnO', 'TiO2',
             'ZrO2', 'Al2O3', 'Fe2O3', 'B2O3']


@contract('C23', [F + 'UrbainViscosityTx.calculate'])
def urbain(h):
    s = Slag(h, OXIDES + ['SO3'])
    total = h.sum(s.n, lambda i: s.x(h.at(s.names, i)))
    h.assume(h.lt(0, total))
    h.assume(h.lt(0, s.of(*MODIFIERS)))
    old = h.snapshot(s.d)
    r = s.used(s.mod.UrbainViscosityTx())(T=s.T, x=s.d)
    h.eq('urbain', r, urbain_of(
        h, s.T, lambda c: h.div(s.of(c), total)))
    h.check('positive', h.lt(0, r))
    s.unchanged(old)


# a category and the compounds counted in it, per cation
RIBOUD = {'cao': ['CaO', 'MgO', 'FeO', 'MnO', 'FeO1.5', 'BO1.5'],
          'al2o3': ['Al2O3'], 'caf2': ['CaF2'], 'na2o': ['Na2O', 'K2O'],
          'sio2': ['SiO2', 'TiO2', 'ZrO2', 'PO2.5']}
TWICE = {'FeO1.5': 'Fe2O3', 'BO1.5': 'B2O3', 'PO2.5': 'P2O5'}
KNOWN = sum(RIBOUD.values(), []) + list(TWICE.values())


def either_way(h, s):
    """oxides of two cations are given in one of two ways, not in both"""
    two = {}
    for c in TWICE:
        two[c] = h.choice(c, [False, True])
        h.assume(h.not_(h.has_key(s.d, c if two[c] else TWICE[c])))
    return two


@contract('C23', [F + 'RiboudViscosityTx.calculate'])
def riboud(h):
    """Compounds that the model does not know are left out, those with two
    cations count twice."""
    s = Slag(h, KNOWN + ['SO3', 'Cr2O3'])

    two = either_way(h, s)
    old = h.snapshot(s.d)

    def amount(c):
        return 2 * s.of(TWICE[c], d=old) if two.get(c) else \
            s.of(c, d=old)

    def parts():
        part = {k: sum((amount(c) for c in cs), 0)
                for k, cs in RIBOUD.items()}
        return part, sum(part.values(), 0)
    h.assume(h.lt(0, parts()[1]))
    m = s.mod.RiboudViscosityTx()
    r = (m if h.sym else s.used(m))(T=s.T, x=s.d)
    part, total = parts()
    x = {k: h.div(v, total) for k, v in part.items()}
    c = h.const
    A = h.exp(-c('17.51') + c('1.73') * x['cao'] + c('5.82') * x['caf2'] +
              c('7.02') * x['na2o'] - c('33.76') * x['al2o3'])
    B = 31140 - 23896 * x['cao'] - 46356 * x['caf2'] - 39159 * x['na2o'] + \
        68833 * x['al2o3']
    h.eq('riboud', r, A * s.T * h.exp(h.div(B, s.T)) / 10)
    h.check('positive', h.lt(0, r))
    s.unchanged(old)


def by_mass(model, pool):
    @contract('C23', [F + model + 'Ty.calculate'], name=model + '_by_mass')
    def f(h):
        """The models by mass fraction are those by mole fraction of the
        same slag."""
        s = Slag(h, pool)
        h.assume(h.lt(0, s.of('CaO')))
        if h.sym:
            h.stub('auxi.tools.chemistry.stoichiometry', 'molar_mass',
                   h.func('molar_mass', pos=True))      # contract: C01
        old = h.snapshot(s.d)
        r = getattr(s.mod, model + 'Ty')()(T=s.T, y=s.d)
        x = s.mod.amount_fractions(s.d)                 # contract: C02
        h.eq('by-mass', r, getattr(s.mod, model + 'Tx')()(T=s.T, x=x))
        s.unchanged(old)


by_mass('UrbainViscosity', OXIDES + ['SO3'])
by_mass('RiboudViscosity', OXIDES + ['SO3'])


def proportions(model, pool, need):
    @contract('C23', [F + model + '.calculate'], name=model + '_proportions')
    def f(h):
        """Only the proportions of the composition matter."""
        s = Slag(h, pool)
        if 'FeO1.5' in need:
            either_way(h, s)
        h.assume(h.lt(0, s.of(*need)))
        k = h.real('k', pos=True, gen=lambda r: r.uniform(0.01, 100))
        m = getattr(s.mod, model)()
        h.eq('same-proportions', m(T=s.T, x=s.dict(k)), m(T=s.T, x=s.d))


proportions('UrbainViscosityTx', OXIDES + ['SO3'], MODIFIERS)
proportions('RiboudViscosityTx', KNOWN + ['SO3'], KNOWN)
