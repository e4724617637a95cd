"""C02: mass <-> amount conversions are inverse, fractions sum to one."""
from contracts import preload
from pyvc.harness import contract

MOD = 'auxi.tools.chemistry.stoichiometry'
F = 'auxi/tools/chemistry/stoichiometry.py:'
preload.need('C02', MOD)

POOL = ['SiO2', 'SiO2[S1]', 'FeO', 'Fe2O3', 'Fe2O3[S1]', 'Al2O3', 'H2O', 'H2',
        'O2', 'CO2', 'CO', 'C', 'Fe', 'CaO', 'CaCO3', 'MgO', 'NiO', 'Cr2O3',
        'FeCr2O4', 'Ca(OH)2', 'Al2(SO4)3', 'CuSO4.5H2O', 'U', 'N2', 'TiO2',
        'V2O5', 'H2SO4', 'MnO', 'Na2O', 'K2O', 'CH4', 'ZrO2[S2]', 'PbO',
        'Ca3(PO4)2']


def molar_mass(h, mod):
    """compound -> its molar mass (contract: C01 molar_mass_of_string)"""
    if h.sym:
        f = h.func('molar_mass', pos=True)
        h.stub(MOD, 'molar_mass', f)
        return f
    return mod.molar_mass


@contract('C02', [F + 'amount', F + 'mass'])
def one_compound(h):
    mod = h.mod(MOD)
    mm = molar_mass(h, mod)
    n = h.size('n', lo=1)
    cs = h.names('compound', n, POOL)
    c, _ = h.name_in('c', cs, n)
    m, a = h.real('mass'), h.real('amount')
    h.eq('amount', mod.amount(c, m) * mm(c), m)
    h.eq('mass', mod.mass(c, a), a * mm(c))
    h.eq('mass-of-amount', mod.mass(c, mod.amount(c, m)), m)
    h.eq('amount-of-mass', mod.amount(c, mod.mass(c, a)), a)
    k = h.real('factor')
    h.eq('amount-proportional', mod.amount(c, k * m), k * mod.amount(c, m))
    h.eq('mass-proportional', mod.mass(c, k * a), k * mod.mass(c, a))


class Mix(object):
    """a dictionary of any number of compounds"""

    def __init__(self, h, what, part=None):
        self.h = h
        self.n = h.size('n', hi=7)
        self.cs = h.names('compound', self.n, POOL)
        self.f = h.func(what, nonneg=True)
        if not h.sym and part and h.rng.random() < 0.4:
            # of (about) one kmol or kg in total
            f, r = self.f, h.rng
            total = sum(part(c, f(c)) for c in self.cs)
            if total:
                k = r.choice([1, 1, 10, 100, 1e-6]) * r.choice(
                    [1, 1 + r.choice([-1, 1]) * 10 ** r.uniform(-8, -2)])
                self.f = lambda c: f(c) * k / total
        self.d = h.map(self.cs, self.n, self.f)

    def keys(self, label, r):
        """r has exactly the compounds of the mixture"""
        h = self.h
        h.check(label + '-no-compound-lost', h.forall(
            self.n, lambda i: h.has_key(r, h.at(self.cs, i))))
        h.check(label + '-same-size', h.len(r) == self.n)

    def unchanged(self, label):
        h = self.h
        h.check(label, h.all(h.len(self.d) == self.n, h.forall(
            self.n, lambda i: h.close(h.value(self.d, h.at(self.cs, i)),
                                      self.f(h.at(self.cs, i))))))

    def values(self, label, r, f):
        h = self.h
        h.check(label, h.forall(self.n, lambda i: h.close(
            h.value(r, h.at(self.cs, i)), f(h.at(self.cs, i)))))


@contract('C02', [F + 'amounts'])
def amounts_of_masses(h):
    mod = h.mod(MOD)
    mm = molar_mass(h, mod)
    x = Mix(h, 'mass')
    r = mod.amounts(x.d)
    x.keys('amounts', r)
    x.values('amounts', r, lambda c: x.f(c) / mm(c))
    x.unchanged('masses-unchanged')
    b = mod.masses(r)
    x.keys('masses-of-amounts', b)
    x.values('masses-of-amounts', b, x.f)


@contract('C02', [F + 'masses'])
def masses_of_amounts(h):
    mod = h.mod(MOD)
    mm = molar_mass(h, mod)
    x = Mix(h, 'amount')
    r = mod.masses(x.d)
    x.keys('masses', r)
    x.values('masses', r, lambda c: x.f(c) * mm(c))
    x.unchanged('amounts-unchanged')
    b = mod.amounts(r)
    x.keys('amounts-of-masses', b)
    x.values('amounts-of-masses', b, x.f)


def fractions(h, x, r, part):
    """r: the shares of part(c) in the total"""
    total = h.sum(x.n, lambda i: part(h.at(x.cs, i)))
    x.keys('fractions', r)
    x.values('in-proportion', r, lambda c: part(c) / total)
    h.eq('sum-to-one', h.sum(x.n, lambda i: h.value(r, h.at(x.cs, i))), 1)
    x.unchanged('operand-unchanged')


@contract('C02', [F + 'amount_fractions'])
def amount_fractions(h):
    mod = h.mod(MOD)
    mm = molar_mass(h, mod)
    x = Mix(h, 'mass', lambda c, m: m / mm(c))
    j, _ = h.name_in('some', x.cs, x.n)
    h.assume(x.f(j) > 0)
    fractions(h, x, mod.amount_fractions(x.d), lambda c: x.f(c) / mm(c))


@contract('C02', [F + 'mass_fractions'])
def mass_fractions(h):
    mod = h.mod(MOD)
    mm = molar_mass(h, mod)
    x = Mix(h, 'amount', lambda c, n: n * mm(c))
    j, _ = h.name_in('some', x.cs, x.n)
    h.assume(x.f(j) > 0)
    fractions(h, x, mod.mass_fractions(x.d), lambda c: x.f(c) * mm(c))
