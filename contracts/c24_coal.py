"""C24: the enthalpy of dry ash-free coal is the integral of its heat
capacity."""
from contracts import preload
from pyvc.harness import contract

MOD = 'auxi.tools.materialphysicalproperties.coals'
preload.need('C24', MOD)
F = 'auxi/tools/materialphysicalproperties/coals.py:'
ELEMENTS = ['C', 'H', 'O', 'N', 'S']


class Coal(object):
    """any composition, with any positive atomic weights (contract: C01)"""

    def __init__(self, h, mod):
        if h.sym:
            self.mm = h.func('molar_mass', pos=True)
            h.stub(MOD, 'mm', self.mm)
        else:
            self.mm = mod.mm
        self.y = {'y_' + e: h.real('y_' + e, lo=0, gen=lambda r: r.choice(
            [0.0, r.uniform(0, 1)])) for e in ELEMENTS}
        for y in self.y.values():
            h.assume(y <= 1)
        self.total = sum(y / self.mm(k[2:]) for k, y in self.y.items())
        h.assume(h.lt(0, self.total))

    def used(self, h, m, T):
        """the model may have been asked about another state before"""
        before = h.choice('asked before', ['no', 'other T', 'other y'])
        if before == 'other T':
            m.calculate(T=T + h.real('more', pos=True), **self.y)
        elif before == 'other y':
            m.calculate(T=T, **{k: y + h.real('more ' + k, pos=True)
                                for k, y in self.y.items()})
        return m

    def temperature(self, h):
        return h.real('T', pos=True, gen=lambda r: r.choice(
            [r.uniform(200, 2500), r.uniform(20, 10000)]))


@contract('C24', [F + 'DafThermoTy._calc_a'])
def mean_atomic_weight(h):
    """The mean atomic weight is the mass per amount of the elements."""
    mod = h.mod(MOD)
    coal = Coal(h, mod)
    m = h.choice('model', ['DafCpTy', 'DafHTy'])
    a = getattr(mod, m)()._calc_a(**coal.y)
    h.eq('mass-per-amount', a * coal.total, 1)


@contract('C24', [F + 'DafCpTy.calculate', F + 'DafHTy.calculate',
                  F + 'DafCpTy._calc_g1', F + 'DafHTy._calc_g0'])
def derivative(h):
    """The derivative of the enthalpy with respect to temperature is the
    heat capacity."""
    mod = h.mod(MOD)
    coal = Coal(h, mod)
    T = coal.temperature(h)
    H = mod.DafHTy()
    cp = coal.used(h, mod.DafCpTy(), T).calculate(T=T, **coal.y)
    h.close_deriv('dH/dT-is-Cp', h.deriv(
        lambda t: H.calculate(T=t, **coal.y), T, lo=0), cp, scale=1.0)


@contract('C24', [F + 'DafCpTy.calculate', F + 'DafHTy.calculate'])
def formula(h):
    """The enthalpy is that of Merrick's two Einstein functions."""
    mod = h.mod(MOD)
    coal = Coal(h, mod)
    T = coal.temperature(h)
    r = coal.used(h, mod.DafHTy(), T).calculate(T=T, **coal.y)
    g = lambda t: t / (h.exp(t / T) - 1)
    h.eq('enthalpy', r, mod.R * 1000 * coal.total * (
        g(380) + 2 * g(1800)))
    h.check('enthalpy-positive', h.lt(0, r))
    h.check('heat-capacity-positive', h.lt(
        0, mod.DafCpTy().calculate(T=T, **coal.y)))
