"""C22: viscosity and heat capacity of gas mixtures."""
from contracts import preload
from pyvc.harness import contract
from pyvc.rec import SRec

MOD = 'auxi.tools.materialphysicalproperties.gases'
preload.need('C22', MOD)
F = 'auxi/tools/materialphysicalproperties/gases.py:'


class Mixture(object):
    """any composition, of any compounds with and without a model"""

    def __init__(self, h, prop, n=None):
        self.h, self.mod = h, h.mod(MOD)
        n = self.n = h.size('compounds', hi=6) if n is None else n
        pool = ['N2', 'O2', 'CO', 'CO2', 'H2O', 'NH3', 'Ar', 'CH4', 'He']
        self.names = h.names('compound', n, pool)
        self.T = h.real('T', pos=True, gen=lambda r: r.uniform(375, 470))
        if h.sym:
            self.x = h.func('x', nonneg=True)
            self.M = h.func('molar_mass', pos=True)     # contract: C01
            self.value = h.func(prop, pos=True)
            self.known = h.pred('has_model')
            h.stub(MOD, 'M', self.M)
            h.stub(MOD, 'materials', h.partial_map(
                self.names, n, lambda k: SRec(**{
                    prop: lambda T: self.value(k, T)}), self.known))
        else:
            xs = {k: h.real('x ' + k, gen=lambda r: r.choice(
                [0.0, r.uniform(0, 1), r.uniform(0, 100)]))
                for k in self.names}
            self.x, self.M = xs.__getitem__, self.mod.M
            self.known = lambda k: k in self.mod.materials
            self.value = lambda k, T: getattr(self.mod.materials[k], prop)(
                T=T)
        self.total = self.sum(self.x)
        h.assume(h.lt(0, self.total))
        self.d = h.map(self.names, n, self.x)

    def model(self, name):
        """a model, which may have been asked about another mixture or
        temperature before"""
        h, m = self.h, getattr(self.mod, name)()
        before = h.choice('asked before', ['no', 'other T', 'other x'])
        if before == 'other T':
            T = h.real('T before', pos=True,
                       gen=lambda r: r.uniform(375, 470))
            m(T=T, x=self.d)
        elif before == 'other x':
            x = h.func('x before', pos=True) if h.sym else \
                (lambda k: self.x(k) + 1)
            m(T=self.T, x=h.map(self.names, self.n, x))
        return m

    def sum(self, f):
        """over the compounds that have a model"""
        h = self.h

        def term(i):
            k = h.at(self.names, i)
            if h.sym:
                return h.ite(self.known(k), f(k), 0)
            return f(k) if self.known(k) else 0.0
        return h.sum(self.n, term)

    def every(self, f):
        h = self.h
        return h.forall(self.n, lambda i: h.implies(
            self.known(h.at(self.names, i)), f(h.at(self.names, i))) if h.sym
            else not self.known(h.at(self.names, i)) or f(
                h.at(self.names, i)))


MEANS = dict(HerningZippererMuTx='mu', IdealCpTx='Cp')


def mean(model, prop):
    @contract('C22', [F + model + '.calculate'], name=model + '_mean')
    def f(h):
        """The mean of the compounds that have a model, weighted with the
        amount times the molar mass (its root for the viscosity)."""
        m = Mixture(h, prop)
        weight = m.M if prop == 'Cp' else lambda k: h.sqrt(m.M(k))
        r = m.model(model)(T=m.T, x=m.d)
        h.eq('weighted-mean', r * m.sum(lambda k: m.x(k) * weight(k)),
             m.sum(lambda k: m.x(k) * weight(k) * m.value(k, m.T)))
        lo, hi = h.real('lo', pos=True), h.real('hi', pos=True)
        if h.sym:
            h.assume(m.every(lambda k: h.le(lo, m.value(k, m.T))))
            h.assume(m.every(lambda k: h.le(m.value(k, m.T), hi)))
        else:
            vs = [m.value(k, m.T) for k in m.names if m.known(k)]
            lo, hi = min(vs) * (1 - 1e-12), max(vs) * (1 + 1e-12)
        h.check('not-below', h.le(lo, r))
        h.check('not-above', h.le(r, hi))


for _k in MEANS:
    mean(_k, MEANS[_k])


@contract('C22', [F + 'WilkeMuTx.calculate'])
def wilke(h):
    """Wilke's rule over the compounds that have a model."""
    m = Mixture(h, 'mu')
    r = m.model('WilkeMuTx')(T=m.T, x=m.d)
    mu = {}

    def phi(i, j):
        a, b = m.value(i, m.T), m.value(j, m.T)
        top = 1 + h.pow(h.div(a, b), h.const('0.5')) * \
            h.pow(h.div(m.M(j), m.M(i)), h.const('0.25'))
        return h.div(top * top, h.div(4, h.sqrt(2)) * h.pow(
            1 + h.div(m.M(i), m.M(j)), h.const('0.5')))

    def part(i):
        rest = m.sum(lambda j: h.ite(h.same(j, i), 0, h.div(
            m.x(j), m.total) * phi(i, j)))
        return h.div(h.div(m.x(i), m.total) * m.value(i, m.T),
                     h.div(m.x(i), m.total) + rest)
    h.eq('wilke', r, m.sum(part))


def pure(model, prop):
    @contract('C22', [F + model + '.calculate'], name=model + '_pure')
    def f(h):
        """One compound alone, in any amount, is that compound."""
        m = Mixture(h, prop, 1)
        k = h.at(m.names, 0)
        r = m.model(model)(T=m.T, x=m.d)
        h.eq('its-own-value', r, m.value(k, m.T))


for _k, _p in [('WilkeMuTx', 'mu')] + list(MEANS.items()):
    pure(_k, _p)


GASES = dict(N2='nitrogen', O2='oxygen', CO='carbon_monoxide',
             CO2='carbon_dioxide', H2O='water_vapour', NH3='ammonia',
             Ar='argon', Air='air')


@contract('C22', [F + '_create_' + x for x in sorted(GASES.values())],
          sym=False, bounded='the 8 gases of the library, 300 temperatures')
def gases_of_mixtures(h):
    """The gas that a mixture uses for a formula is the one of that name, and
    its viscosity and heat capacity are those of its data set."""
    m, r = h.mod(MOD), h.rng
    k = h.choice('gas', sorted(GASES))
    prop = h.choice('property', ['mu', 'Cp'])
    own, sets = getattr(m, GASES[k]), getattr(m, GASES[k] + '_datasets')
    name = r.choice(sorted(sets))
    i = r.randrange(len(sets[name].data['T']))
    T = float(sets[name].data['T'][i])
    h.log['data set'], h.log['T'] = name, T
    h.check('its-data-set', GASES[k].replace('_', '-') in name)
    v = getattr(m.materials[k], prop)(T=T)
    h.check('the-gas', v == getattr(own, prop)(T=T))
    h.check('fits-its-data', abs(v / float(sets[name].data[prop][i]) - 1) <
            0.02)
    if k != 'Air':
        for model, p in (('WilkeMuTx', 'mu'), ('HerningZippererMuTx', 'mu'),
                         ('IdealCpTx', 'Cp')):
            a = getattr(m, model)()(T=T, x={k: 1.0})
            b = getattr(own, p)(T=T)
            h.check('in-mixtures', abs(a - b) <= 1e-9 * abs(b))
