"""C21: models of material properties check their state; ideal gases, fitted
polynomials and materials."""
from contracts import preload, validator
from pyvc.harness import contract
from pyvc.rec import SRec

DIR = 'auxi/tools/materialphysicalproperties/'
CORE = 'auxi.tools.materialphysicalproperties.core'
GAS = 'auxi.tools.materialphysicalproperties.idealgas'
POLY = 'auxi.tools.materialphysicalproperties.polynomial'
MAT = 'auxi.modelling.process.materials.core'
GASES = 'auxi.tools.materialphysicalproperties.gases'
LIQUIDS = 'auxi.tools.materialphysicalproperties.liquids'
preload.need('C21', CORE, GAS, POLY, MAT, GASES, LIQUIDS)
F = DIR + 'idealgas.py:'
C = DIR + 'core.py:Model.'
M = 'auxi/modelling/process/materials/core.py:Material.'
R = '8.314462618'


def number(h, label, lo=-1, hi=5):
    return h.real(label, pos=True, gen=lambda r: 10 ** r.uniform(lo, hi))


class Gas(object):
    """any molar mass and state"""

    def __init__(self, h):
        self.h, self.mod = h, h.mod(GAS)
        validator.install(h, CORE)
        self.mm = number(h, 'molar mass', 0, 3)
        self.P, self.T = number(h, 'P', 2, 7), number(h, 'T', 1, 3.6)

    def models(self):
        m = self.mod
        return dict(
            BetaT=lambda: (m.BetaT(), dict(T=self.T)),
            RhoT=lambda: (m.RhoT(self.mm, self.P), dict(T=self.T)),
            RhoTP=lambda: (m.RhoTP(self.mm), dict(T=self.T, P=self.P)))


@contract('C21', [F + x + '.calculate' for x in ('BetaT', 'RhoT', 'RhoTP')] +
          [F + 'RhoT.__init__', F + 'RhoTP.__init__', C + '__call__',
           C + 'calculate'])
def gas_law(h):
    """rho R T = P M; the thermal expansion coefficient is the relative
    decrease of the density with temperature."""
    g = Gas(h)
    m = g.mod
    law = g.P * g.mm / 1000
    r = h.const(R) * g.T
    rho = m.RhoT(g.mm, g.P)
    other = h.choice('asked before', [False, True])
    rhotp, beta = m.RhoTP(g.mm), m.BetaT()
    if other:
        T0, P0 = number(h, 'T before', 1, 3.6), number(h, 'P before', 2, 7)
        rho(T=T0), beta(T=T0), rhotp(T=g.T, P=P0), rhotp(T=T0, P=g.P)
    h.eq('RhoT', rho(T=g.T) * r, law)
    h.eq('RhoT-calculate', rho.calculate(T=g.T), rho(T=g.T))
    h.eq('RhoTP', rhotp(T=g.T, P=g.P) * r, law)
    beta = beta(T=g.T)
    h.eq('BetaT', beta * g.T, 1)
    h.close_deriv('expansion', -h.deriv(lambda t: rho(T=t), g.T, lo=0),
                  beta * rho(T=g.T), scale=1e-9)


@contract('C21', [F + 'RhoTPx.calculate'])
def gas_mixture(h):
    """The density of a mixture is that of a gas of its mean molar mass."""
    g = Gas(h)
    n = h.size('compounds')
    names = h.names('compound', n, ['O2', 'N2', 'CO2', 'H2O', 'Ar', 'CH4'])
    if h.sym:
        x, mm = h.func('x'), h.func('molar_mass', pos=True)
        h.stub(GAS, 'mm', mm)       # contract: C01
    else:
        xs = {k: h.real('x ' + k, gen=lambda r: r.uniform(0, 1) *
                         r.choice([1, 1, 1, 1e-3, 1e-7, 0]))
              for k in names}
        x, mm = xs.__getitem__, g.mod.mm
    d = h.map(names, n, x)
    m = g.mod.RhoTPx()
    if h.choice('asked before', [False, True]):
        m(T=g.T, P=g.P, x=h.map(names, n, h.func('x before', nonneg=True) if
                                h.sym else lambda k: x(k) + 1))
    r = m(T=g.T, P=g.P, x=d)
    mean = h.sum(n, lambda i: x(h.at(names, i)) * mm(h.at(names, i)))
    h.eq('mean-molar-mass', r, g.mod.RhoTP(mean)(T=g.T, P=g.P), scale=1e-9)
    h.eq('ideal-gas-law', r * h.const(R) * g.T, g.P * mean / 1000, scale=1e-9)


WRONG = ['missing', 'unknown', 'text', 'below', 'none']


@contract('C21', [F + x + '.calculate' for x in (
    'BetaT', 'RhoT', 'RhoTP', 'RhoTPx')] + [C + 'calculate'])
def invalid_states(h):
    """A state that lacks a variable, has others, values of another type or
    below the minimum is rejected with a ValidationError, and no other."""
    g = Gas(h)
    models = g.models()
    models['RhoTPx'] = lambda: (g.mod.RhoTPx(), dict(
        T=g.T, P=g.P, x={'O2': 0.25, 'N2': 0.75}))
    if h.sym:
        h.stub(GAS, 'mm', h.func('molar_mass', pos=True))
    m, state = models[h.choice('model', sorted(models))]()
    keys = sorted(state)
    k = keys[h.choice('field', [0, 1, 2]) % len(keys)]
    how = h.choice('how', WRONG)
    state = dict(state)
    if how == 'missing':
        del state[k]
    elif how == 'unknown':
        state['other'] = 1.0
    elif how == 'text':
        state[k] = 'a text'
    elif how == 'below' and k != 'x':
        state[k] = h.real('below', gen=lambda r: -10 ** r.uniform(-9, 6))
        h.assume(h.lt(state[k], 0))
    else:
        how = 'none'
    error, r = h.call(m, **state)
    h.check('rejected', (error is None) == (how == 'none'))
    h.check('error', error is None or
            type(error).__name__ == 'ValidationError')


@contract('C21', [C + '__init__', C + '_create_validator', C + 'calculate'],
          sym=False, bounded='the schemas of the models, 600 states')
def validator_agrees(h):
    """cerberus.Validator is what is assumed of it."""
    core = h.mod(CORE)
    r = h.rng
    schema = r.choice([
        {'T': {'required': True, 'type': 'float', 'min': 0.0}},
        {'T': {'required': True, 'type': 'float', 'min': 0.0},
         'P': {'required': True, 'type': 'float', 'min': 0.0}},
        {'T': {'required': True, 'type': 'float', 'min': 273.15,
               'max': 1000.0}},
        {'T': {'required': True, 'type': 'float', 'min': 0.0},
         'x': {'required': True, 'type': 'dict'}}])
    value = lambda: r.choice([
        1.0, 0.0, -1e-9, 273.15, 273.0, 1000.0, 1000.01, 300.0, 'a', 1, None,
        {'O2': 1.0}, {}])
    state = {k: value() for k in ('T', 'P', 'x') if r.random() < (
        .9 if k in schema else .1)}
    h.log['schema'], h.log['state'] = schema, state
    m = core.Model('a', 'b', 'c', 'd', 'e', schema, None, None)
    ok = not list(validator.valid(h, schema, state))
    error, _ = h.call(m.calculate, **state)
    h.check('agrees', (error is None) == ok)
    h.check('error', error is None or isinstance(error, ValueError))


@contract('C21', [DIR + 'polynomial.py:PolynomialModelT.calculate',
                  DIR + 'polynomial.py:PolynomialModelT.__init__'])
def polynomial(h):
    """The value is that of the polynomial, within the limits only."""
    mod = h.mod(POLY)
    validator.install(h, CORE)
    n = h.size('coefficients')
    c = h.vec('coefficient', n)
    if not h.sym and not h.preset.get('apps') and h.choice(
            'terms', ['any', 'alike']) == 'alike':
        # the terms of the polynomial are of the same size
        c = h.log['coefficient'] = [
            h.rng.uniform(-1, 1) * 10.0 ** (-3 * (n - 1 - i))
            for i in range(n)]
    p = mod.PolynomialModelT('m', 'p', 's', 'd', 'u', None, None, c)
    T = number(h, 'T', 0, 3)
    if h.choice('asked before', [False, True]):
        p(T=number(h, 'T before', 0, 3))
    h.eq('value', p(T=T), h.sum(n, lambda i: h.at(c, i) * h.pow(
        T, n - 1 - i)), scale=1e-4)
    lo, hi = h.real('min', pos=True, gen=lambda r: r.uniform(1, 500)), \
        h.real('max', pos=True, gen=lambda r: r.uniform(500, 1000))
    p.state_schema['T']['min'] = lo
    p.state_schema['T']['max'] = hi
    error, r = h.call(p, T=T)
    h.check('limits', h.iff(error is None, h.all(lo <= T, T <= hi)))
    error, r = h.call(p, T=-T)
    h.check('negative', error is not None)


@contract('C21', [M + '__init__', M + 'alpha', M + 'nu'])
def material(h):
    """Thermal diffusivity and kinematic viscosity follow from the other
    properties unless there are models of them, at every state."""
    mod = h.mod(MAT)
    T, P = number(h, 'T', 1, 3), number(h, 'P', 1, 3)
    own = [k for k in ('alpha', 'nu') if h.choice('own ' + k, [True, False])]
    value = {}
    models = {}
    for k in ['k', 'rho', 'Cp', 'mu', 'beta'] + own:
        value[k] = h.func(k, pos=True) if h.sym else (
            lambda t, p, a=number(h, k, -3, 3), b=number(h, k + ' P', -3, 3):
            a * t + b * p)
        models[k] = lambda T, P, k=k: value[k](T, P)
    m = mod.Material('m', property_models=models)
    before = h.choice('asked before', ['no', 'other T', 'other P'])
    if before != 'no':
        T0 = number(h, 'T before', 1, 3) if before == 'other T' else T
        P0 = number(h, 'P before', 1, 3) if before == 'other P' else P
        for k in ('alpha', 'nu', 'k', 'rho', 'Cp', 'mu', 'beta'):
            getattr(m, k)(T=T0, P=P0)
    for k in value:
        h.eq(k, getattr(m, k)(T=T, P=P), value[k](T, P))
    if 'alpha' not in own:
        h.eq('diffusivity', m.alpha(T=T, P=P) * value['rho'](T, P) *
             value['Cp'](T, P), value['k'](T, P))
    if 'nu' not in own:
        h.eq('kinematic', m.nu(T=T, P=P) * value['rho'](T, P),
             value['mu'](T, P))


@contract('C21', [M + '__init__'] + [M + x for x in (
    'alpha', 'nu', 'k', 'rho', 'Cp', 'mu', 'beta')])
def no_model(h):
    """Properties without a model are not implemented."""
    m = h.mod(MAT).Material('m')
    for k in ('k', 'rho', 'Cp', 'mu', 'beta', 'alpha', 'nu'):
        error, _ = h.call(getattr(m, k), T=number(h, 'T', 1, 3))
        h.check('not-implemented', isinstance(error, NotImplementedError))


@contract('C21', [DIR + 'polynomial.py:PolynomialModelT.create',
                  DIR + 'core.py:DataSet.__init__',
                  DIR + 'core.py:DataSet._read_header_information',
                  DIR + 'core.py:DataSet._read_data'],
          sym=False, bounded='150 data sets of up to 25 points')
def polynomial_fit(h):
    """The model fitted to a data set returns the fitted polynomial between
    the lowest and the highest temperature of the data, and the data set what
    its file says."""
    import os
    import tempfile
    import numpy
    r = h.rng
    degree = r.randrange(4)
    c = [r.uniform(-2, 2) for _ in range(degree + 1)]
    ts = r.sample([100.0 + 25 * i for i in range(40)],
                  r.randrange(degree + 2, 25))
    cols = ['rho', 'Cp', 'k'][:r.randrange(1, 4)]
    sym = r.choice(cols)
    u = lambda t: (t - 600.0) / 300.0
    ys = {k: [sum(x * u(t) ** j for j, x in enumerate(c)) +
              (0 if k == sym else 7.0) for t in ts] for k in cols}
    fd, path = tempfile.mkstemp(suffix='.csv')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('Name,Stuff\nDescription,"any, data"\nReference,none\n')
            for pre, t in (('name of ', 'Temperature'), ('\\', 'T'),
                           ('unit of ', 'K'), ('', 'T')):
                f.write(','.join([t] + [pre + k for k in cols]) + '\n')
            for i, t in enumerate(ts):
                f.write(','.join([repr(t)] + [repr(ys[k][i]) for k in cols]) +
                        '\n')
        ds = h.mod(CORE).DataSet(path)
    finally:
        os.unlink(path)
    h.log['T'], h.log['coefficients'], h.log['symbol'] = ts, c, sym
    h.check('header', (ds.material, ds.description, ds.reference) == (
        'Stuff', 'any, data', 'none'))
    h.check('columns', all(ds.data[k].tolist() == ys[k] for k in cols) and
            ds.data['T'].tolist() == ts)
    h.check('units', all(ds.units_dict[k] == 'unit of ' + k and
                         ds.names_dict[k] == 'name of ' + k and
                         ds.display_symbols_dict[k] == '\\' + k
                         for k in cols))
    m = h.mod(POLY).PolynomialModelT.create(ds, sym, degree)
    h.check('of-the-property', (m.material, m.property, m.symbol, m.units) == (
        'Stuff', 'name of ' + sym, sym, 'unit of ' + sym))
    for t in r.sample(ts, 2) + [r.uniform(min(ts), max(ts))]:
        h.check('value', abs(m(T=t) - sum(
            x * u(t) ** j for j, x in enumerate(c))) < 1e-6)
    for t, ok in ((min(ts), True), (max(ts), True), (min(ts) - 1e-6, False),
                  (max(ts) + 1e-6, False)):
        error, _ = h.call(m, T=float(t))
        h.check('limits', (error is None) == ok)


# name, formula of the ideal gases (their densities follow the gas law)
SHIPPED = dict(air=('Air', 28.9645), argon=('Argon', 'Ar'),
               ammonia=('Ammonia', None),
               carbon_dioxide=('Carbon Dioxide', None),
               carbon_monoxide=('Carbon Monoxide', 'CO'),
               nitrogen=('Nitrogen', 'N2'), oxygen=('Oxygen', 'O2'),
               water_vapour=('Water Vapour', 'H2O'), h2o=('Water', None))


@contract('C21', [DIR + 'gases.py:_create_' + x
                  for x in sorted(SHIPPED) if x != 'h2o'] +
          [DIR + 'gases.py:_create_ds_dict'], sym=False,
          bounded='the 8 gases and the water of the library, 600 temperatures')
def shipped_materials(h):
    """A material of the library is named after what it is, reproduces the
    data sets it was made from, at the temperatures of these only, and its
    density follows the gas law where it is an ideal gas."""
    r = h.rng
    k = h.choice('material', sorted(SHIPPED))
    mod = h.mod(LIQUIDS if k == 'h2o' else GASES)
    m, (name, formula) = getattr(mod, k), SHIPPED[k]
    sets = [mod.h2o_dataset] if k == 'h2o' else list(
        getattr(mod, k + '_datasets').values())
    ds = r.choice(sets)
    h.check('name', m.name == name)
    h.check('data-set', ('water' if k == 'h2o' else k.replace('_', '-')) in
            ds.name.lower())
    i = r.randrange(len(ds.data['T']))
    T = float(ds.data['T'][i])
    h.log['T'] = T
    for p in ['rho', 'Cp', 'mu', 'k', 'beta'] + ['nu'] * (k == 'h2o'):
        if p in ds.data:
            v = getattr(m, p)(T=T)
            h.check('fits-' + p, abs(v / float(ds.data[p][i]) - 1) < 0.035)
    t = r.uniform(150, 900)
    if k != 'h2o':
        h.check('expansion', abs(m.beta(T=t) * t - 1) < 1e-12)
    if formula:
        M = formula if k == 'air' else h.mod(GASES).M(formula)
        h.log['rho at'] = t
        rho = float(R) * t * m.rho(T=t)
        h.check('gas-law', abs(rho / (101.325 * M) - 1) < (
            1e-4 if k == 'air' else 1e-7))
    lo, hi = (f(f(d.data['T']) for d in sets) for f in (min, max))
    for p in ('Cp', 'mu', 'k'):
        for t, ok in ((lo, True), (hi, True), (lo - 1e-3, False),
                      (hi + 1e-3, False)):
            error, _ = h.call(getattr(m, p), T=float(t))
            h.check('limits', (error is None) == ok)
