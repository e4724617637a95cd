"""C20: natural convection of a flat surface."""
from contracts import preload
from pyvc.harness import contract
from pyvc.rec import SRec

DIR = 'auxi/tools/transportphenomena/'
MOD = 'auxi.tools.transportphenomena.heattransfer.naturalconvection'
preload.need('C20', MOD)
F = DIR + 'heattransfer/naturalconvection.py:IsothermalFlatSurface.'


class Fluid(object):
    """any fluid: its properties are positive functions of temperature"""

    factor = 1.0

    def __init__(self, h):
        def prop(name, lo, hi):
            if h.sym:
                f = h.func(name, pos=True)
            else:
                a = h.real(name, gen=lambda r: 10 ** r.uniform(lo, hi))
                f = lambda T: a * (1 + T / 1000.0) * (
                    self.factor if name == 'alpha' else 1)
            setattr(self, name, f)

            def value(T):
                if h.sym and type(T) is float:
                    # a known temperature: some value
                    h.assume(h.close(f(T), 10 ** lo))
                    return 10.0 ** lo
                return f(T)
            return value
        self.obj = SRec(**{k: prop(k, *v) for k, v in dict(
            beta=(-5, -2), nu=(-7, -3), alpha=(-7, -3), k=(-3, 2)).items()})


class Case(object):
    def __init__(self, h, region=None):
        self.h, self.mod = h, h.mod(MOD)
        self.fluid = Fluid(h)
        self.gas = h.choice('gas', [True, False])
        self.model = self.mod.IsothermalFlatSurface(self.fluid.obj, self.gas)
        self.L = h.real('L', pos=True, gen=lambda r: 10 ** r.uniform(-4, 2))
        self.Tf = h.real('Tf', pos=True, gen=lambda r: r.uniform(200, 900))
        self.surface = h.choice('surface', ['hot', 'cold', 'same'])
        if self.surface == 'same':
            self.Ts = self.Tf
        else:
            self.Ts = h.real('Ts', pos=True, gen=lambda r: abs(
                self.Tf + (1 if self.surface == 'hot' else -1) *
                10 ** r.uniform(-6, 2.1)))
            h.assume(self.Tf < self.Ts if self.surface == 'hot' else
                     self.Ts < self.Tf)
        self.theta = h.real('theta', gen=lambda r: r.choice([
            r.uniform(-90, 90), r.choice([-90, -60, -52, -45, 0, 45, 88, 89,
                                          90, -88, 52, 60]) * 1.0]))
        h.assume(h.all(-90 <= self.theta, self.theta <= 90))
        if not h.sym and not h.preset and h.rng.random() < .15:
            # a Rayleigh number on a limit of the correlations
            lg = h.log['log Ra'] = h.rng.choice([4, 5, 6, 7, 9, 11, 12, 13])
            Ra = self.rayleigh()[0]
            if Ra > 0:
                self.fluid.factor = Ra / 10.0 ** lg

    def used(self):
        """the model has been asked before, at another state"""
        h = self.h
        if h.sym:
            L, theta, Ts, Tf = 1.0, 60.0, 400.0, 300.0
        else:
            r = h.rng
            L, theta, Ts, Tf = [x if r.random() < .7 else y for x, y in zip(
                (self.L, self.theta, self.Ts, self.Tf),
                (1.0, 60.0, 400.0, 300.0))]
            if r.random() < .3:
                Ts, Tf = self.Ts + 50.0, self.Tf + 50.0
            h.log['before'] = [L, theta, Ts, Tf]
        self.model.Nu_x(L, theta, Ts, T=Tf)

    def rayleigh(self):
        h, f = self.h, self.fluid
        cold = self.surface == 'cold'
        Tr = self.Ts - (0.38 if self.gas else 0.5) * (self.Ts - self.Tf)
        beta = f.beta(self.Tf if self.gas else Tr)
        theta = -self.theta if cold else self.theta
        nu, alpha = f.nu(Tr), f.alpha(Tr)
        inclined = h.all(h.lt(0, theta), h.lt(theta, 45))
        g = h.const('9.80665')
        if h.force(inclined):
            g = g * h.cos(self.theta * h.pi / 180)
        Ra = abs(g * beta * (self.Ts - self.Tf) * self.L ** 3 / (nu * alpha))
        return Ra, nu / alpha, theta

    def nusselt(self):
        """the documented correlation: the angle is that of a hot surface
        (negative upwards), g has its component along inclined surfaces"""
        h = self.h
        Ra, Pr, theta = self.rayleigh()
        if self.surface == 'same':
            lg = h.const('-1000')
        elif h.force(h.lt(0, Ra)):
            lg = h.log10(Ra)
        else:
            lg = h.const('-1000')
        n822 = 0.59 * Ra ** 0.25
        n823 = 0.1 * Ra ** (h.const('1') / 3)
        n827 = 0.68 + 0.67 * Ra ** 0.25 / (
            1 + (0.492 / Pr) ** (h.const('9') / 16)) ** (h.const('4') / 9)
        n826 = 0.678 * Ra ** 0.25 * (Pr / (0.952 + Pr)) ** 0.25
        n838 = 0.58 * Ra ** 0.2
        if not h.sym:
            self.edge = min(abs(lg - x) for x in (4, 5, 6, 7, 9, 11)) < 1e-9
        if h.force(h.le(theta, -52)):
            return n822 if h.force(h.le(lg, 7)) else n823
        if h.force(h.lt(theta, 0)):
            return n827
        if h.force(h.same(theta, 0)):
            return n826
        return n827 if h.force(h.lt(theta, 88)) else n838


@contract('C20', [F + 'Nu_x', F + 'Region.contains_point',
                  F + '__init__', DIR + 'dimensionlessquantities.py:Gr',
                  DIR + 'dimensionlessquantities.py:Pr'])
def nusselt(h):
    """For every angle and Rayleigh number the Nusselt number is that of the
    correlation of the region."""
    local(h, Case(h))


def local(h, c):
    r = c.model.Nu_x(c.L, c.theta, c.Ts, T=c.Tf)
    want = c.nusselt()
    h.assume(h.sym or not c.edge)
    h.eq('local', r, want)


@contract('C20', [F + 'Nu_x'])
def asked_before(h):
    """The same after the number of another state."""
    c = Case(h)
    c.used()
    local(h, c)


@contract('C20', [F + 'Nu_L'])
def average(h):
    """The average is 4/3 of the local Nusselt number."""
    c = Case(h)
    a = c.L, c.theta, c.Ts
    r = c.model.Nu_L(*a, T=c.Tf)
    h.eq('average', r * 3, c.model.Nu_x(*a, T=c.Tf) * 4)


@contract('C20', [F + 'h_x', F + 'h_L'])
def coefficient(h):
    """The heat transfer coefficient is Nu k / L at the mean temperature."""
    c = Case(h)
    which = h.choice('which', ['x', 'L'])
    a = c.L, c.theta, c.Ts
    nu = getattr(c.model, 'Nu_' + which)(*a, T=c.Tf)
    r = getattr(c.model, 'h_' + which)(*a, T=c.Tf)
    Tr = c.Ts - (0.38 if c.gas else 0.5) * (c.Ts - c.Tf)
    h.eq('coefficient', r * c.L, nu * c.fluid.k(Tr))


@contract('C20', [F + 'Region.contains_point', F + 'Region.__init__'])
def region(h):
    """A region contains the points within its limits."""
    mod = h.mod(MOD)
    near = lambda r: r.choice([1.0, 2.0, 3.0, 2.5])
    t0, t1, r0, r1, t, ra = [h.real(x, gen=near) for x in (
        'theta_min', 'theta_max', 'Ra_min', 'Ra_max', 'theta', 'Ra')]
    incl = [h.choice(x, [True, False]) for x in (
        'theta_min_incl', 'theta_max_incl', 'Ra_min_incl', 'Ra_max_incl')]
    low, high = h.choice('min', [True, False]), h.choice('max', [True, False])
    x = mod.IsothermalFlatSurface.Region(
        'r', t0, incl[0], t1, incl[1], r0 if low else None, incl[2],
        r1 if high else None, incl[3])
    cmp_ = lambda i: h.le if i else h.lt
    want = [cmp_(incl[0])(t0, t), cmp_(incl[1])(t, t1)]
    if low:
        want.append(cmp_(incl[2])(r0, ra))
    if high:
        want.append(cmp_(incl[3])(ra, r1))
    h.check('contains', h.iff(x.contains_point(t, ra), h.all(*want)))
