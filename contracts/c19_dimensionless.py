"""C19: dimensionless quantities and pressure drop."""
import contextlib
import io

from contracts import preload
from pyvc.harness import contract

MOD = 'auxi.tools.transportphenomena.dimensionlessquantities'
DROP = 'auxi.tools.transportphenomena.fluidflow.pressuredrop'
preload.need('C19', MOD, DROP)
F = 'auxi/tools/transportphenomena/dimensionlessquantities.py:'
D = 'auxi/tools/transportphenomena/fluidflow/pressuredrop.py:'


def reals(h, *names):
    return [h.real(x, pos=True, gen=lambda r: 10 ** r.uniform(-6, 3))
            for x in names]


@contract('C19', [F + x for x in ('Gr', 'Pr', 'Re', 'Ra', 'Nu', 'Sh')])
def numbers(h):
    """The documented ratios, and Ra = Gr Pr."""
    m = h.mod(MOD)
    L, nu, alpha, beta, g, v, k, D = reals(
        h, 'L', 'nu', 'alpha', 'beta', 'g', 'v', 'k', 'D')
    Ts, Tf = h.real('Ts'), h.real('Tf')
    Gr = m.Gr(L, Ts, Tf, beta, nu, g)
    h.eq('Grashof', Gr * nu * nu, g * beta * (Ts - Tf) * L * L * L)
    h.eq('Prandtl', m.Pr(nu, alpha) * alpha, nu)
    h.eq('Reynolds', m.Re(L, v, nu) * nu, v * L)
    h.eq('Nusselt', m.Nu(L, v, k) * k, v * L)
    h.eq('Sherwood', m.Sh(L, v, D) * D, v * L)
    g = h.const('9.80665')
    h.eq('Rayleigh', m.Ra(L, Ts, Tf, alpha, beta, nu),
         m.Gr(L, Ts, Tf, beta, nu, g) * m.Pr(nu, alpha))


@contract('C19', [D + x for x in ('f_l', 'f_ts', 'D_h', 'Δp')])
def friction(h):
    """Laminar and smooth-duct friction factors, hydraulic diameter and
    pressure drop."""
    m = h.mod(DROP)
    L, D, A, P, rho, v, f = reals(h, 'L', 'D', 'A', 'P', 'rho', 'v', 'f')
    Re = h.real('Re', pos=True, gen=lambda r: 10 ** r.uniform(1.2, 9))
    h.eq('laminar', m.f_l(Re) * Re, 64)
    h.eq('hydraulic-diameter', m.D_h(A, P) * P, 4 * A)
    h.eq('pressure-drop', getattr(m, 'Δp')(f, L, D, rho, v) * 2 * D,
         f * L * rho * v * v)
    x = 1.82 * h.log10(Re) - 1.64
    h.assume(h.not_(h.same(x, 0)))
    h.eq('smooth', m.f_ts(Re) * x * x, 1)


@contract('C19', [D + 'f_tr_Haaland'])
def haaland(h):
    """Haaland's friction factor of rough ducts, whether or not there is a
    warning that the arguments are out of its range."""
    m = h.mod(DROP)
    Re = h.real('Re', pos=True, gen=lambda r: 10 ** r.uniform(1.2, 9))
    D = h.real('D', pos=True, gen=lambda r: 10 ** r.uniform(-3, 1))
    e = h.real('roughness', lo=0, gen=lambda r: D * r.choice(
        [0.0, 0.05, 0.06, r.uniform(0, 0.1)]))
    warn = h.choice('warn', [True, False])
    x = 1.8 * h.log10(6.9 / Re + (e / D / 3.7) ** 1.11)
    h.assume(h.not_(h.same(x, 0)))
    with contextlib.redirect_stdout(io.StringIO()):
        r = m.f_tr_Haaland(Re, e, D, warn)
    h.eq('rough', r * x * x, 1)


@contract('C19', [D + 'f_tr_Colebrook'])
def colebrook(h):
    """The friction factor solves Colebrook's equation, provided that the
    root finder of scipy finds a root."""
    m = h.mod(DROP)
    Re = h.real('Re', pos=True, gen=lambda r: 10 ** r.uniform(3.61, 8))
    D = h.real('D', pos=True, gen=lambda r: 10 ** r.uniform(-3, 1))
    e = D * h.real('relative roughness', lo=0, gen=lambda r: r.choice(
        [0.0, 0.05, r.uniform(0, 0.05), 10 ** r.uniform(-6, -2)]))
    if h.sym:
        root = h.real('root', pos=True)
        y = 1.8 * h.log10(6.9 / Re + (e / D / 3.7) ** 1.11)
        h.assume(h.not_(h.same(y, 0)))

        class Result(object):
            x = [root]
            success = True

        def find(fun, x0, args=(), **k):
            h.check('first-guess', h.lt(0, x0))
            r = fun([root], *args)
            h.assume(h.same(r if not isinstance(r, list) else r[0], 0))
            return Result
        h.stub(DROP, 'root', find)
    f = m.f_tr_Colebrook(Re, e, D)
    h.check('positive', h.lt(0, f))
    x = 1 / h.sqrt(f)
    want = -2 * h.log10(e / D / 3.7 + 2.51 / Re * x)
    if h.sym:
        h.eq('equation', x, want)
    else:
        h.near_eq('equation', x, want)
