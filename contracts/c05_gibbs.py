"""C05: G = H - T*S."""
from contracts import preload
from contracts.c04_heat import MOD, F, SomePhase, a_record, magnetic
from pyvc.harness import contract

preload.need('C05', MOD)


@contract('C05', [F + 'Phase.G', F + 'Phase.H', F + 'Phase.S'])
def phase_gibbs(h):
    mod = h.mod(MOD)
    p = SomePhase(h, mod)
    where = h.choice('where', ['covered', 'above', 'below'])
    if where == 'covered':
        T = p.covered('T', a_record(h, p))
    elif where == 'above':
        last = p.upper(p.n - 1)
        T = h.real('T', pos=True, gen=lambda r: last + r.uniform(0, 2000))
        h.assume(T > last)
    else:
        T = h.real('T', pos=True, gen=lambda r: r.choice(
            [298.15, r.uniform(200, 298.15)]))
        h.assume(T <= h.const(298.15))
    h.eq('G-is-H-TS', p.phase.G(T), p.phase.H(T) - T * p.phase.S(T),
         scale=1e3)


@contract('C05', [F + 'Phase.G_mag', F + 'Phase.H_mag', F + 'Phase.S_mag',
                  F + 'Phase._init'])
def magnetic_gibbs(h):
    """the magnetic contributions, on both sides of the critical temperature
    and at it"""
    mod = h.mod(MOD)
    m = {k: h.real(k, pos=True) for k in ('Tc', 'beta0', 'p')} if h.sym \
        else magnetic(h)
    if not h.sym:
        h.log['magnetic'] = m
    p = mod.Phase({'Symbol': 'S1', 'DHref': 0.0, 'Sref': 0.0,
                   'magnetic': m, 'Cp_records': {}})
    # D_mag = 0 at p = 2.69...
    h.assume(m['p'] < h.const('2.69'))
    tc = m['Tc']
    T = h.real('T', pos=True, gen=lambda r: tc * r.choice(
        [1.0, r.uniform(0.1, 1), r.uniform(1, 4)]))
    h.eq('G-is-H-TS', p.G_mag(T), p.H_mag(T) - T * p.S_mag(T), scale=1)


@contract('C05', [F + 'Compound.G', F + 'Compound.H', F + 'Compound.S'])
def compound_gibbs(h):
    from contracts.c06_thermo import SomeCompound
    mod = h.mod(MOD)
    c = SomeCompound(h, mod)
    ph, _ = h.name_in('phase', c.names, c.n)
    T = h.real('T', pos=True, gen=lambda r: r.choice(
        [r.uniform(150, 300), r.uniform(300, 3000)]))
    o = c.compound
    h.eq('G-is-H-TS', o.G(ph, T), o.H(ph, T) - T * o.S(ph, T), scale=1e3)


@contract('C05', [F + 'G', F + 'H', F + 'S'])
def gibbs_of_a_mass(h):
    from contracts.c06_thermo import Library, celsius
    mod = h.mod(MOD)
    lib = Library(h, mod)
    f, ph, text = lib.some()
    T = h.real('T', gen=celsius)
    h.assume(T > -h.const('273.15'))
    m = h.real('mass')
    h.eq('G-is-H-TS', mod.G(text, T, m),
         mod.H(text, T, m) - (T + h.const(273.15)) * mod.S(text, T, m))
    h.eq('G-is-H-TS-per-kg', mod.G(text, T),
         mod.H(text, T) - (T + h.const(273.15)) * mod.S(text, T))
