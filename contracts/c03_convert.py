"""C03: converting a compound conserves the mass of the element."""
from contracts import preload
from contracts.c02_amounts import POOL
from pyvc.harness import contract

MOD = 'auxi.tools.chemistry.stoichiometry'
F = 'auxi/tools/chemistry/stoichiometry.py:'
preload.need('C03', MOD)

POOL = POOL + ['PbOHI', 'KOH', 'UO2(OH)2', 'H2WO4', 'HAuCl4', 'C60H2U',
               'LiI', 'BeI2', 'U', 'U999H', 'Fe', 'Fe500H', 'I2', 'I250H']
ELEMENTS = ['I', 'Pb', 'Li', 'Be', 'O', 'Fe', 'C', 'H', 'Si', 'Ca', 'Cr', 'S', 'Al', 'U']


def setup(h):
    mod = h.mod(MOD)
    if h.sym:
        # contract: C01 mass_fraction
        emf = h.func('element_mass_fraction', nonneg=True, arity=2)
        h.stub(MOD, 'element_mass_fraction', emf)
    else:
        emf = mod.element_mass_fraction
    n = h.size('compounds', lo=2, hi=8)
    cs = h.names('compound', n, POOL)
    k = h.size('elements', lo=1)
    es = h.names('element', k, ELEMENTS)
    s, _ = h.name_in('source', cs, n)
    t, _ = h.name_in('target', cs, n)
    e, _ = h.name_in('basis', es, k)
    return mod, emf, s, t, e, h.real('mass')


@contract('C03', [F + 'convert_compound'], samples=400)
def element_is_conserved(h):
    mod, emf, s, t, e, m = setup(h)
    r = mod.convert_compound(m, s, t, e)
    h.check('element-mass', h.implies(emf(t, e) > 0, h.close(
        r * emf(t, e), m * emf(s, e))))
    h.check('nothing-without-the-element', h.implies(
        h.not_(emf(t, e) > 0), h.close(r, 0)))


@contract('C03', [F + 'convert_compound'], samples=400)
def back_and_forth(h):
    mod, emf, s, t, e, m = setup(h)
    r = mod.convert_compound(mod.convert_compound(m, s, t, e), t, s, e)
    h.check('there-and-back', h.implies(h.all(
        emf(t, e) > 0, emf(s, e) > 0), h.close(r, m)))
    h.eq('same-compound', mod.convert_compound(m, s, s, e),
         h.ite(emf(s, e) > 0, m, h.const(0)))


@contract('C03', [F + 'convert_compound'])
def proportional(h):
    mod, emf, s, t, e, m = setup(h)
    k = h.real('factor')
    h.eq('proportional', mod.convert_compound(k * m, s, t, e),
         k * mod.convert_compound(m, s, t, e))
