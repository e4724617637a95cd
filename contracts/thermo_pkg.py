"""C11 (packages) and C12 (streams): mass and enthalpy balance of the thermo
module.  The same contracts are stated for both classes.

H of a compound is the assumed function h(compound, T) per kg, scaled by mass
(that thermochemistry.H has this shape is C06); the secant solver
_calculate_T is assumed to return a temperature at which the calculated
enthalpy equals the requested one (numerical convergence is only sampled)."""
import copy
import os
import tempfile

from contracts import pkg, preload
from pyvc.harness import contract

MOD = 'auxi.modelling.process.materials.thermo'
TC = 'auxi.tools.chemistry.thermochemistry'
ST = 'auxi.tools.chemistry.stoichiometry'
FILE = 'auxi/modelling/process/materials/thermo.py:'
POOL = ['Al2O3[S]', 'CaO[S]', 'Fe2O3[Salpha]', 'Fe3O4[Salpha]', 'FeO[S]',
        'MgO[S]', 'SiO2[S]', 'TiO2[Srutile]', 'C[Sgr]', 'Cr[S]', 'ZnO[S]',
        'H2O[G]', 'CO2[G]', 'N2[G]', 'H2O[L]', 'Fe[Salpha]', 'Fe[L]',
        'Cr[L]']


def material(h, mod, tag, names, assays=()):
    if h.sym:
        m = mod.Material.__new__(mod.Material)
        m.name = 'material ' + tag
        m.description = 'a material'
        m.compounds = names
        m.compound_count = h.len(names)
        m.raw_assays = h.dict()
        m.converted_assays = h.dict()
        m.assay_custom_properties = h.dict()
        m.custom_properties = []
        for k, v in assays:
            m.raw_assays[k] = v.copy()
            m.converted_assays[k] = v.copy()
            m.assay_custom_properties[k] = {}
        m.elements = ['Fe', 'O']
        return m
    rows = [['Compound'] + [k for k, v in assays],
            None if assays else []]
    for i, c in enumerate(names):
        rows += [[c] + [repr(float(v[i])) for k, v in assays],
                 None if assays else []]
    path = pkg.write_table(h, [x for x in rows if x != []])
    try:
        return mod.Material('material ' + tag, path, 'a material')
    finally:
        os.unlink(path)


DAF = ['C[Sgr]', 'H2[G]', 'O2[G]', 'N2[G]', 'S[Smono]']
ASH = ['SiO2[S]', 'CaO[S]', 'Al2O3[S]', 'Fe2O3[Salpha]', 'H2O[G]']


def table():
    """the file of a coal"""
    path = os.path.join(tempfile.mkdtemp(), 'coal.txt')
    with open(path, 'w') as f:
        f.write('Compound A\n' + '\n'.join('%s %r' % x for x in zip(
            DAF + ASH[:1], (0.6, 0.04, 0.05, 0.01, 0.01, 0.29))) +
            '\n#\nIsCoal 1\nHHV[MJ/kg] 25.0\n')
    return path


class Flavour(object):
    def __init__(self, prop, cls, masses, mass, H, calc_H, create, part,
                 parts, total, amount, amounts, total_amount, element,
                 elements, element_dict):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.F = FILE + cls + '.'


class P(object):
    """A package and the state it was created with."""

    def __init__(self, fl, h, mod, tag, m, names, n):
        self.fl, self.h, self.n, self.names = fl, h, n, names
        self.m = m
        self.v = h.vec('mass_' + tag, n, nonneg=True, kind='np')
        self.T = h.real('T_' + tag, lo=25.0, hi=1500.0)
        self.P = h.real('P_' + tag, pos=True)
        self.p = getattr(mod, fl.cls)(m, self.v.copy(), self.P, self.T)
        self.total = h.sum(n, lambda i: h.at(self.v, i))

    def f(self, i):
        return self.h.at(self.v, i)

    def H(self):
        return enthalpy(self.h, self.names, self.n, self.f, self.T)


def hh(h):
    """specific enthalpy of a compound: h(compound, T)"""
    tc = h.mod(TC)
    if not h.sym:
        return lambda c, T: tc.H(c, T, 1.0)
    return h.func('specific_enthalpy', arity=2)


def enthalpy(h, names, n, f, T):
    g = hh(h)
    return h.sum(n, lambda i: f(i) * g(h.at(names, i), T))


def assumed(fl, h):
    if not h.sym:
        return
    g = hh(h)
    h.stub(TC, 'H', lambda compound_string, T, mass=1.0:
           mass * g(compound_string, T))
    k = [0]

    def solve(self, H):
        k[0] += 1
        T = h.real('solved_T%d' % k[0])
        h.assume(h.close(getattr(self, fl.calc_H)(T), H))
        return T
    h.stub(MOD, fl.cls + '._calculate_T', solve)


def register(fl):
    F, prop = fl.F, fl.prop

    def C(*targets, **kw):
        return lambda fn: contract(prop, [F + t for t in targets],
                                   samples=120, **kw)(pkg.with_ends(fn))

    def setup(h, tag='a'):
        mod = h.mod(MOD)
        assumed(fl, h)
        n = h.size('n_' + tag, lo=1)
        names = h.names('compound_' + tag, n, POOL)
        m = material(h, mod, tag, names,
                     [pkg.some_assay(h, tag, n, 'np')])
        a = P(fl, h, mod, tag, m, names, n)
        how = h.choice('history', ['new', 'copy', 'changed'])
        if how == 'copy':
            q = copy.copy(a)
            a.p = a.p.clone() if h.choice('copy', [0, 1]) else a.p * 1.0
            h.ends_.append(lambda: unchanged(h, 'origin-unchanged', q))
        elif how == 'changed':
            T = h.real('former_T', lo=25.0, hi=1500.0)
            p = a.p = getattr(mod, fl.cls)(m, a.v.copy(), a.P + 1.0, T)
            x, _ = h.name_in('asked', names, n)
            getattr(p, fl.H), p.T, getattr(p, fl.total)
            getattr(p, fl.part)(x)
            p.P = a.P
            p.T = a.T
        return mod, n, names, m, a

    def independent(h, names, n, *ps):
        """changing one of the packages in place leaves the others as they
        are"""
        c, _ = h.name_in('changed_later', names, n)
        for k, p in enumerate(ps):
            old = [(q, getattr(q, fl.masses).copy(), getattr(q, fl.H), q.T,
                    q.P) for q in ps[:k] + ps[k + 1:]]
            p.extract(c)
            p.T = 30.0
            p.P = 3.0
            for q, v, H, T, Pr in old:
                masses_are(h, 'separate', q, n, lambda i: h.at(v, i))
                h.eq('separate-enthalpy', getattr(q, fl.H), H)
                h.eq('separate-temperature', q.T, T)
                h.eq('separate-pressure', q.P, Pr)

    def masses_are(h, label, p, n, f):
        v = getattr(p, fl.masses)
        h.check(label + '-one-value-per-compound', h.len(v) == n)
        h.check(label, h.forall(n, lambda i: h.close(h.at(v, i), f(i))))

    def consistent(h, label, p, names, n, f):
        """the enthalpy of p is that of its contents at its temperature"""
        s = enthalpy(h, names, n, f, p.T)
        h.check(label + '-enthalpy-belongs-to-temperature',
                h.near(getattr(p, fl.H), s, 3e-5, s))

    def unchanged(h, label, a):
        masses_are(h, label, a.p, a.n, a.f)
        h.eq(label + '-enthalpy', getattr(a.p, fl.H), a.H())
        h.eq(label + '-temperature', a.p.T, a.T)
        h.eq(label + '-pressure', a.p.P, a.P)

    def at(h, label, p, names, n, f, T, Pr):
        """p holds f at temperature T and pressure Pr"""
        masses_are(h, label, p, n, f)
        h.eq(label + '-temperature', p.T, T)
        h.eq(label + '-pressure', p.P, Pr)
        s = enthalpy(h, names, n, f, T)
        h.eq(label + '-enthalpy', getattr(p, fl.H), s, s)

    @C('__init__', fl.calc_H)
    def create(h):
        mod, n, names, m, a = setup(h)
        at(h, 'created', a.p, names, n, a.f, a.T, a.P)
        h.eq('total', getattr(a.p, fl.total), a.total)
        x, k = h.name_in('k', names, n)
        h.eq('compound', getattr(a.p, fl.part)(x), a.f(k))
        y = h.foreign_name('other', names)
        h.eq('absent-compound', getattr(a.p, fl.part)(y), h.const(0))
        h.assume(a.total > 0.0)
        s = a.p.get_assay()
        h.check('assay', h.forall(n, lambda i: h.close(
            h.at(s, i) * a.total, a.f(i))))
        h.eq('assay-sums-to-one', h.sum(n, lambda i: h.at(s, i)), h.const(1))
        unchanged(h, 'unchanged', a)

    @C('__add__')
    def add_same_material(h):
        mod, n, names, m, a = setup(h)
        b = P(fl, h, mod, 'b', m, names, n)
        r = a.p + b.p
        masses_are(h, 'sum', r, n, lambda i: a.f(i) + b.f(i))
        h.eq('total', getattr(r, fl.total), a.total + b.total)
        h.eq('enthalpy-adds-up', getattr(r, fl.H), a.H() + b.H(),
             abs(a.H()) if not h.sym else 0)
        consistent(h, 'sum', r, names, n, lambda i: a.f(i) + b.f(i))
        h.eq('pressure-of-left-operand', r.P, a.P)
        unchanged(h, 'left-operand-unchanged', a)
        unchanged(h, 'right-operand-unchanged', b)
        independent(h, names, n, r, a.p, b.p)

    @C('__add__')
    def add_to_itself(h):
        mod, n, names, m, a = setup(h)
        r = a.p + a.p
        masses_are(h, 'sum', r, n, lambda i: a.f(i) * 2.0)
        h.eq('enthalpy-adds-up', getattr(r, fl.H), a.H() * 2.0)
        consistent(h, 'sum', r, names, n, lambda i: a.f(i) * 2.0)
        h.eq('pressure-of-left-operand', r.P, a.P)
        unchanged(h, 'operand-unchanged', a)
        independent(h, names, n, r, a.p)

    @C('__add__')
    def add_other_material(h):
        mod, n, names, m, a = setup(h)
        n2 = h.size('n_b', lo=1)
        names2, n2 = pkg.related(h, 'compound_b', names, h.names(
            'compound_b', n2, POOL), n2)
        b = P(fl, h, mod, 'b', material(
            h, mod, 'b', names2, [pkg.some_assay(h, 'b', n2, 'np')]),
            names2, n2)
        e, r = h.call(lambda: a.p + b.p)
        inside = h.forall(n2, lambda j: h.contains(names, h.at(names2, j)))
        unchanged(h, 'left-operand-unchanged', a)
        unchanged(h, 'right-operand-unchanged', b)
        if e is not None:
            h.check('rejected-only-when-a-compound-is-missing',
                    h.not_(inside))
            return
        h.check('accepted-only-when-all-compounds-exist', inside)

        def f(i):
            return a.f(i) + h.sum(n2, lambda j: h.ite(
                h.same(h.at(names, i), h.at(names2, j)), b.f(j), h.const(0)))
        masses_are(h, 'sum', r, n, f)
        h.eq('total', getattr(r, fl.total), a.total + b.total)
        h.eq('enthalpy-adds-up', getattr(r, fl.H), a.H() + b.H(),
             abs(a.H()) if not h.sym else 0)
        consistent(h, 'sum', r, names, n, f)
        h.eq('pressure-of-left-operand', r.P, a.P)
        h.check('another-object', r is not a.p and r is not b.p)

    @C('__add__')
    def add_compound(h):
        mod, n, names, m, a = setup(h)
        x, k = h.name_in('k', names, n)
        w = h.real('x', nonneg=True, tag=h.choice('t', ['float', 'np']))
        r = a.p + (x, w)
        at(h, 'sum', r, names, n, lambda i: a.f(i) + h.ite(
            i == k, w, h.const(0)), a.T, a.P)
        unchanged(h, 'operand-unchanged', a)
        independent(h, names, n, r, a.p)

    @C('__add__')
    def add_compound_at_temperature(h):
        mod, n, names, m, a = setup(h)
        x, k = h.name_in('k', names, n)
        w = h.real('x', nonneg=True)
        T = h.real('T', lo=25.0, hi=1500.0)
        r = a.p + (x, w, T)

        def f(i):
            return a.f(i) + h.ite(i == k, w, h.const(0))
        masses_are(h, 'sum', r, n, f)
        h.eq('enthalpy-adds-up', getattr(r, fl.H), a.H() + w * hh(h)(x, T),
             abs(a.H()) if not h.sym else 0)
        consistent(h, 'sum', r, names, n, f)
        h.eq('pressure', r.P, a.P)
        unchanged(h, 'operand-unchanged', a)
        independent(h, names, n, r, a.p)

    @C('__add__', 'extract')
    def unknown_compound(h):
        mod, n, names, m, a = setup(h)
        x = h.foreign_name('other', names)
        w = h.real('x', nonneg=True)
        e, r = h.call(lambda: a.p + (x, w))
        h.check('rejected', e is not None)
        unchanged(h, 'unchanged-by-rejected-addition', a)
        op = h.choice('op', [(x, w), x])
        e, r = h.call(a.p.extract, op)
        unchanged(h, 'unchanged-by-extraction', a)
        if e is None:
            masses_are(h, 'nothing-extracted', r, n, lambda i: h.const(0))

    @C('__mul__')
    def scale(h):
        mod, n, names, m, a = setup(h)
        k = h.real('k', nonneg=True, tag=h.choice('t', ['float', 'np']))
        r = a.p * k
        at(h, 'product', r, names, n, lambda i: a.f(i) * k, a.T, a.P)
        h.eq('enthalpy-scales', getattr(r, fl.H), a.H() * k)
        unchanged(h, 'operand-unchanged', a)
        independent(h, names, n, r, a.p)
        e, s = h.call(lambda: a.p * (-1.0 - k))
        h.check('negative-factor-rejected', e is not None)

    @C('extract', '_extract_' + fl.mass)
    def extract_mass(h):
        mod, n, names, m, a = setup(h)
        h.assume(a.total > 0.0)
        x = h.real('x', nonneg=True, tag=h.choice('t', ['float', 'np']))
        e, r = h.call(a.p.extract, x)
        if e is not None:
            h.check('rejected-only-when-too-much', x > a.total)
            unchanged(h, 'unchanged-when-rejected', a)
            return
        h.check('accepted-only-when-enough', x <= a.total)
        h.eq('extracted', getattr(r, fl.total), x)
        at(h, 'extracted', r, names, n, lambda i: a.f(i) * x / a.total,
           a.T, a.P)
        v, w = getattr(r, fl.masses), getattr(a.p, fl.masses)
        h.check('nothing-lost', h.forall(n, lambda i: h.close(
            h.at(v, i) + h.at(w, i), a.f(i))))
        h.eq('no-enthalpy-lost', getattr(r, fl.H) + getattr(a.p, fl.H),
             a.H(), abs(getattr(r, fl.H)) if not h.sym else 0)
        h.eq('temperature-unchanged', a.p.T, a.T)
        h.eq('pressure-unchanged', a.p.P, a.P)
        independent(h, names, n, r, a.p)

    @C('extract', '_extract_compound_' + fl.mass)
    def extract_compound_mass(h):
        mod, n, names, m, a = setup(h)
        c, k = h.name_in('k', names, n)
        x = h.real('x', nonneg=True, tag=h.choice('t', ['float', 'np']))
        e, r = h.call(a.p.extract, (c, x))
        if e is not None:
            h.check('rejected-only-when-too-much', x > a.f(k))
            unchanged(h, 'unchanged-when-rejected', a)
            return
        h.check('accepted-only-when-enough', x <= a.f(k))
        at(h, 'extracted', r, names, n, lambda i: h.ite(
            i == k, x, h.const(0)), a.T, a.P)
        at(h, 'remaining', a.p, names, n, lambda i: a.f(i) - h.ite(
            i == k, x, h.const(0)), a.T, a.P)
        independent(h, names, n, r, a.p)

    @C('extract', '_extract_compound')
    def extract_all_of_compound(h):
        mod, n, names, m, a = setup(h)
        c, k = h.name_in('k', names, n)
        r = a.p.extract(c)
        at(h, 'extracted', r, names, n, lambda i: h.ite(
            i == k, a.f(i), h.const(0)), a.T, a.P)
        at(h, 'remaining', a.p, names, n, lambda i: h.ite(
            i == k, h.const(0), a.f(i)), a.T, a.P)
        independent(h, names, n, r, a.p)

    @C('extract', '_extract_material')
    def extract_material(h):
        mod, n, names, m, a = setup(h)
        n2 = h.size('n_b', lo=1)
        names2, n2 = pkg.related(h, 'compound_b', names, h.names(
            'compound_b', n2, POOL), n2)
        m2 = material(h, mod, 'b', names2)
        h.class_invariant(type(a.p), '_' + fl.H, lambda o: enthalpy(
            h, names, n, lambda i: h.at(getattr(o, fl.masses), i), o._T))
        r = a.p.extract(m2)
        at(h, 'extracted', r, names2, n2, lambda j: h.sum(
            n, lambda i: h.ite(h.same(h.at(names, i), h.at(names2, j)),
                               a.f(i), h.const(0))), a.T, a.P)
        at(h, 'remaining', a.p, names, n, lambda i: h.ite(
            h.contains(names2, h.at(names, i)), h.const(0), a.f(i)),
           a.T, a.P)

    @C('T', fl.H, 'P')
    def set_state(h):
        mod, n, names, m, a = setup(h)
        T = h.real('T', lo=25.0, hi=1500.0)
        Pr = h.real('P', pos=True)
        a.p.T = T
        a.p.P = Pr
        at(h, 'after-setting-temperature', a.p, names, n, a.f, T, Pr)
        H = a.H()
        setattr(a.p, fl.H, H)
        h.eq('enthalpy-stored', getattr(a.p, fl.H), H)
        consistent(h, 'after-setting-enthalpy', a.p, names, n, a.f)
        masses_are(h, 'contents-unchanged', a.p, n, a.f)
        h.eq('pressure-unchanged', a.p.P, Pr)

    @C('_calculate_T', fl.H)
    def solve_linear_enthalpy(h):
        """The secant solver is exact where the compounds' enthalpies are
        linear in T; for the real ones it is only sampled."""
        mod = h.mod(MOD)
        n = h.size('n', lo=1)
        names = h.names('compound', n, POOL)
        m = material(h, mod, 'a', names)
        v = h.vec('mass', n, pos=True, kind='np')
        T0 = h.real('T0', lo=25.0, hi=1500.0)
        T1 = h.real('T1', lo=25.0, hi=1500.0)
        if h.sym:
            a, b = h.func('h0'), h.func('cp', pos=True)
            h.stub(TC, 'H', lambda compound_string, T, mass=1.0:
                   mass * (a(compound_string) + b(compound_string) * T))
            A = h.sum(n, lambda i: h.at(v, i) * a(h.at(names, i)))
            B = h.sum(n, lambda i: h.at(v, i) * b(h.at(names, i)))
            h.assume(B > 0.0)
            H = A + B * T1
        else:
            H = enthalpy(h, names, n, lambda i: h.at(v, i), T1)
        p = getattr(mod, fl.cls)(m, v.copy(), 1.0, T0)
        setattr(p, fl.H, H)
        h.eq('enthalpy-stored', getattr(p, fl.H), H)
        masses_are(h, 'contents-unchanged', p, n, lambda i: h.at(v, i))
        if h.sym:
            h.eq('exact-temperature', p.T, T1)
        else:
            s = enthalpy(h, names, n, lambda i: h.at(v, i), p.T)
            h.check('exact-temperature', h.near(H, s, 3e-5, s))

    @C('clear', 'clone')
    def clear_and_clone(h):
        mod, n, names, m, a = setup(h)
        c = a.p.clone()
        at(h, 'copy', c, names, n, a.f, a.T, a.P)
        x, k = h.name_in('k', names, n)
        c.extract(x)
        unchanged(h, 'original-unchanged', a)
        a.p.clear()
        at(h, 'empty', a.p, names, n, lambda i: h.const(0), h.const(25),
           h.const(1))
        h.eq('empty-enthalpy', getattr(a.p, fl.H), h.const(0))
        masses_are(h, 'copy-unchanged', c, n, lambda i: h.ite(
            i == k, h.const(0), a.f(i)))

    @C(fl.amounts, fl.amount, fl.total_amount)
    def amounts(h):
        mod, n, names, m, a = setup(h)
        st = h.mod(ST)
        if h.sym:
            mm = h.func('molar_mass', pos=True)
            h.stub(ST, 'amount', lambda compound, mass: mass / mm(compound))
        else:
            mm = st.molar_mass
        s = getattr(a.p, fl.amounts)()
        h.check('one-amount-per-compound', h.len(s) == n)
        h.check('amounts', h.forall(n, lambda i: h.close(
            h.at(s, i) * mm(h.at(names, i)), a.f(i))))
        h.eq('total-amount', getattr(a.p, fl.total_amount), h.sum(
            n, lambda i: a.f(i) / mm(h.at(names, i))))
        x, k = h.name_in('k', names, n)
        h.eq('amount', getattr(a.p, fl.amount)(x), a.f(k) / mm(x))
        unchanged(h, 'unchanged', a)

    @C(fl.elements, fl.element, fl.element_dict)
    def element_masses(h):
        mod, n, names, m, a = setup(h)
        st = h.mod(ST)
        if h.sym:
            emf0 = h.func('element_mass_fraction', nonneg=True, arity=2)

            def emf(c, e):
                # the phase in 'Fe2O3[S]' does not matter
                return emf0(h.before(c, '['), e)
            h.stub(ST, 'element_mass_fraction', lambda c, e: emf(c, e))
            h.stub(ST, 'element_mass_fractions', lambda c, es:
                   [emf(c, e) for e in es])
            h.stub(MOD, 'cc', None)
        else:
            emf = st.element_mass_fraction
        s = getattr(a.p, fl.elements)()
        d = getattr(a.p, fl.element_dict)()
        for ix, el in enumerate(m.elements):
            w = h.sum(n, lambda i: a.f(i) * emf(h.at(names, i), el))
            h.eq('element-mass', s[ix], w)
            h.eq('element-mass-dictionary', d[el], w)
            h.eq('one-element', getattr(a.p, fl.element)(el), w)
        if not h.sym:
            h.eq('elements-add-up', sum(s), a.total)
        unchanged(h, 'unchanged', a)
