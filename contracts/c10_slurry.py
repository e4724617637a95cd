"""C10: mass, water and volume balance of slurry packages."""
import copy
import os

from contracts import pkg, preload
from pyvc.harness import contract as _contract

MOD = 'auxi.modelling.process.materials.slurry'
preload.need('C10', MOD)
F = 'auxi/modelling/process/materials/slurry.py:MaterialPackage.'
POOL = [300e-6, 150e-6, 75e-6, 53e-6, 38e-6, 20e-6, 10e-6, 5e-6, 0.0,
        1e-3, 2e-3, 5e-3, 0.01, 0.02, 0.05, 0.1]


def contract(prop, targets):
    return lambda fn: _contract(prop, targets)(pkg.with_ends(fn))


def material(h, mod, tag, sizes, n, assays=()):
    """assays: (name, solid density, water fraction, fractions)"""
    if h.sym:
        m = mod.Material.__new__(mod.Material)
        m.name = 'material ' + tag
        m.size_classes = sizes
        m.size_class_count = h.len(sizes)
        m.assays, m.solid_densities, m.H2O_fractions = \
            h.dict(), h.dict(), h.dict()
        for k, d, w, v in assays:
            m.assays[k] = v.copy()
            m.solid_densities[k] = d
            m.H2O_fractions[k] = w
        return m
    rows = [['SizeClass'] + [a[0] for a in assays],
            ['solid_density'] + [repr(float(a[1])) for a in assays],
            ['H2O'] + [repr(float(a[2])) for a in assays]]
    for i, c in enumerate(sizes):
        rows += [[repr(c)] + [repr(float(a[3][i])) for a in assays],
                 None if assays else []]
    path = pkg.write_table(h, [x for x in rows if x != []])
    try:
        return mod.Material('material ' + tag, path, 'a material')
    finally:
        os.unlink(path)


def some_assay(h, tag, n):
    k, v = pkg.some_assay(h, tag, n, 'np')
    return (k, h.real('assay_density_' + tag, pos=True),
            h.real('assay_water_' + tag, lo=0.0, hi=1.0), v)


def sizes_of(h, tag, n):
    if h.sym:
        return h.numbers(tag, n, nonneg=True)
    return h.numbers(tag, n, gen=lambda r: r.choice(POOL))


class P(object):
    """a package and its contents at the start: a new one, a copy, a product,
    or one that was asked about its contents and then changed"""

    def __init__(self, h, mod, tag, m, n, sizes=None):
        self.v = h.vec('mass_' + tag, n, nonneg=True, kind='np')
        self.w = h.real('water_' + tag, nonneg=True)
        self.d = h.real('density_' + tag, pos=True)
        self.p = mod.MaterialPackage(m, self.d, self.w, self.v.copy())
        self.solids = h.sum(n, lambda i: h.at(self.v, i))
        self.volume = self.w + self.solids / self.d
        if sizes is None:
            return
        how = h.choice('history', ['new', 'clone', 'product', 'changed'])
        if how in ('clone', 'product'):
            q = copy.copy(self)
            self.p = self.p.clone() if how == 'clone' else self.p * 1.0
            h.ends_.append(lambda: unchanged(h, 'origin-unchanged', q, n))
        elif how == 'changed':
            x = h.real('former_water', pos=True)
            p = self.p = mod.MaterialPackage(m, self.d, self.w + x,
                                             self.v.copy())
            s, k = h.name_in('asked', sizes, n)
            p.get_mass(), p.get_solid_mass(), p.get_volume(), p.get_density()
            p.get_mass_fraction_solids(), p.get_volume_fraction_solids()
            p.get_size_class_mass(s)
            p.extract(('H2O', x))


def setup(h, tag='a'):
    mod = h.mod(MOD)
    n = h.size('n_' + tag, lo=1)
    sizes = sizes_of(h, 'size_' + tag, n)
    m = material(h, mod, tag, sizes, n, [some_assay(h, tag, n)])
    return mod, n, sizes, m, P(h, mod, tag, m, n, sizes)


def is_(h, label, p, n, f, w):
    """p holds f(i) of size class i and w of water"""
    h.check(label + '-one-mass-per-size-class',
            h.len(p.size_class_masses) == n)
    h.check(label + '-solids', h.forall(n, lambda i: h.close(
        h.at(p.size_class_masses, i), f(i))))
    h.eq(label + '-water', p.H2O_mass, w)


def unchanged(h, label, a, n):
    is_(h, label, a.p, n, lambda i: h.at(a.v, i), a.w)
    h.eq(label + '-density', a.p.solid_density, a.d)


def independent(h, sizes, n, *ps):
    """changing one of the packages in place leaves the others as they are"""
    s, _ = h.name_in('changed_later', sizes, n)
    for k, p in enumerate(ps):
        old = [(q, q.size_class_masses.copy(), q.H2O_mass)
               for q in ps[:k] + ps[k + 1:]]
        p.extract(h.text(s))
        p.extract(('H2O', p.H2O_mass))
        for q, v, w in old:
            is_(h, 'separate', q, n, lambda i: h.at(v, i), w)


@contract('C10', [F + 'get_mass'])
def measures(h):
    mod, n, sizes, m, a = setup(h)
    h.eq('solid-mass', a.p.get_solid_mass(), a.solids)
    h.eq('mass', a.p.get_mass(), a.solids + a.w)
    h.eq('volume', a.p.get_volume(), a.volume)
    h.assume(a.solids + a.w > 0.0)
    h.eq('density-times-volume', a.p.get_density() * a.p.get_volume(),
         a.solids + a.w)
    h.eq('solids-mass-fraction', a.p.get_mass_fraction_solids() *
         a.p.get_mass(), a.solids)
    h.eq('solids-volume-fraction', a.p.get_volume_fraction_solids() *
         a.p.get_volume(), a.solids / a.d, a.volume)
    unchanged(h, 'unchanged', a, n)
    x, k = h.name_in('k', sizes, n)
    h.eq('size-class-mass', a.p.get_size_class_mass(x), h.at(a.v, k))
    h.assume(a.solids > 0.0)
    h.eq('size-class-fraction', a.p.get_size_class_mass_fraction(x) *
         a.solids, h.at(a.v, k))
    y = a.p.get_assay()
    h.eq('assay-sums-to-one', h.sum(n, lambda i: h.at(y, i)), h.const(1))
    h.check('assay', h.forall(n, lambda i: h.close(
        h.at(y, i) * a.solids, h.at(a.v, i))))


@contract('C10', [F + '__add__'])
def add_same_material(h):
    mod, n, sizes, m, a = setup(h)
    b = P(h, mod, 'b', m, n)
    r = a.p + b.p
    is_(h, 'sum', r, n, lambda i: h.at(a.v, i) + h.at(b.v, i), a.w + b.w)
    h.eq('mass-adds-up', r.get_mass(), a.p.get_mass() + b.p.get_mass())
    h.eq('volume-adds-up', r.get_volume(), a.volume + b.volume)
    unchanged(h, 'left-operand-unchanged', a, n)
    unchanged(h, 'right-operand-unchanged', b, n)
    independent(h, sizes, n, r, a.p, b.p)


@contract('C10', [F + '__add__'])
def add_to_itself(h):
    mod, n, sizes, m, a = setup(h)
    r = a.p + a.p
    is_(h, 'sum', r, n, lambda i: h.at(a.v, i) * 2.0, a.w * 2.0)
    h.eq('volume-adds-up', r.get_volume(), a.volume * 2.0)
    unchanged(h, 'operand-unchanged', a, n)
    independent(h, sizes, n, r, a.p)


@contract('C10', [F + '__add__'])
def add_other_material(h):
    mod, n, sizes, m, a = setup(h)
    n2 = h.size('n_b', lo=1)
    sizes2, n2 = pkg.related(h, 'size_b', sizes, sizes_of(h, 'size_b', n2), n2)
    b = P(h, mod, 'b', material(
        h, mod, 'b', sizes2, n2, [some_assay(h, 'b', n2)]), n2)
    e, r = h.call(lambda: a.p + b.p)
    inside = h.forall(n2, lambda j: h.contains(sizes, h.at(sizes2, j)))
    unchanged(h, 'left-operand-unchanged', a, n)
    unchanged(h, 'right-operand-unchanged', b, n2)
    if e is not None:
        h.check('rejected-only-when-a-size-class-is-missing', h.not_(inside))
        return
    h.check('accepted-only-when-all-size-classes-exist', inside)
    is_(h, 'sum', r, n, lambda i: h.at(a.v, i) + h.sum(
        n2, lambda j: h.ite(h.close(h.at(sizes, i), h.at(sizes2, j)),
                            h.at(b.v, j), h.const(0))), a.w + b.w)
    h.eq('mass-adds-up', r.get_mass(), a.solids + a.w + b.solids + b.w)
    h.eq('volume-adds-up', r.get_volume(), a.volume + b.volume)
    independent(h, sizes, n, r, a.p)


@contract('C10', [F + '__add__', F + '_is_H2O_mass_tuple'])
def add_water(h):
    mod, n, sizes, m, a = setup(h)
    x = h.real('x', nonneg=True)
    r = a.p + ('H2O', x)
    is_(h, 'sum', r, n, lambda i: h.at(a.v, i), a.w + x)
    h.eq('density-unchanged', r.solid_density, a.d)
    unchanged(h, 'operand-unchanged', a, n)
    h.eq('volume-adds-up', r.get_volume(), a.volume + x)
    independent(h, sizes, n, r, a.p)


@contract('C10', [F + '__add__', F + 'extract', F + '_is_H2O_mass_tuple'])
def only_water_is_added_by_name(h):
    mod, n, sizes, m, a = setup(h)
    name = h.str('name')
    h.assume(h.not_(h.same(name, 'H2O')))
    x = h.real('x', nonneg=True)
    op = h.choice('op', ['add', 'extract'])
    if op == 'add':
        e, r = h.call(lambda: a.p + (name, x))
    else:
        e, r = h.call(a.p.extract, (name, x))
    h.check('rejected', e is not None)
    unchanged(h, 'unchanged', a, n)


@contract('C10', [F + '__add__'])
def add_size_class(h):
    mod, n, sizes, m, a = setup(h)
    s, k = h.name_in('k', sizes, n)
    x = h.real('x', nonneg=True, tag=h.choice('t', ['float', 'np']))
    r = a.p + (s, x)
    is_(h, 'sum', r, n, lambda i: h.at(a.v, i) +
        h.ite(i == k, x, h.const(0)), a.w)
    h.eq('density-unchanged', r.solid_density, a.d)
    unchanged(h, 'operand-unchanged', a, n)
    independent(h, sizes, n, r, a.p)


@contract('C10', [F + '__add__', F + 'extract'])
def unknown_size_class_rejected(h):
    mod, n, sizes, m, a = setup(h)
    s = h.foreign_number('other', sizes)
    x = h.real('x', nonneg=True)
    op = h.choice('op', ['add', 'extract', 'extract all'])
    f = {'add': lambda: a.p + (s, x), 'extract': lambda: a.p.extract((s, x)),
         'extract all': lambda: a.p.extract(h.text(s))}[op]
    e, r = h.call(f)
    h.check('rejected', e is not None)
    unchanged(h, 'unchanged', a, n)


@contract('C10', [F + '__mul__'])
def scale(h):
    mod, n, sizes, m, a = setup(h)
    k = h.real('k', nonneg=True, tag=h.choice('t', ['float', 'np']))
    r = a.p * k
    is_(h, 'product', r, n, lambda i: h.at(a.v, i) * k, a.w * k)
    h.eq('density-unchanged', r.solid_density, a.d)
    h.eq('volume-scales', r.get_volume(), a.volume * k)
    h.eq('mass-scales', r.get_mass(), (a.solids + a.w) * k)
    unchanged(h, 'operand-unchanged', a, n)
    independent(h, sizes, n, r, a.p)


@contract('C10', [F + '__mul__', F + 'extract'])
def negative_factor_rejected(h):
    mod, n, sizes, m, a = setup(h)
    k = h.real('k', pos=True)
    e, r = h.call(lambda: a.p * (-k))
    h.check('rejected', e is not None)
    unchanged(h, 'operand-unchanged', a, n)


@contract('C10', [F + 'extract'])
def extract_mass(h):
    mod, n, sizes, m, a = setup(h)
    total = a.solids + a.w
    h.assume(total > 0.0)
    x = h.real('x', nonneg=True, tag=h.choice('t', ['float', 'np']))
    e, r = h.call(a.p.extract, x)
    if e is not None:
        h.check('rejected-only-when-too-much', x > total)
        unchanged(h, 'unchanged-when-rejected', a, n)
        return
    h.check('accepted-only-when-enough', x <= total)
    h.eq('extracted-mass', r.get_mass(), x)
    h.eq('remaining-mass', a.p.get_mass(), total - x, total)
    h.check('no-solids-lost', h.forall(n, lambda i: h.close(
        h.at(r.size_class_masses, i) + h.at(a.p.size_class_masses, i),
        h.at(a.v, i))))
    h.eq('no-water-lost', r.H2O_mass + a.p.H2O_mass, a.w)
    h.eq('same-composition', r.H2O_mass * total, x * a.w)
    h.check('same-size-distribution', h.forall(n, lambda i: h.close(
        h.at(r.size_class_masses, i) * total, x * h.at(a.v, i))))
    h.eq('volume-is-conserved', r.get_volume() + a.p.get_volume(), a.volume)
    independent(h, sizes, n, r, a.p)


@contract('C10', [F + 'extract'])
def extract_water(h):
    mod, n, sizes, m, a = setup(h)
    x = h.real('x', nonneg=True)
    e, r = h.call(a.p.extract, ('H2O', x))
    if e is not None:
        h.check('rejected-only-when-too-much', x > a.w)
        unchanged(h, 'unchanged-when-rejected', a, n)
        return
    h.check('accepted-only-when-enough', x <= a.w)
    is_(h, 'extracted', r, n, lambda i: h.const(0), x)
    is_(h, 'remaining', a.p, n, lambda i: h.at(a.v, i), a.w - x)
    h.eq('volume-is-conserved', r.get_volume() + a.p.get_volume(), a.volume)
    independent(h, sizes, n, r, a.p)


@contract('C10', [F + 'extract'])
def extract_size_class(h):
    mod, n, sizes, m, a = setup(h)
    s, k = h.name_in('k', sizes, n)
    x = h.real('x', nonneg=True, tag=h.choice('t', ['float', 'np']))
    e, r = h.call(a.p.extract, (s, x))
    if e is not None:
        h.check('rejected-only-when-too-much', x > h.at(a.v, k))
        unchanged(h, 'unchanged-when-rejected', a, n)
        return
    h.check('accepted-only-when-enough', x <= h.at(a.v, k))
    is_(h, 'extracted', r, n, lambda i: h.ite(i == k, x, h.const(0)),
        h.const(0))
    is_(h, 'remaining', a.p, n, lambda i: h.at(a.v, i) -
        h.ite(i == k, x, h.const(0)), a.w)
    h.eq('volume-is-conserved', r.get_volume() + a.p.get_volume(), a.volume)
    independent(h, sizes, n, r, a.p)


@contract('C10', [F + 'extract'])
def extract_all_of_size_class(h):
    mod, n, sizes, m, a = setup(h)
    s, k = h.name_in('k', sizes, n)
    r = a.p.extract(h.text(s))
    is_(h, 'extracted', r, n, lambda i: h.ite(i == k, h.at(a.v, i),
                                              h.const(0)), h.const(0))
    is_(h, 'remaining', a.p, n, lambda i: h.ite(
        i == k, h.const(0), h.at(a.v, i)), a.w)
    h.eq('volume-is-conserved', r.get_volume() + a.p.get_volume(), a.volume)
    independent(h, sizes, n, r, a.p)


@contract('C10', [F + 'clear', F + 'clone'])
def clear_and_clone(h):
    mod, n, sizes, m, a = setup(h)
    c = a.p.clone()
    is_(h, 'copy', c, n, lambda i: h.at(a.v, i), a.w)
    h.eq('copy-density', c.solid_density, a.d)
    s, k = h.name_in('k', sizes, n)
    c.extract(h.text(s))
    unchanged(h, 'original-unchanged', a, n)
    a.p.clear()
    is_(h, 'empty', a.p, n, lambda i: h.const(0), h.const(0))
    h.eq('empty-mass', a.p.get_mass(), h.const(0))
    is_(h, 'copy-unchanged', c, n, lambda i: h.ite(
        i == k, h.const(0), h.at(a.v, i)), a.w)
