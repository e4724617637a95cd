"""Mass balance of packages of one component list (chem: compounds; psd: size
classes).  The same contracts are stated for both modules."""
import os
import tempfile

from pyvc.harness import contract as _contract


def write_table(h, rows):
    """a material file: one row per line, random white space between and
    around the fields, empty lines after the header rows"""
    fd, path = tempfile.mkstemp(suffix='.txt')
    r = h.rng
    with os.fdopen(fd, 'w') as f:
        for row in rows:
            if row is None:
                if r.random() < 0.2:
                    f.write(r.choice(['\n', '  \n', '\t\n']))
                continue
            f.write(r.choice(['', '', ' ', '\t']))
            for i, x in enumerate(row):
                f.write((r.choice([' ', ' ', '  ', '\t', ' \t ', '    '])
                         if i else '') + x)
            f.write(r.choice(['', '', ' ', '\t ']) + '\n')
    return path



def related(h, tag, names, names2, n2):
    """in run-time cases, often the same components in another order or some
    of them"""
    how = 0 if h.sym or not names else h.rng.randrange(3)
    if how:
        names2 = list(names)
        h.rng.shuffle(names2)
        names2 = h.log[tag] = names2[:len(names) if how == 1 else max(1, n2)]
        n2 = len(names2)
    return names2, n2


def some_assay(h, tag, n, kind):
    """an assay of the material that no operation on a package depends on"""
    return h.token('assay_name_' + tag), h.vec('assay_' + tag, n,
                                               nonneg=True, kind=kind)


def with_ends(fn):
    """run the checks left for the end of the contract"""
    def g(h):
        h.ends_ = []
        fn(h)
        for f in h.ends_:
            f()
    g.__name__, g.__doc__ = fn.__name__, fn.__doc__
    return g


class Flavour(object):
    """What differs between the two modules."""
    prop = mod = F = None

    def names(self, h, tag, n):
        """n distinct component keys"""

    def name_in(self, h, label, names, n):
        pass

    def foreign(self, h, label, names):
        pass

    def material(self, h, mod, tag, names, n):
        pass

    def masses(self, p):
        pass

    def vec(self, h, tag, n):
        pass


def register(fl):
    F, MOD = fl.F, fl.mod

    def contract(prop, targets):
        def deco(fn):
            return _contract(fl.prop, targets)(with_ends(fn))
        return deco

    def masses_are(h, label, p, n, f):
        """the package holds exactly f(i) of component i, for every i"""
        h.check(label + '-one-mass-per-component', h.len(fl.masses(p)) == n)
        h.check(label, h.forall(n, lambda i: h.close(
            h.at(fl.masses(p), i), f(i))))

    def package(h, mod, tag, m, n):
        v = fl.vec(h, 'mass_' + tag, n)
        return mod.MaterialPackage(m, fl.copy(h, v)), v

    def setup(h, tag='a'):
        """A package with any masses v: a new one, a copy, a product, or
        one that held other masses u, was asked about them and changed."""
        mod = h.mod(MOD)
        n = h.size('n_' + tag, lo=1)
        names = fl.names(h, 'component_' + tag, n)
        m = fl.material(h, mod, tag, names, n,
                        [some_assay(h, tag, n, fl.kind)])
        p, v = package(h, mod, tag, m, n)
        how = h.choice('history', ['new', 'clone', 'product', 'changed'])
        if how in ('clone', 'product'):
            q, p = p, p.clone() if how == 'clone' else p * 1.0
            h.ends_.append(lambda: masses_are(
                h, 'origin-unchanged', q, n, lambda i: h.at(v, i)))
        elif how == 'changed':
            u = h.vec('former_mass', n, pos=True, kind=fl.kind)
            q, p = p, mod.MaterialPackage(m, u)
            k, _ = fl.name_in(h, 'asked', names, n)
            p.get_mass(), p.get_assay(), fl.mass_of(p, k)
            fl.fraction_of(p, k)
            p.clear()
            p.add_to(q)
        return mod, n, names, m, p, v

    def independent(h, names, n, *ps):
        """changing one of the packages in place leaves the others as they
        are"""
        c, _ = fl.name_in(h, 'changed_later', names, n)
        for k, p in enumerate(ps):
            old = [(q, fl.copy(h, fl.masses(q)))
                   for q in ps[:k] + ps[k + 1:]]
            p.extract(fl.text(h, c))
            for q, v in old:
                masses_are(h, 'separate', q, n, lambda i: h.at(v, i))

    @contract(fl.prop, [F + 'MaterialPackage.__add__'])
    def add_same_material(h):
        mod, n, names, m, p, v = setup(h)
        q, w = package(h, mod, 'b', m, n)
        r = p + q
        masses_are(h, 'sum', r, n, lambda i: h.at(v, i) + h.at(w, i))
        masses_are(h, 'left-operand-unchanged', p, n, lambda i: h.at(v, i))
        masses_are(h, 'right-operand-unchanged', q, n, lambda i: h.at(w, i))
        h.eq('total-mass', r.get_mass(), p.get_mass() + q.get_mass())
        h.check('material', r.material is m)
        independent(h, names, n, r, p, q)

    @contract(fl.prop, [F + 'MaterialPackage.add_to'])
    def add_to_same_material(h):
        mod, n, names, m, p, v = setup(h)
        q, w = package(h, mod, 'b', m, n)
        p.add_to(q)
        masses_are(h, 'sum', p, n, lambda i: h.at(v, i) + h.at(w, i))
        masses_are(h, 'added-package-unchanged', q, n, lambda i: h.at(w, i))
        h.eq('total-mass', p.get_mass(), h.sum(n, lambda i: h.at(v, i)) +
             h.sum(n, lambda i: h.at(w, i)))
        independent(h, names, n, p, q)

    @contract(fl.prop, [F + 'MaterialPackage.__add__',
                        F + 'MaterialPackage.add_to'])
    def add_to_itself(h):
        mod, n, names, m, p, v = setup(h)
        r = p + p
        masses_are(h, 'sum-with-itself', r, n, lambda i: h.at(v, i) * 2.0)
        masses_are(h, 'operand-unchanged', p, n, lambda i: h.at(v, i))
        p.add_to(p)
        masses_are(h, 'added-to-itself', p, n, lambda i: h.at(v, i) * 2.0)
        independent(h, names, n, r, p)

    @contract(fl.prop, [F + 'MaterialPackage.__mul__'])
    def scale(h):
        mod, n, names, m, p, v = setup(h)
        k = h.real('k', nonneg=True)
        r = p * k
        masses_are(h, 'product', r, n, lambda i: h.at(v, i) * k)
        masses_are(h, 'operand-unchanged', p, n, lambda i: h.at(v, i))
        h.eq('total-mass', r.get_mass(), p.get_mass() * k)
        independent(h, names, n, r, p)

    @contract(fl.prop, [F + 'MaterialPackage.extract'])
    def extract_mass(h):
        mod, n, names, m, p, v = setup(h)
        total = h.sum(n, lambda i: h.at(v, i))
        h.assume(total > 0.0)
        x = h.real('x', nonneg=True)
        e, r = h.call(p.extract, x)
        if e is not None:
            h.check('rejected-only-when-too-much', x > total)
            masses_are(h, 'unchanged-when-rejected', p, n, lambda i: h.at(v, i))
            return
        h.check('accepted-only-when-enough', x <= total)
        h.eq('extracted-mass', r.get_mass(), x)
        h.eq('remaining-mass', p.get_mass(), total - x, total)
        h.check('nothing-lost', h.forall(n, lambda i: h.close(
            h.at(fl.masses(r), i) + h.at(fl.masses(p), i),
            h.at(v, i))))
        h.check('same-composition', h.forall(n, lambda i: h.close(
            h.at(fl.masses(r), i) * total, x * h.at(v, i))))
        independent(h, names, n, r, p)

    @contract(fl.prop, [F + 'MaterialPackage.extract'])
    def extract_component_mass(h):
        mod, n, names, m, p, v = setup(h)
        name, k = fl.name_in(h, 'k', names, n)
        x = h.real('x', nonneg=True)
        e, r = h.call(p.extract, (name, x))
        if e is not None:
            h.check('rejected-only-when-too-much', x > h.at(v, k))
            masses_are(h, 'unchanged-when-rejected', p, n, lambda i: h.at(v, i))
            return
        h.check('accepted-only-when-enough', x <= h.at(v, k))
        masses_are(h, 'extracted', r, n,
                   lambda i: h.ite(i == k, x, h.const(0)))
        masses_are(h, 'remaining', p, n,
                   lambda i: h.at(v, i) - h.ite(i == k, x, h.const(0)))
        h.eq('extracted-mass', r.get_mass(), x)
        independent(h, names, n, r, p)

    @contract(fl.prop, [F + 'MaterialPackage.extract'])
    def extract_all_of_component(h):
        mod, n, names, m, p, v = setup(h)
        name, k = fl.name_in(h, 'k', names, n)
        r = p.extract(fl.text(h, name))
        masses_are(h, 'extracted', r, n,
                   lambda i: h.ite(i == k, h.at(v, i), h.const(0)))
        masses_are(h, 'remaining', p, n,
                   lambda i: h.ite(i == k, h.const(0), h.at(v, i)))
        h.eq('nothing-lost', r.get_mass() + p.get_mass(),
             h.sum(n, lambda i: h.at(v, i)))
        independent(h, names, n, r, p)

    @contract(fl.prop, [F + 'MaterialPackage.__add__'])
    def add_component(h):
        mod, n, names, m, p, v = setup(h)
        name, k = fl.name_in(h, 'k', names, n)
        x = h.real('x', nonneg=True)
        r = p + (name, x)
        masses_are(h, 'sum', r, n,
                   lambda i: h.at(v, i) + h.ite(i == k, x, h.const(0)))
        masses_are(h, 'operand-unchanged', p, n, lambda i: h.at(v, i))
        h.eq('total-mass', r.get_mass(), p.get_mass() + x)
        independent(h, names, n, r, p)

    @contract(fl.prop, [F + 'MaterialPackage.add_to'])
    def add_to_component(h):
        mod, n, names, m, p, v = setup(h)
        name, k = fl.name_in(h, 'k', names, n)
        x = h.real('x', nonneg=True)
        p.add_to((name, x))
        masses_are(h, 'sum', p, n,
                   lambda i: h.at(v, i) + h.ite(i == k, x, h.const(0)))

    @contract(fl.prop, [F + 'MaterialPackage.__add__', F + 'MaterialPackage.add_to'])
    def unknown_component_rejected(h):
        mod, n, names, m, p, v = setup(h)
        name = fl.foreign(h, 'other', names)
        x = h.real('x', nonneg=True)
        op = h.choice('op', ['add', 'add_to', 'extract', 'extract all'])
        f = {'add': lambda: p + (name, x), 'add_to': lambda: p.add_to((name, x)),
             'extract': lambda: p.extract((name, x)),
             'extract all': lambda: p.extract(fl.text(h, name))}[op]
        e, r = h.call(f)
        h.check('rejected', e is not None)
        masses_are(h, 'unchanged-when-rejected', p, n, lambda i: h.at(v, i))

    def two_materials(h):
        mod, n, names, m, p, v = setup(h)
        m2 = h.size('n_b', lo=1)
        names2, m2 = related(h, 'component_b', names, fl.names(
            h, 'component_b', m2), m2)
        mb = fl.material(h, mod, 'b', names2, m2,
                         [some_assay(h, 'b', m2, fl.kind)])
        q, w = package(h, mod, 'b', mb, m2)
        return mod, n, names, m, p, v, m2, names2, q, w

    @contract(fl.prop, [F + 'MaterialPackage.__add__', F + 'MaterialPackage.add_to'])
    def add_other_material(h):
        mod, n, names, m, p, v, n2, names2, q, w = two_materials(h)
        op = h.choice('op', ['add', 'add_to'])
        if op == 'add':
            e, r = h.call(lambda: p + q)
        else:
            e, r = h.call(p.add_to, q)
        inside = h.forall(n2, lambda j: h.contains(names, h.at(names2, j)))
        if e is not None:
            h.check('rejected-only-when-a-component-is-missing', h.not_(inside))
            masses_are(h, 'unchanged-when-rejected', p, n, lambda i: h.at(v, i))
            masses_are(h, 'added-package-unchanged', q, n2, lambda i: h.at(w, i))
            return
        h.check('accepted-only-when-all-components-exist', inside)
        s = r if op == 'add' else p
        masses_are(h, 'sum', s, n, lambda i: h.at(v, i) + h.sum(
            n2, lambda j: h.ite(h.same(h.at(names, i), h.at(names2, j)),
                                h.at(w, j), h.const(0))))
        masses_are(h, 'added-package-unchanged', q, n2, lambda i: h.at(w, i))
        if op == 'add':
            masses_are(h, 'left-operand-unchanged', p, n, lambda i: h.at(v, i))
        h.eq('total-mass', s.get_mass(), h.sum(n, lambda i: h.at(v, i)) +
             h.sum(n2, lambda j: h.at(w, j)))
        if op == 'add':
            independent(h, names, n, s, p)

    @contract(fl.prop, [F + 'MaterialPackage.clear'])
    def clear(h):
        mod, n, names, m, p, v = setup(h)
        p.clear()
        masses_are(h, 'empty', p, n, lambda i: h.const(0))
        h.eq('mass', p.get_mass(), h.const(0))

    @contract(fl.prop, [F + 'MaterialPackage.clone'])
    def clone_is_independent(h):
        mod, n, names, m, p, v = setup(h)
        c = p.clone()
        masses_are(h, 'copy', c, n, lambda i: h.at(v, i))
        name, k = fl.name_in(h, 'k', names, n)
        x = h.real('x', nonneg=True)
        c.add_to((name, x))
        masses_are(h, 'original-unchanged', p, n, lambda i: h.at(v, i))
        p.clear()
        masses_are(h, 'copy-unchanged', c, n,
                   lambda i: h.at(v, i) + h.ite(i == k, x, h.const(0)))

    @contract(fl.prop, [F + 'MaterialPackage.get_assay',
                      F + 'MaterialPackage.' + fl.get_fraction])
    def assay_and_fractions(h):
        mod, n, names, m, p, v = setup(h)
        total = h.sum(n, lambda i: h.at(v, i))
        h.assume(total > 0.0)
        a = p.get_assay()
        h.check('one-fraction-per-component', h.len(a) == n)
        h.check('fraction-times-mass', h.forall(
            n, lambda i: h.close(h.at(a, i) * total, h.at(v, i))))
        h.eq('fractions-sum-to-one', h.sum(n, lambda i: h.at(a, i)), h.const(1))
        name, k = fl.name_in(h, 'k', names, n)
        h.eq('component-mass', fl.mass_of(p, name), h.at(v, k))
        h.eq('component-fraction', fl.fraction_of(p, name) * total,
             h.at(v, k))
        masses_are(h, 'unchanged', p, n, lambda i: h.at(v, i))
