"""C13: assays and packages made from them, in the four material modules."""
from contracts import c08_chem, c09_psd, c10_slurry, thermo_pkg, preload
from pyvc.harness import contract

PRE = 'auxi/modelling/process/materials/'


class Fl(object):
    kind = 'np'

    def add(self, h, m, name, v, extra):
        m.add_assay(name, v)

    def extras(self, h, tag):
        return None

    def stored(self, m, name):
        return m.assays[name]

    def extra_ok(self, h, label, m, name, e):
        pass

    def wrong_type(self, h, v):
        return v.tolist()

    def invalid_extra(self, h, extra):
        return []

    def create(self, m, *a, **k):
        return m.create_package(*a, **k)

    def whole(self, h, p):
        return p.get_mass()

    creators = ['create_package']


class Chem(Fl):
    name, mod, cls = 'chem', c08_chem.MOD, 'MaterialPackage'
    kind = 'list'
    pool = c08_chem.POOL

    def names(self, h, n):
        return h.names('component', n, self.pool)

    def material(self, h, mod, names, n, assays):
        return c08_chem.material(h, mod, 'a', names, n,
                                 [(k, v) for k, v, e in assays])

    def masses(self, p):
        return p.compound_masses

    def wrong_type(self, h, v):
        return tuple([0.5, 0.5])


class Psd(Fl):
    name, mod = 'psd', c09_psd.MOD
    names = lambda self, h, n: c09_psd.Psd().names(h, 'component', n)

    def material(self, h, mod, names, n, assays):
        return c09_psd.material(h, mod, 'a', names, n,
                                [(k, v) for k, v, e in assays])

    def masses(self, p):
        return p.size_class_masses


class Slurry(Fl):
    name, mod = 'slurry', c10_slurry.MOD
    names = lambda self, h, n: c10_slurry.sizes_of(h, 'component', n)

    def extras(self, h, tag):
        return (h.real('density_' + tag, pos=True),
                h.real('water_' + tag, lo=0.0, hi=1.0))

    def material(self, h, mod, names, n, assays):
        return c10_slurry.material(h, mod, 'a', names, n,
                                   [(k, e[0], e[1], v) for k, v, e in assays])

    def masses(self, p):
        return p.size_class_masses

    def add(self, h, m, name, v, e):
        m.add_assay(name, e[0], e[1], v)

    def extra_ok(self, h, label, m, name, e):
        h.eq(label + '-solid-density', m.solid_densities[name], e[0])
        h.eq(label + '-water-fraction', m.H2O_fractions[name], e[1])

    def invalid_extra(self, h, e):
        return [(1, e[1]), (e[0], 1)]


class Thermo(Fl):
    name, mod = 'thermo', thermo_pkg.MOD
    creators = ['create_package', 'create_stream']

    def names(self, h, n):
        return h.names('component', n, thermo_pkg.POOL)

    def material(self, h, mod, names, n, assays):
        if h.sym:
            g = thermo_pkg.hh(h)
            h.stub(thermo_pkg.TC, 'H', lambda compound_string, T, mass=1.0:
                   mass * g(compound_string, T))
        return thermo_pkg.material(h, mod, 'a', names,
                                   [(k, v) for k, v, e in assays])

    def stored(self, m, name):
        return m.converted_assays[name]

    def masses(self, p):
        return p._compound_masses if hasattr(p, '_compound_masses') \
            else p._compound_mfrs

    def whole(self, h, p):
        return p.mass if hasattr(p, '_compound_masses') else p.mfr


def register(fl):
    F = PRE + fl.name + '.py:Material.'
    preload.need('C13', fl.mod)

    def C(*targets):
        def deco(fn):
            return contract('C13', [F + t for t in targets],
                            name=fl.name + '_' + fn.__name__)(fn)
        return deco

    def setup(h):
        mod = h.mod(fl.mod)
        n = h.size('n', lo=1)
        names = fl.names(h, n)
        assays = []
        for k in ('A', 'B'):
            v = h.vec('assay_' + k, n, nonneg=True, kind=fl.kind)
            assays.append((k, v, fl.extras(h, k)))
        return mod, n, names, fl.material(h, mod, names, n, assays), assays

    def assay_is(h, label, m, name, n, v, e):
        s = fl.stored(m, name)
        h.check(label + '-one-fraction-per-component', h.len(s) == n)
        h.check(label, h.forall(n, lambda i: h.close(h.at(s, i), h.at(v, i))))
        fl.extra_ok(h, label, m, name, e)

    def intact(h, label, m, n, assays):
        for k, v, e in assays:
            assay_is(h, label + '-' + k, m, k, n, v, e)

    def contents(h, label, p, n, v, e, mass, total):
        h.check(label + '-one-mass-per-component', h.len(fl.masses(p)) == n)
        if e is None:
            x = mass
        else:
            h.eq(label + '-water', p.H2O_mass, mass * e[1])
            h.eq(label + '-density', p.solid_density, e[0])
            x = mass * (1.0 - e[1])
        h.check(label + '-in-proportion', h.forall(n, lambda i: h.close(
            h.at(fl.masses(p), i) * total, x * h.at(v, i))))

    @C(*fl.creators)
    def package_from_assay(h):
        mod, n, names, m, assays = setup(h)
        k, v, e = assays[h.choice('assay', [0, 1])]
        total = h.sum(n, lambda i: h.at(v, i))
        h.assume(total > 0.0)
        mass = h.real('mass', nonneg=True)
        norm = h.choice('normalise', ['default', True, False])
        make = getattr(m, h.choice('create', fl.creators))
        kw = {} if norm == 'default' else {'normalise': norm}
        if fl.name == 'thermo':
            T = h.real('T', lo=25.0, hi=1500.0)
            Pr = h.real('P', pos=True)
            p = make(k, mass, Pr, T, **kw)
            h.eq('temperature', p.T, T)
            h.eq('pressure', p.P, Pr)
        else:
            p = make(k, mass, **kw)
        if norm is False:
            contents(h, 'as-is', p, n, v, e, mass, 1.0)
        else:
            contents(h, 'normalised', p, n, v, e, mass, total)
            h.eq('mass', fl.whole(h, p), mass)
        h.check('material', p.material is m)
        intact(h, 'assays-unchanged', m, n, assays)

    @C(*fl.creators)
    def package_does_not_share_the_assay(h):
        mod, n, names, m, assays = setup(h)
        total = h.sum(n, lambda i: h.at(assays[0][1], i))
        h.assume(total > 0.0)
        create = h.choice('create', fl.creators)
        p = getattr(m, create)('A', total)
        q = getattr(m, create)('A', total)
        z = getattr(m, create)()
        y = getattr(m, create)()
        x = h.real('x', nonneg=True)
        c, i = h.name_in('component_changed', names, n)
        fl.masses(p)[i] = x
        fl.masses(z)[i] = x
        intact(h, 'assays-unchanged', m, n, assays)
        e = assays[0][2]
        contents(h, 'other-package', q, n, assays[0][1], e, total, total)
        h.check('other-empty-package', h.forall(n, lambda j: h.close(
            h.at(fl.masses(y), j), h.const(0))))

    @C(*(fl.creators + ['create_empty_assay']))
    def empty_package(h):
        mod, n, names, m, assays = setup(h)
        p = getattr(m, h.choice('create', fl.creators))()
        h.check('one-mass-per-component', h.len(fl.masses(p)) == n)
        h.check('empty', h.forall(n, lambda i: h.close(
            h.at(fl.masses(p), i), h.const(0))))
        h.eq('no-mass', fl.whole(h, p), h.const(0))
        s = m.create_empty_assay()
        h.check('empty-assay-one-per-component', h.len(s) == n)
        h.check('empty-assay', h.forall(n, lambda i: h.close(
            h.at(s, i), h.const(0))))
        intact(h, 'assays-unchanged', m, n, assays)

    @C('add_assay', 'get_assay_total', 'create_package')
    def add_assay(h):
        mod, n, names, m, assays = setup(h)
        v = h.vec('assay_new', n, nonneg=True, kind=fl.kind)
        e = fl.extras(h, 'new')
        total = h.sum(n, lambda i: h.at(v, i))
        h.assume(total > 0.0)
        fl.add(h, m, 'new', v if fl.kind == 'list' and not h.sym
               else v.copy(), e)
        assay_is(h, 'added', m, 'new', n, v, e)
        intact(h, 'other-assays-unchanged', m, n, assays)
        again, _ = h.call(fl.add, h, m, 'new', v if fl.kind == 'list' and
                          not h.sym else v.copy(), e)
        h.check('not-again', again is not None)
        h.eq('total', m.get_assay_total('new'), total)
        mass = h.real('mass', nonneg=True)
        p = getattr(m, h.choice('create', fl.creators))('new', mass)
        contents(h, 'package', p, n, v, e, mass, total)
        h.eq('mass', fl.whole(h, p), mass)

    @C('add_assay')
    def rejected_assay(h):
        mod, n, names, m, assays = setup(h)
        e = fl.extras(h, 'new')
        bad = h.choice('defect', ['size', 'type', 'name', 'extra'])
        name = 'new'
        k = n
        if bad == 'size':
            k = h.size('wrong_size', lo=0)
            h.assume(h.not_(k == n))
        v = h.vec('assay_new', k, nonneg=True, kind=fl.kind)
        if bad == 'type':
            v = fl.wrong_type(h, v)
        elif bad == 'name':
            name = h.choice('existing', ['A', 'B'])
        elif bad == 'extra':
            alt = fl.invalid_extra(h, e)
            if not alt:
                return
            e = alt[h.choice('which', [0, 1])]
        x, r = h.call(lambda: fl.add(h, m, name, v, e))
        h.check('rejected', x is not None)
        intact(h, 'assays-unchanged', m, n, assays)
        h.check('not-stored', sorted(m.assays if fl.name != 'thermo'
                                     else m.raw_assays) == ['A', 'B'])
        if fl.name == 'thermo':
            h.check('not-stored-either',
                    sorted(m.converted_assays) == ['A', 'B'])
        if fl.name == 'slurry':
            h.check('no-density-or-water-stored',
                    sorted(m.solid_densities) == ['A', 'B'] and
                    sorted(m.H2O_fractions) == ['A', 'B'])
        y, r = h.call(m.create_package, 'new', 1.0)
        h.check('not-available', y is not None)


for f in (Chem, Psd, Slurry, Thermo):
    register(f())
