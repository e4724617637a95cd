"""C08: mass balance of auxi.modelling.process.materials.chem packages."""
import os

from contracts import pkg, preload
from pyvc.harness import contract

MOD = 'auxi.modelling.process.materials.chem'
preload.need('C08', MOD)

POOL = ['Al2O3', 'CaO', 'Cr2O3', 'Fe2O3', 'Fe3O4', 'FeO', 'K2O', 'MgO',
        'MnO', 'Na2O', 'P4O10', 'SiO2', 'TiO2', 'V2O5', 'H2O', 'SO3']


class Chem(pkg.Flavour):
    prop, mod = 'C08', MOD
    F = 'auxi/modelling/process/materials/chem.py:'
    kind = 'list'
    get_fraction = 'get_compound_mass_fraction'

    def names(self, h, tag, n):
        return h.names(tag, n, POOL)

    def name_in(self, h, label, names, n):
        return h.name_in(label, names, n)

    def foreign(self, h, label, names):
        return h.foreign_name(label, names)

    def text(self, h, name):
        return name

    def vec(self, h, tag, n):
        return h.vec(tag, n, nonneg=True)

    def copy(self, h, v):
        return h.snapshot(v)

    def masses(self, p):
        return p.compound_masses

    def mass_of(self, p, name):
        return p.get_compound_mass(name)

    def fraction_of(self, p, name):
        return p.get_compound_mass_fraction(name)

    def material(self, h, chem, tag, names, n, assays=()):
        return material(h, chem, tag, names, n, assays)


def material(h, chem, tag, names, n, assays=()):
    """A chem.Material with the given compounds and assays"""
    if h.sym:
        m = chem.Material.__new__(chem.Material)
        m.name = 'material ' + tag
        m.description = 'a material'
        m.compounds = names
        m.compound_count = h.len(names)
        m.assays = h.dict()
        for k, v in assays:
            m.assays[k] = h.snapshot(v)
        m.elements = ['Fe', 'O']
        return m
    rows = [['Compound'] + [k for k, v in assays],
            None if assays else []]
    for i, c in enumerate(names):
        rows += [[c] + [repr(float(v[i])) for k, v in assays],
                 None if assays else []]
    path = pkg.write_table(h, [x for x in rows if x != []])
    try:
        return chem.Material('material ' + tag, path, 'a material')
    finally:
        os.unlink(path)


pkg.register(Chem())


F = 'auxi/modelling/process/materials/chem.py:MaterialPackage.'
ST = 'auxi.tools.chemistry.stoichiometry'


@contract('C08', [F + 'get_element_masses', F + 'get_element_mass',
                  F + 'get_element_mass_dictionary'])
def element_masses(h):
    """The mass of an element is the sum of its shares of the compounds,
    whenever it is asked for."""
    mod = h.mod(MOD)
    n = h.size('n', lo=1)
    names = h.names('component', n, POOL)
    m = material(h, mod, 'a', names, n, [pkg.some_assay(h, 'a', n, 'list')])
    if h.sym:
        w = h.func('element_mass_fraction', nonneg=True, arity=2)
        h.stub(ST, 'element_mass_fraction', lambda c, e: w(c, e))
        for where, name in ((ST, 'element_mass_fractions'), (MOD, 'emf')):
            h.stub(where, name, lambda c, es: [w(c, e) for e in es])
    else:
        w = h.mod(ST).element_mass_fraction
    v, u = h.vec('mass', n, nonneg=True), h.vec('more', n, nonneg=True)
    p = mod.MaterialPackage(m, h.snapshot(v))
    mass = lambda i: h.at(v, i)
    how = h.choice('history', ['new', 'added to', 'cleared', 'scaled'])
    if how != 'new':
        p.get_element_masses(), p.get_element_mass(m.elements[0])
    if how == 'added to':
        p.add_to(mod.MaterialPackage(m, h.snapshot(u)))
        mass = lambda i: h.at(v, i) + h.at(u, i)
    elif how == 'cleared':
        p.clear()
        mass = lambda i: h.const(0)
    elif how == 'scaled':
        p = p * 2.0
        mass = lambda i: 2 * h.at(v, i)
    s, d = p.get_element_masses(), p.get_element_mass_dictionary()
    h.check('one-mass-per-element', h.len(s) == len(m.elements) == len(d))
    for ix, el in enumerate(m.elements):
        x = h.sum(n, lambda i: mass(i) * w(h.at(names, i), el))
        h.eq('element-mass', s[ix], x)
        h.eq('element-mass-dictionary', d[el], x)
        h.eq('one-element', p.get_element_mass(el), x)
    if not h.sym:
        h.eq('elements-add-up', sum(s), p.get_mass())
        h.check('elements-of-the-compounds', list(m.elements) == sorted(
            {e for c in names for e in h.mod(ST).elements([c])}))
