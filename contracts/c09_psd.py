"""C09: mass balance of auxi.modelling.process.materials.psd packages."""
import os

from contracts import pkg, preload
from pyvc.harness import contract

MOD = 'auxi.modelling.process.materials.psd'
preload.need('C09', MOD)


class Psd(pkg.Flavour):
    prop, mod = 'C09', MOD
    F = 'auxi/modelling/process/materials/psd.py:'
    kind = 'np'
    get_fraction = 'get_size_class_mass_fraction'

    def names(self, h, tag, n):
        if h.sym:
            return h.numbers(tag, n, nonneg=True)
        pool = [300e-6, 150e-6, 75e-6, 53e-6, 38e-6, 20e-6, 10e-6, 5e-6, 0.0,
                1e-3, 2e-3, 5e-3, 0.01, 0.02, 0.05, 0.1]
        return h.numbers(tag, n, gen=lambda r: r.choice(pool))

    def name_in(self, h, label, names, n):
        return h.name_in(label, names, n)

    def foreign(self, h, label, names):
        return h.foreign_number(label, names)

    def text(self, h, x):
        return h.text(x)

    def vec(self, h, tag, n):
        return h.vec(tag, n, nonneg=True, kind='np')

    def copy(self, h, v):
        return v.copy()

    def masses(self, p):
        return p.size_class_masses

    def mass_of(self, p, name):
        return p.get_size_class_mass(name)

    def fraction_of(self, p, name):
        return p.get_size_class_mass_fraction(name)

    def material(self, h, psd, tag, names, n, assays=()):
        return material(h, psd, tag, names, n, assays)


def material(h, psd, tag, names, n, assays=()):
    """A psd.Material with the given size classes and assays"""
    if h.sym:
        m = psd.Material.__new__(psd.Material)
        m.name = 'material ' + tag
        m.size_classes = names
        m.size_class_count = h.len(names)
        m.assays = h.dict()
        for k, v in assays:
            m.assays[k] = v.copy()
        return m
    rows = [['SizeClass'] + [k for k, v in assays]]
    for i, c in enumerate(names):
        rows += [[repr(c)] + [repr(float(v[i])) for k, v in assays],
                 None if assays else []]
    path = pkg.write_table(h, [x for x in rows if x != []])
    try:
        return psd.Material('material ' + tag, path, 'a material')
    finally:
        os.unlink(path)


pkg.register(Psd())
