"""C11: mass and enthalpy balance of thermo packages."""
import os
import shutil

from contracts import preload, thermo_pkg
from contracts.thermo_pkg import table
from pyvc.harness import contract

preload.need('C11', thermo_pkg.MOD)
thermo_pkg.register(thermo_pkg.Flavour(
    prop='C11', cls='MaterialPackage', masses='_compound_masses',
    mass='mass', H='H', calc_H='_calculate_H', create='create_package',
    part='get_compound_mass', parts='get_compound_masses', total='mass',
    amount='get_compound_amount', amounts='get_compound_amounts',
    total_amount='amount', element='get_element_mass',
    elements='get_element_masses',
    element_dict='get_element_mass_dictionary'))


@contract('C11', [thermo_pkg.FILE + 'MaterialPackage.__init__'], sym=False,
          samples=1, bounded='one package: it shows a known finding')
def coal_package(h):
    """A package of a material that is marked as coal has an enthalpy."""
    mod = h.mod(thermo_pkg.MOD)
    path = table()
    m = mod.Material('coal', path)
    shutil.rmtree(os.path.dirname(path))
    e, p = h.call(m.create_package, 'A', 100.0, 1.0, 600.0)
    h.check('created', e is None and h.close(p.H, p._calculate_H(p.T)))
