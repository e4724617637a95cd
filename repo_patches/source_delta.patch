From dd654363b847c6e801914f918969585dad3e49dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 01/46] fix: add chem packages of the same material compound by
 compound

Lists of compound masses were concatenated by + and +=, so the sum had twice
as many entries as the material has compounds.
---
 auxi/modelling/process/materials/chem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index a4a9d1f..5934e04 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -277,7 +277,8 @@ class MaterialPackage(Object):
             if self.material == other.material:
                 result = MaterialPackage(
                     self.material,
-                    self.compound_masses + other.compound_masses)
+                    [a + b for a, b in zip(self.compound_masses,
+                                           other.compound_masses)])
                 return result
             else:  # Packages of different materials.
                 result = self.clone()
@@ -553,7 +554,9 @@ class MaterialPackage(Object):
 
             # Packages of the same material.
             if self.material == other.material:
-                self.compound_masses += other.compound_masses
+                self.compound_masses = [
+                    a + b for a, b in zip(self.compound_masses,
+                                          other.compound_masses)]
 
             # Packages of different materials.
             else:
-- 
2.43.0


From 25c557501a827e965f165084d0d0eb905804c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 02/46] fix: let chem MaterialPackage.clear set the compound
 masses to zero

Multiplying a list with 0.0 raises TypeError.
---
 auxi/modelling/process/materials/chem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 5934e04..0128baa 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -379,7 +379,7 @@ class MaterialPackage(Object):
         Set all the compound masses in the package to zero.
         """
 
-        self.compound_masses *= 0.0
+        self.compound_masses = [0.0] * len(self.compound_masses)
 
     def get_assay(self):
         """
-- 
2.43.0


From 87fd5976d1d1c8833cc89d7af28b7512cf6f5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 03/46] fix: make the empty chem assay a floating point array
 as documented

Adding an empty package to a package of another material raised TypeError,
because the integer zeros were no valid compound masses.
---
 auxi/modelling/process/materials/chem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 0128baa..d3787d2 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -173,7 +173,7 @@ class Material(NamedObject):
         :returns: A floating point array.
         """
 
-        return [0] * self.compound_count
+        return [0.0] * self.compound_count
 
     def add_assay(self, name, assay):
         """
-- 
2.43.0


From 910af5b4e5b4e4d4c7105013b0d90774f0105527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 04/46] fix: leave a chem package unchanged when add_to rejects
 another package

The compounds before the missing one had already been added.
---
 auxi/modelling/process/materials/chem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index d3787d2..0a7c695 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -568,6 +568,7 @@ class MaterialPackage(Object):
                                         "'. The compound '" + compound +
                                         "' was not found in '" +
                                         self.material.name + "'.")
+                for compound in other.material.compounds:
                     self.add_to((compound, other.get_compound_mass(compound)))
 
         # Add the specified mass of the specified compound.
-- 
2.43.0


From 149db3ee23c309c1175c95695c152d63d2f97269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 05/46] fix: leave a psd package unchanged when add_to rejects
 another package

The size classes before the missing one had already been added.
---
 auxi/modelling/process/materials/psd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 593fe22..4fde873 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -515,6 +515,7 @@ class MaterialPackage(Object):
                             self.material.name +
                             "'. The size class '" + size_class +
                             "' was not found in '" + self.material.name + "'.")
+                for size_class in other.material.size_classes:
                     self.add_to(
                         (size_class, other.get_size_class_mass(size_class)))
 
-- 
2.43.0


From ba9d4a6f53b0470278df86430e0a46f5dfa2c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 06/46] fix: report the missing size class when psd packages
 cannot be added

Concatenating the floating point size class to the message raised TypeError.
---
 auxi/modelling/process/materials/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 4fde873..cdc3e67 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -290,7 +290,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
                     result = result + (
                         size_class,
@@ -513,7 +513,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
                 for size_class in other.material.size_classes:
                     self.add_to(
-- 
2.43.0


From 54121ce1886325ac8fadae7e2c340d4fec96adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 07/46] fix: treat only ("H2O", mass) as a mass of water in
 slurry packages

Because of the 'and', a mass of anything with a name was added as water.
---
 auxi/modelling/process/materials/slurry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index eb0a452..633cdb6 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -498,7 +498,7 @@ class MaterialPackage(Object):
             return False
         elif not len(value) == 2:
             return False
-        elif not type(value[0]) is str and not value[0] == "H2O":
+        elif not type(value[0]) is str or not value[0] == "H2O":
             return False
         elif not type(value[1]) is float and \
                 not type(value[1]) is numpy.float64 and \
-- 
2.43.0


From 7bf937215727e4bfdc7ee694bc7ff0f7826696b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 08/46] fix: keep the solid density when slurry packages
 without solids are added

The sum of two packages that contain only water had a solid density, volume
and density of nan.
---
 auxi/modelling/process/materials/slurry.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 633cdb6..1bfc591 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -376,9 +376,12 @@ class MaterialPackage(Object):
         if type(other) is MaterialPackage:
             solid_mass = self.get_solid_mass()
             other_solid_mass = other.get_solid_mass()
-            solid_density = (solid_mass + other_solid_mass) / \
-                (solid_mass / self.solid_density +
-                    other_solid_mass / other.solid_density)
+            if solid_mass + other_solid_mass == 0.0:
+                solid_density = self.solid_density
+            else:
+                solid_density = (solid_mass + other_solid_mass) / \
+                    (solid_mass / self.solid_density +
+                        other_solid_mass / other.solid_density)
             H2O_mass = self.H2O_mass + other.H2O_mass
             # Packages of the same material.
             if self.material == other.material:
-- 
2.43.0


From f8f82893f9d8209137bbdc9408dc809a09ab50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 09/46] fix: leave a slurry material unchanged when add_assay
 rejects an assay

The solid density and water fraction of an existing assay were overwritten
before the new assay was rejected.
---
 auxi/modelling/process/materials/slurry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 1bfc591..35e48f4 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -238,11 +238,9 @@ class Material(NamedObject):
 
         if not type(solid_density) is float:
             raise Exception("Invalid solid density. It must be a float.")
-        self.solid_densities[name] = solid_density
 
         if not type(H2O_fraction) is float:
             raise Exception("Invalid H2O fraction. It must be a float.")
-        self.H2O_fractions[name] = H2O_fraction
 
         if not type(assay) is numpy.ndarray:
             raise Exception("Invalid assay. It must be a numpy array.")
@@ -253,6 +251,8 @@ class Material(NamedObject):
         elif name in self.assays.keys():
             raise Exception(
                 "Invalid assay: An assay with that name already exists.")
+        self.solid_densities[name] = solid_density
+        self.H2O_fractions[name] = H2O_fraction
         self.assays[name] = assay
 
     def get_assay_total(self, name):
-- 
2.43.0


From 7b2f05a05afa22801d9eecc31852e654bf0f4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 10/46] fix: report the missing size class when slurry packages
 cannot be added

Concatenating the floating point size class to the message raised TypeError.
---
 auxi/modelling/process/materials/slurry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 35e48f4..a1b67d3 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -401,7 +401,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name + "'. The size class '" +
-                            size_class + "' was not found in '" +
+                            str(size_class) + "' was not found in '" +
                             self.material.name + "'.")
                     result = result + (
                         size_class, other.get_size_class_mass(size_class))
-- 
2.43.0


From 4ee52c546f6e0cd5edcb57c5314e9976019ce761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 11/46] fix: create thermo packages and streams from an assay
 added with add_assay

---
 auxi/modelling/process/materials/thermo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index baf7e42..14cff98 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -256,12 +256,13 @@ class Material(NamedObject):
 
     def _isCoal(self, assay):
         if 'IsCoal' in self.custom_properties and \
-           self.assay_custom_properties[assay].get('IsCoal', 0) == 1:
+           self.assay_custom_properties.get(assay, {}).get('IsCoal', 0) == 1:
             return True
         return False
 
     def _get_HHV(self, assay):
-        return self.assay_custom_properties[assay].get('HHV[MJ/kg]', None)
+        return self.assay_custom_properties.get(assay, {}).get(
+            'HHV[MJ/kg]', None)
 
     def get_compound_index(self, compound):
         """
-- 
2.43.0


From b7200cbee7b1a609a36dc33ffc37d3dedf1936ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 12/46] fix: set the enthalpy flow rate of a cleared thermo
 stream to zero

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 14cff98..b351e4b 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1604,7 +1604,7 @@ class MaterialStream(Object):
         self._compound_mfrs = self._compound_mfrs * 0.0
         self._P = 1.0
         self._T = 25.0
-        self._H = 0.0
+        self._Hfr = 0.0
 
     def get_assay(self):
         """
-- 
2.43.0


From 56aeb7df5c1dc8f7ca01e72bf683e19b176cb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 13/46] fix: keep the pressure of material extracted from
 thermo packages and streams

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index b351e4b..769c79d 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1073,6 +1073,7 @@ class MaterialPackage(Object):
             result += (compound, mass)
             self.extract(compound)
         result.T = self.T
+        result.P = self.P
 
         return result
 
@@ -1842,6 +1843,7 @@ class MaterialStream(Object):
             result += (compound, mfr)
             self.extract(compound)
         result.T = self.T
+        result.P = self.P
 
         return result
 
-- 
2.43.0


From a10c9931ece0274495d66479d3f5a60e552efc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 14/46] fix: keep the temperature of empty thermo packages and
 streams

---
 auxi/modelling/process/materials/thermo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 769c79d..635713c 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -801,7 +801,8 @@ class MaterialPackage(Object):
         """
 
         self._H = H
-        self._T = self._calculate_T(H)
+        if self.mass > 0.0:
+            self._T = self._calculate_T(H)
 
     @property
     def T(self):
@@ -1521,7 +1522,8 @@ class MaterialStream(Object):
         """
 
         self._Hfr = Hfr
-        self._T = self._calculate_T(Hfr)
+        if self.mfr > 0.0:
+            self._T = self._calculate_T(Hfr)
 
     @property
     def T(self):
-- 
2.43.0


From f9c815e9cfa17a7a16f38cff34db9e6a9fd15b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 15/46] fix: determine the element mass flow rates of thermo
 streams

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 635713c..e607163 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1691,7 +1691,7 @@ class MaterialStream(Object):
         result = numpy.zeros(len(elements))
         for compound in self.material.compounds:
             result += self.get_compound_mfr(compound) *\
-                stoich.element_mass_fractions(compound, elements)
+                numpy.array(stoich.element_mass_fractions(compound, elements))
         return result
 
     def get_element_mfr_dictionary(self):
-- 
2.43.0


From 1d128c38a47867748f42da212fcc25dc580d96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 16/46] fix: read the magnetic data of a phase from its
 dictionary

Building a Phase with magnetic data raised TypeError, because a list
literal was indexed with a string instead of the dictionary.
---
 auxi/tools/chemistry/thermochemistry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 12e1cbb..a87ab50 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -166,15 +166,15 @@ class Phase(NamedObject):
         """[J/mol/K] The standard entropy of the phase at Tref."""
 
         if 'magnetic' in dictionary:
-            self.Tc_mag = ['magnetic']['Tc']
+            self.Tc_mag = dictionary['magnetic']['Tc']
             """The critical temperature, which is the Curie temperature for
             ferromagnetic materials or the Neel temperature for
             antiferromagnetic materials."""
 
-            self.beta0_mag = ['magnetic']['beta0']
+            self.beta0_mag = dictionary['magnetic']['beta0']
             """The average magnetic moment per atom."""
 
-            self.p_mag = ['magnetic']['p']
+            self.p_mag = dictionary['magnetic']['p']
             """This value can be thought of as the fraction of the magnetic
             enthalpy absorbed above the critical. It depends on structure."""
 
-- 
2.43.0


From 738871fd92c9e1e279d4766a870f86363e0090bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 17/46] fix: count the magnetic heat capacity once when
 extrapolating a phase

Beyond the last Cp record the constant heat capacity included the
magnetic contribution at Tmax, while H_mag, S_mag and G_mag already
cover the whole range, so enthalpy and entropy of a magnetic phase were
not the integrals of its heat capacity.
---
 auxi/tools/chemistry/thermochemistry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index a87ab50..8a46c05 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -288,7 +288,7 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*(T - Tmax)
+        result += self._Cp_records[str(Tmax)].Cp(Tmax)*(T - Tmax)
 
         return result + self.H_mag(T)
 
@@ -334,7 +334,7 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*math.log(T / Tmax)
+        result += self._Cp_records[str(Tmax)].Cp(Tmax)*math.log(T / Tmax)
 
         return result + self.S_mag(T)
 
@@ -381,8 +381,9 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        h = h + self.Cp(Tmax)*(T - Tmax)
-        s = s + self.Cp(Tmax)*math.log(T / Tmax)
+        Cp = self._Cp_records[str(Tmax)].Cp(Tmax)
+        h = h + Cp*(T - Tmax)
+        s = s + Cp*math.log(T / Tmax)
 
         return h - T * s + self.G_mag(T)
 
-- 
2.43.0


From d3e2b742754985d706faa78e1288004c18d419a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 18/46] fix: reports failed when dates and datetimes were mixed

Model transactions carry datetimes, while default transactions and limits
given as text are dates; comparing the two raises TypeError.
---
 auxi/modelling/financial/reporting.py | 31 +++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 73eb595..e135bba 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -20,6 +20,19 @@ __email__ = 'johan.zietsman@ex-mente.co.za'
 __status__ = 'Planning'
 
 
+def _as_date_(value):
+    """
+    Get the date from a value that could be a date, a datetime or a string.
+
+    :param value: The date, datetime or string.
+
+    :returns: The date object.
+    """
+
+    value = get_date(value)
+    return value.date() if isinstance(value, datetime) else value
+
+
 class ReportType(Enum):
     """
     Represents a report type, e.g. balance sheet or income statement.
@@ -92,8 +105,8 @@ class TransactionList(Report):
     def __init__(self, data_source, start=datetime.min.date(),
                  end=datetime.max.date(), component_path="",
                  output_path=None):
-        self.start_date = get_date(start)
-        self.end_date = get_date(end)
+        self.start_date = _as_date_(start)
+        self.end_date = _as_date_(end)
         self.component_path = component_path
         super(TransactionList, self).__init__(data_source, output_path)
 
@@ -102,10 +115,10 @@ class TransactionList(Report):
                   "Credit Account", "Amount", "Description"]]
         amount_tot = 0
         tx_list = self.data_source.transactions
-        for t in sorted(tx_list, key=lambda v: v.tx_date):
+        for t in sorted(tx_list, key=lambda v: _as_date_(v.tx_date)):
             if not t.source.startswith(self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if self.start_date <= _as_date_(t.tx_date) <= self.end_date:
                 if t.source.endswith(t.name):
                     name = ''
                 else:
@@ -132,7 +145,7 @@ class BalanceSheet(Report):
     def __init__(self, data_source, end=datetime.max.date(), output_path=None):
         """
         """
-        self.end_date = get_date(end)
+        self.end_date = _as_date_(end)
         super(BalanceSheet, self).__init__(data_source, output_path)
 
     def _sum_amounts_per_account_(self):
@@ -142,7 +155,7 @@ class BalanceSheet(Report):
         summedEquity = {}
 
         for t in self.data_source.transactions:
-            if t.tx_date <= self.end_date:
+            if _as_date_(t.tx_date) <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if cr_account_type == AccountType.asset:
@@ -250,8 +263,8 @@ class IncomeStatement(Report):
                  end=datetime.max.date(), component_path="", output_path=None):
         """
         """
-        self.start_date = get_date(start)
-        self.end_date = get_date(end)
+        self.start_date = _as_date_(start)
+        self.end_date = _as_date_(end)
         self.component_path = component_path
         super(IncomeStatement, self).__init__(data_source, output_path)
 
@@ -262,7 +275,7 @@ class IncomeStatement(Report):
         for t in self.data_source.transactions:
             if not t.source.startswith(self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if self.start_date <= _as_date_(t.tx_date) <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if not t.is_closing_cr_account and \
-- 
2.43.0


From 21add1c7d6925c8e56ddc431957083a3a5513cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 19/46] fix: reports failed for transactions without a source

---
 auxi/modelling/financial/reporting.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index e135bba..0b2e5e3 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -33,6 +33,24 @@ def _as_date_(value):
     return value.date() if isinstance(value, datetime) else value
 
 
+def _is_from_component_(transaction, component_path):
+    """
+    Determine whether a transaction was created by a component.
+
+    :param transaction: The transaction.
+    :param component_path: The path of the component. An empty path selects
+      all transactions.
+
+    :returns: True if the component, or something in it, is the source.
+    """
+
+    if component_path == "":
+        return True
+    if transaction.source is None:
+        return False
+    return transaction.source.startswith(component_path)
+
+
 class ReportType(Enum):
     """
     Represents a report type, e.g. balance sheet or income statement.
@@ -116,10 +134,10 @@ class TransactionList(Report):
         amount_tot = 0
         tx_list = self.data_source.transactions
         for t in sorted(tx_list, key=lambda v: _as_date_(v.tx_date)):
-            if not t.source.startswith(self.component_path):
+            if not _is_from_component_(t, self.component_path):
                 continue
             if self.start_date <= _as_date_(t.tx_date) <= self.end_date:
-                if t.source.endswith(t.name):
+                if t.source is not None and t.source.endswith(t.name):
                     name = ''
                 else:
                     name = t.name
@@ -273,7 +291,7 @@ class IncomeStatement(Report):
         summedIncome = {}
         summedExpenses = {}
         for t in self.data_source.transactions:
-            if not t.source.startswith(self.component_path):
+            if not _is_from_component_(t, self.component_path):
                 continue
             if self.start_date <= _as_date_(t.tx_date) <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
-- 
2.43.0


From 7efa98f235fde8ab15d8949a9a6e255d76ab0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 20/46] fix: reports for a component included components with a
 longer name

The transactions of 'a/b2' were reported for the component 'a/b'.
---
 auxi/modelling/financial/reporting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 0b2e5e3..750fbce 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -48,7 +48,8 @@ def _is_from_component_(transaction, component_path):
         return True
     if transaction.source is None:
         return False
-    return transaction.source.startswith(component_path)
+    return transaction.source == component_path or \
+        transaction.source.startswith(component_path.rstrip('/') + '/')
 
 
 class ReportType(Enum):
-- 
2.43.0


From 8b45f77855b5db0607c92d456c4e9d8032817665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 21/46] fix: looking up an unknown sub account raised
 IndexError

get_account documents None for an account that is not found, and
validate_account_names relies on it.
---
 auxi/modelling/financial/des.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/des.py b/auxi/modelling/financial/des.py
index e8b530e..3b8ec01 100644
--- a/auxi/modelling/financial/des.py
+++ b/auxi/modelling/financial/des.py
@@ -56,7 +56,11 @@ class GeneralLedgerAccount(NamedObject):
         super(GeneralLedgerAccount, self).__init__(name, description)
 
     def __getitem__(self, key):
-        return [a for a in self.accounts if a.name == key][0]
+        items = [a for a in self.accounts if a.name == key]
+        if len(items) == 0:
+            return None
+        else:
+            return items[0]
 
     def __missing__(self, key):
         return None
-- 
2.43.0


From d45212ceb3b7b718312a8430f41d32f961057937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 22/46] fix: year end failed with KeyError when a revenue
 account is debited first

---
 auxi/modelling/business/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 01704da..f572628 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -441,7 +441,7 @@ class Entity(NamedObject):
                     else:
                         inc_summary_write_off_accs[cr_acc] = tx.amount
                 elif dt_acc.account_type == AccountType.revenue:
-                    if dt_acc.account_type == AccountType.revenue:
+                    if dt_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[dt_acc] -= tx.amount
                     else:
                         inc_summary_write_off_accs[dt_acc] = -tx.amount
-- 
2.43.0


From 23d2f3711fca136a5f4da7c8ab75a50767291ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 23/46] fix: activities starting after the last period ran from
 the first one

---
 auxi/modelling/business/structure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index f572628..9512cba 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -94,6 +94,12 @@ class Activity(NamedObject):
                 if clock.get_datetime_at_period_ix(i) > self.start_datetime:
                     self.start_period_ix = i
                     break
+            else:
+                # no period begins after the start
+                self.start_period_ix = period_count
+                if period_count > 0 and clock.get_datetime_at_period_ix(
+                        period_count - 1) == self.start_datetime:
+                    self.start_period_ix = period_count - 1
         if self.start_period_ix == -1:
             self.start_period_ix = 0
         if self.period_count == -1 and self.end_datetime != datetime.max:
-- 
2.43.0


From 10112cfb5a38f7c639725ab43c98170f03179730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 24/46] fix: an activity ending before its first period never
 stopped

A period count of -1 was taken for 'not set'.
---
 auxi/modelling/business/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 9512cba..9198727 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -106,7 +106,7 @@ class Activity(NamedObject):
             # Set the Start date
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.end_datetime:
-                    self.period_count = i - self.start_period_ix
+                    self.period_count = max(i - self.start_period_ix, 0)
                     break
         if self.period_count != -1:
             self.end_period_ix = self.start_period_ix + self.period_count
-- 
2.43.0


From 6a006ed8e1c1144d4dc9198ce3979715072480ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 25/46] fix: year end ignored one side of transactions between
 two income accounts

A debit of an expense or revenue account against a sales account was never
closed, because only the first matching side was collected.
---
 auxi/modelling/business/structure.py | 34 +++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 9198727..d2eaefa 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -424,39 +424,37 @@ class Entity(NamedObject):
                         gross_profit_write_off_accs[cr_acc] += tx.amount
                     else:
                         gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc in cost_of_sales_accs:
                     if cr_acc in gross_profit_write_off_accs:
                         gross_profit_write_off_accs[cr_acc] += tx.amount
                     else:
                         gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in cost_of_sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc.account_type == AccountType.revenue:
                     if cr_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[cr_acc] += tx.amount
                     else:
                         inc_summary_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc.account_type == AccountType.revenue:
-                    if dt_acc in inc_summary_write_off_accs:
-                        inc_summary_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        inc_summary_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc.account_type == AccountType.expense:
                     if cr_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[cr_acc] -= tx.amount
                     else:
                         inc_summary_write_off_accs[cr_acc] = -tx.amount
+
+                if dt_acc in sales_accs:
+                    if dt_acc in gross_profit_write_off_accs:
+                        gross_profit_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        gross_profit_write_off_accs[dt_acc] = -tx.amount
+                elif dt_acc in cost_of_sales_accs:
+                    if dt_acc in gross_profit_write_off_accs:
+                        gross_profit_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        gross_profit_write_off_accs[dt_acc] = -tx.amount
+                elif dt_acc.account_type == AccountType.revenue:
+                    if dt_acc in inc_summary_write_off_accs:
+                        inc_summary_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        inc_summary_write_off_accs[dt_acc] = -tx.amount
                 elif dt_acc.account_type == AccountType.expense:
                     if dt_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[dt_acc] += tx.amount
-- 
2.43.0


From 35af532633c38bdac5c49d97adc62c9779fe24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 26/46] fix: a created entity did not get the path of its model

---
 auxi/modelling/business/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 0dffa67..41450de 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -74,6 +74,7 @@ class TimeBasedModel(NamedObject):
         """
 
         new_entity = Entity(name, gl_structure, description=description)
+        new_entity.set_parent_path(self.name)
         self.entities.append(new_entity)
         return new_entity
 
-- 
2.43.0


From 40d8638576773e1ba8ea85b201901725980c9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 27/46] fix: loans without interest or duration raised
 ZeroDivisionError

An interest rate of 0.0 is the default.
---
 auxi/modelling/business/basic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 4b5cdb7..7e5032e 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -193,8 +193,13 @@ class BasicLoanActivity(Activity):
 
     def _update_monthly_payment_(self):
         int_rate = self._monthly_interest_rate
-        val = (self.amount * int_rate)
-        val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
+        if self.duration == 0:
+            val = 0.0
+        elif int_rate == 0:
+            val = self.amount / self.duration
+        else:
+            val = (self.amount * int_rate)
+            val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
         self._monthly_payment = val
 
     @property
-- 
2.43.0


From 75f336d24347274a9ccd06a48fd0c37bc2664930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 28/46] fix: a loan did not accept its start as text, as other
 activities do

---
 auxi/modelling/business/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 7e5032e..64f147a 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -179,7 +179,7 @@ class BasicLoanActivity(Activity):
             name,
             description=description,
             start=start,
-            end=start + relativedelta(months=duration+1),
+            end=self._get_date_(start) + relativedelta(months=duration+1),
             interval=interval)
         self.bank_account = bank_account
         self.loan_account = loan_account
-- 
2.43.0


From 7c673431d9ef4edb987c2fedc0db3ba54353cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 29/46] fix: changing the duration of a loan left its payment
 and end unchanged

---
 auxi/modelling/business/basic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 64f147a..cdc43db 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -185,7 +185,7 @@ class BasicLoanActivity(Activity):
         self.loan_account = loan_account
         self.interest_account = interest_account
         self._amount = amount
-        self.duration = duration
+        self._duration = duration
         self.interest_rate = interest_rate
 
         self._months_executed = 0
@@ -221,6 +221,17 @@ class BasicLoanActivity(Activity):
         self._monthly_interest_rate = value / 12.0
         self._update_monthly_payment_()
 
+    @property
+    def duration(self):
+        return self._duration
+
+    @duration.setter
+    def duration(self, value):
+        self._duration = value
+        self.end_datetime = self.start_datetime + relativedelta(
+            months=value+1)
+        self._update_monthly_payment_()
+
     def _meet_execution_criteria(self, ix_period):
         return super(BasicLoanActivity, self)._meet_execution_criteria(
             ix_period) and self.amount > 0 and self.duration > 0
-- 
2.43.0


From a6927ee10100cb44b2174f03dbda3ba0def0b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 30/46] fix: a model start given as text failed with dated
 activities

The text became a date, which cannot be compared with the datetimes of the
activities.
---
 auxi/modelling/business/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 41450de..9b5d22a 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -41,9 +41,11 @@ class TimeBasedModel(NamedObject):
                  start_datetime=datetime.now(),
                  period_duration=TimePeriod.year,
                  period_count=1):
+        if type(start_datetime) is str:
+            start_datetime = datetime.strptime(start_datetime, '%Y-%m-%d')
         self.clock = Clock(
             "Clock",
-            start_datetime=get_date(start_datetime),
+            start_datetime=start_datetime,
             timestep_period_duration=period_duration)
         self.period_count = period_count
         self.entities = []
-- 
2.43.0


From 5a429594a581afba412c734929e319a585ed577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 31/46] fix: income statement had the wrong sign for accounts
 first used on the other side

---
 auxi/modelling/financial/reporting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 750fbce..12d7696 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -308,14 +308,14 @@ class IncomeStatement(Report):
                         if t.cr_account in summedExpenses:
                             summedExpenses[t.cr_account] -= t.amount
                         else:
-                            summedExpenses[t.cr_account] = t.amount
+                            summedExpenses[t.cr_account] = -t.amount
                 if not t.is_closing_cr_account and \
                    not t.is_closing_dt_account and t.dt_account != "":
                     if dt_account_type == AccountType.revenue:
                         if t.dt_account in summedIncome:
                             summedIncome[t.dt_account] -= t.amount
                         else:
-                            summedIncome[t.dt_account] = t.amount
+                            summedIncome[t.dt_account] = -t.amount
                     elif dt_account_type == AccountType.expense:
                         if t.dt_account in summedExpenses:
                             summedExpenses[t.dt_account] += t.amount
-- 
2.43.0


From 658a92a6a06d1fa670b519f995f6574f63cc2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 32/46] fix: Rayleigh number raised a NameError

Ra used two names that do not exist, the acceleration of gravity g and the
bulk fluid temperature Tinf.
---
 auxi/tools/transportphenomena/dimensionlessquantities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/dimensionlessquantities.py b/auxi/tools/transportphenomena/dimensionlessquantities.py
index de85172..6c73431 100644
--- a/auxi/tools/transportphenomena/dimensionlessquantities.py
+++ b/auxi/tools/transportphenomena/dimensionlessquantities.py
@@ -16,6 +16,9 @@ doing transport phenomena calculations.
 #              'Ts' and 'Tinf' instead of 'dT'
 
 
+from auxi.tools.physicalconstants import g
+
+
 __version__ = '0.3.6'
 __license__ = 'LGPL v3'
 __copyright__ = 'Copyright 2016, Ex Mente Technologies (Pty) Ltd'
@@ -99,7 +102,7 @@ def Ra(L: float, Ts: float, Tf: float, alpha: float, beta: float, nu: float
         * bluff body: diameter
     """
 
-    return g * beta * (Ts - Tinf) * L**3.0 / (nu * alpha)
+    return g * beta * (Ts - Tf) * L**3.0 / (nu * alpha)
 
 
 def Nu(L: float, h: float, k: float) -> float:
-- 
2.43.0


From 8be84da294608e25bfdf659a56595ff48df9de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 33/46] fix: points on the border of flat surface regions had
 no or the wrong correlation

An angle of 88 degrees with Ra < 6 was in no region at all, and a vertical
surface with Ra = 11 was in the region of inclined surfaces only.
---
 .../transportphenomena/heattransfer/naturalconvection.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index ead2065..c96a3e4 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -234,17 +234,17 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         region = self.Region("r13", 0, True, 0, True, 5, False, 11, False,
                              "In_Eq_Region")
         eq_dict[region] = ifs._Nu_x__8_26
-        region = self.Region("r14", 0, True, 0, True, 11, False, None, False)
+        region = self.Region("r14", 0, True, 0, True, 11, True, None, False)
         eq_dict[region] = ifs._Nu_x__8_26
         region = self.Region("r15", 0, False, 88, False, None, False, 5, False)
         eq_dict[region] = ifs._Nu_x__8_27
-        region = self.Region("r16", 0, True, 88, False, 5, True, 11, True,
+        region = self.Region("r16", 0, False, 88, False, 5, True, 11, True,
                              "In_Eq_Region")
         eq_dict[region] = ifs._Nu_x__8_27
         region = self.Region("r17", 0, False, 88, False, 11, False, None,
                              False)
         eq_dict[region] = ifs._Nu_x__8_27
-        region = self.Region("r18", 88, False, 90, True, None, False, 6, False)
+        region = self.Region("r18", 88, True, 90, True, None, False, 6, False)
         eq_dict[region] = ifs._Nu_x__8_38
         region = self.Region("r19", 88, True, 90, True, 6, True, 9, True,
                              "In_Eq_Region")
-- 
2.43.0


From 42ed03e2e01ab8498f1b5d94800667a530c87dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 34/46] fix: flat surface regions were compared with Ra instead
 of its power of 10

The limits of the regions (4, 7, 9, 11, ...) are powers of 10, as their plot
from 3 to 12 shows, but Nu_x compared them with Ra itself, so that for
instance the laminar correlation 9_22 was never used.
---
 .../transportphenomena/heattransfer/naturalconvection.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index c96a3e4..3f753c3 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -3,7 +3,7 @@ This module provides tools to calculate natural convection heat transfer
 coefficients.
 """
 
-from math import radians, cos
+from math import radians, cos, log10, inf
 from matplotlib import pyplot as plt
 from matplotlib.patches import Rectangle
 
@@ -320,8 +320,11 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         Pr = dq.Pr(nu, alpha)
         Ra = Gr * Pr
 
+        # the Ra limits of the regions are powers of 10
+        log_Ra = log10(Ra) if Ra > 0.0 else -inf
+
         eq = [self.equation_dict[r]
-              for r in self.regions if r.contains_point(theta, Ra)][0]
+              for r in self.regions if r.contains_point(theta, log_Ra)][0]
 
         return eq(self, Ra, Pr)
 
-- 
2.43.0


From fdddefa9120041f2ed00f428f22ddcd04b9aa891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 35/46] fix: Nusselt number of cold surfaces was a complex
 number

Ra is negative for a surface that is colder than the fluid. Its flow is that
on the opposite side of a hot surface, as the choice of g already assumes.
---
 .../transportphenomena/heattransfer/naturalconvection.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 3f753c3..ddb6ae9 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -318,7 +318,10 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
 
         Gr = dq.Gr(L, Ts, Tf, beta, nu, g)
         Pr = dq.Pr(nu, alpha)
-        Ra = Gr * Pr
+        Ra = abs(Gr * Pr)
+
+        if Ts < Tf:  # same flow as on the other side of a hot surface
+            theta = -theta
 
         # the Ra limits of the regions are powers of 10
         log_Ra = log10(Ra) if Ra > 0.0 else -inf
-- 
2.43.0


From b7758231d4e12bd2ab7cdc635b7c47e20eef12fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 36/46] fix: Colebrook friction factor raised a TypeError

scipy passes an array of one element to the function, which the functions of
the math module do not accept.
---
 auxi/tools/transportphenomena/fluidflow/pressuredrop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
index bb6b30c..e5e7f89 100644
--- a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
+++ b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
@@ -104,7 +104,7 @@ def f_tr_Colebrook(Re_D, ɛ, D):
         return -2 * log10(term1 + term2) - 1 / sqrt(f)
 
     # find the roots of the Colebrook equation
-    return root(cb, 0.02, args=(Re_D, ɛ, D)).x[0]
+    return root(lambda f: cb(f[0], Re_D, ɛ, D), 0.02).x[0]
 
 
 def D_h(A, P):
-- 
2.43.0


From 3ec3d839863ab1954afe0b932df7a38b59e4c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:23 +0000
Subject: [PATCH 37/46] fix: Colebrook friction factor of smooth ducts raised a
 ValueError

From the fixed first guess 0.02 the root finder left the positive numbers for
large Reynolds numbers; Haaland's equation gives a close first guess.
---
 auxi/tools/transportphenomena/fluidflow/pressuredrop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
index e5e7f89..4dfe3b5 100644
--- a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
+++ b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
@@ -104,7 +104,8 @@ def f_tr_Colebrook(Re_D, ɛ, D):
         return -2 * log10(term1 + term2) - 1 / sqrt(f)
 
     # find the roots of the Colebrook equation
-    return root(lambda f: cb(f[0], Re_D, ɛ, D), 0.02).x[0]
+    f_0 = f_tr_Haaland(Re_D, ɛ, D, False)
+    return root(lambda f: cb(f[0], Re_D, ɛ, D), f_0).x[0]
 
 
 def D_h(A, P):
-- 
2.43.0


From 27a109b0f03decc39e4ce303a23def28071653e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 38/46] fix: a material without property models raised a
 TypeError

property_models is None by default.
---
 auxi/modelling/process/materials/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/modelling/process/materials/core.py b/auxi/modelling/process/materials/core.py
index 89970f6..6522733 100644
--- a/auxi/modelling/process/materials/core.py
+++ b/auxi/modelling/process/materials/core.py
@@ -35,6 +35,9 @@ class Material(NamedObject):
         self.mstate = state_of_matter
         """State of matter."""
 
+        if property_models is None:
+            property_models = {}
+
         if 'alpha' in property_models:
             self.alpha = property_models['alpha']
 
-- 
2.43.0


From 889039526c1d2312d8031373fde42c1b7cf7344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:04 +0000
Subject: [PATCH 39/46] fix: RiboudViscosityTx no longer adds compounds to the
 composition passed in

---
 auxi/tools/materialphysicalproperties/slags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index 89c76a9..f55e3a8 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -169,6 +169,7 @@ class RiboudViscosityTx(Model):
                          compounds_caf2 + compounds_na2o)
 
         # convert compounds with two cations to single cation equivalents
+        x = dict(x)
         if 'P2O5' in x:
             x['PO2.5'] = 2.0 * x['P2O5']
         if 'Fe2O3' in x:
-- 
2.43.0


From f37390c78c9c1dc0bbe9a0c836d36754449eab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:47 +0000
Subject: [PATCH 40/46] fix: find the start and the end of an activity anew in
 every run

Activity.prepare_to_run kept the start period and number of periods that it
found for an earlier run, so a model run again for another number of periods
or from another date, or an activity whose dates were changed (e.g. the
duration of a loan), started or ended in the wrong period.
---
 auxi/modelling/business/structure.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index d2eaefa..698a320 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -46,6 +46,8 @@ class Activity(NamedObject):
         self.start_period_ix = -1
         self.end_period_ix = -1
         self.period_count = -1
+        self._found_start_period_ix = None
+        self._found_period_count = None
 
     def _get_date_(self, date):
         if type(date) is str:
@@ -88,6 +90,14 @@ class Activity(NamedObject):
           requested to be run for.
         """
 
+        # Forget what was found for an earlier run.
+        if self.start_period_ix == self._found_start_period_ix:
+            self.start_period_ix = -1
+        if self.period_count == self._found_period_count:
+            self.period_count = -1
+        self._found_start_period_ix = None
+        self._found_period_count = None
+
         if self.start_period_ix == -1 and self.start_datetime != datetime.min:
             # Set the Start period index
             for i in range(0, period_count):
@@ -100,13 +110,16 @@ class Activity(NamedObject):
                 if period_count > 0 and clock.get_datetime_at_period_ix(
                         period_count - 1) == self.start_datetime:
                     self.start_period_ix = period_count - 1
+            self._found_start_period_ix = self.start_period_ix
         if self.start_period_ix == -1:
             self.start_period_ix = 0
+            self._found_start_period_ix = 0
         if self.period_count == -1 and self.end_datetime != datetime.max:
             # Set the Start date
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.end_datetime:
                     self.period_count = max(i - self.start_period_ix, 0)
+                    self._found_period_count = self.period_count
                     break
         if self.period_count != -1:
             self.end_period_ix = self.start_period_ix + self.period_count
-- 
2.43.0


From 4ff662ef3146b6e79a01ab4e28e9639b3fbdd570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:54 +0000
Subject: [PATCH 41/46] fix: a mass flow rate extracted from a coal stream is
 coal with the same heating value

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index e607163..7dcd2dc 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1777,7 +1777,7 @@ class MaterialStream(Object):
         fraction_to_subtract = mfr / self.mfr
         result = MaterialStream(
             self.material, self._compound_mfrs *
-            fraction_to_subtract, self._P, self._T)
+            fraction_to_subtract, self._P, self._T, self.isCoal, self.HHV)
 
         self._compound_mfrs = self._compound_mfrs * \
             (1.0 - fraction_to_subtract)
-- 
2.43.0


From 3d4fd5f1a4a265b4013897156361307933bb7b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:22 +0000
Subject: [PATCH 42/46] fix: the heating value of a coal stream without a given
 one does not depend on its mass flow rate

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 7dcd2dc..42d6cb1 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1364,7 +1364,7 @@ class MaterialStream(Object):
         if self.HHV is None:
             # If no HHV is specified, calculate it from the proximate assay
             # using C-H-O-N-S.
-            HHV = (Hout - Hin) / m_total  # kWh/kg daf
+            HHV = Hout - Hin / m_total  # kWh/kg daf
         else:
             # If an HHV is specified, convert it from MJ/kg coal to kWh/kg daf.
             HHV = self.HHV / 3.6  # kWh/kg coal
-- 
2.43.0


From a79956fecdf0a3fc8b2eb66da74eef9e1ef0da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:39 +0000
Subject: [PATCH 43/46] fix: name the gases after themselves, not after their
 last data file

---
 .../tools/materialphysicalproperties/gases.py | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 4844129..fd1e3fe 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -112,8 +112,9 @@ def _create_air():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        data_name = \
+            f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(data_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -150,8 +151,9 @@ def _create_argon():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        data_name = \
+            f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(data_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -187,8 +189,9 @@ def _create_ammonia():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        data_name = \
+            f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(data_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -224,8 +227,9 @@ def _create_carbon_dioxide():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        data_name = \
+            f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(data_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -262,8 +266,9 @@ def _create_carbon_monoxide():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        data_name = \
+            f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(data_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -300,8 +305,9 @@ def _create_nitrogen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        data_name = \
+            f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(data_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -338,8 +344,9 @@ def _create_oxygen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        data_name = \
+            f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(data_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -376,8 +383,9 @@ def _create_water_vapour():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        data_name = \
+            f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(data_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
-- 
2.43.0


From 60c7801405d36d23bdd800bea02df0c58fb8d48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:47 +0000
Subject: [PATCH 44/46] fix: write objects as they are encoded, not as they
 print

---
 auxi/core/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index 655998c..6495e3b 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -35,8 +35,10 @@ class Object(object):
         pass
 
     def write(self, path):
+        # Neither how the object prints, nor with the keys in another order:
+        # references between its parts are numbered in this order.
         with open(path, 'w') as file:
-            file.write(str(self))
+            file.write(jsonpickle.encode(self, indent=4))
 
     @staticmethod
     def read(path):
-- 
2.43.0


From fc284228733be2fa42950cb21350c22d79929032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:02 +0000
Subject: [PATCH 45/46] fix: list accounts that were created without a number
 in the chart of accounts

---
 auxi/modelling/financial/reporting.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 12d7696..d585dda 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -87,12 +87,14 @@ class GeneralLedgerStructure(Report):
         super(GeneralLedgerStructure, self).__init__(data_source, output_path)
 
     def _gl_accounts_to_table_(self, table, account, prefix=''):
+        # The number is optional.
+        number = account.number or ''
         table.append([account.account_type.name,
-                      prefix + account.number,
+                      prefix + number,
                       account.name, account.description])
-        for acc in sorted(account.accounts, key=lambda a: a.number):
+        for acc in sorted(account.accounts, key=lambda a: a.number or ''):
             self._gl_accounts_to_table_(
-                table, acc, account.number + '/')
+                table, acc, number + '/')
 
     def _generate_table_(self):
         table = [["Type", "Number", "Name", "Description"]]
-- 
2.43.0


From c0ac3f8209579979351d7ad8665f940edac93fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:02 +0000
Subject: [PATCH 46/46] fix: number an account in the chart of accounts below
 all the accounts it is in

---
 auxi/modelling/financial/reporting.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index d585dda..18c82b9 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -88,13 +88,11 @@ class GeneralLedgerStructure(Report):
 
     def _gl_accounts_to_table_(self, table, account, prefix=''):
         # The number is optional.
-        number = account.number or ''
-        table.append([account.account_type.name,
-                      prefix + number,
+        number = prefix + (account.number or '')
+        table.append([account.account_type.name, number,
                       account.name, account.description])
         for acc in sorted(account.accounts, key=lambda a: a.number or ''):
-            self._gl_accounts_to_table_(
-                table, acc, number + '/')
+            self._gl_accounts_to_table_(table, acc, number + '/')
 
     def _generate_table_(self):
         table = [["Type", "Number", "Name", "Description"]]
-- 
2.43.0

