From efd77c186fb54143aac6322e15034489c1b488b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:11:35 +0000
Subject: [PATCH 01/47] fix: report an unknown quantity the same way every time

The second and later misspelled names raised TypeError from the spell checker
because a set was updated in place with a tuple.
---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 2454159..099a51a 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -95,7 +95,7 @@ class Interface:
         if self._spellcheck is None:
             self._spellcheck = spelling.SpellChecker(*keys)
         else:
-            self._spellcheck.words |= keys
+            self._spellcheck.words |= set(keys)
         return self._spellcheck.check(key)
 
     @property
-- 
2.43.0


From bbe5c103c66361bfe7178eaea615353ab44c9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:29 +0000
Subject: [PATCH 02/47] fix: compute the flow angle from the dot product of B
 and V

The arguments to the parallel-velocity helper were swapped and the result was
divided by the flow speed a second time, so every angle was nearly pi/2.
---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 165b10f..09d83ce 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -99,7 +99,7 @@ def flow_angle(
     vp: numpy.ndarray,
 ) -> numpy.ndarray:
     """The angle between the magnetic- and velocity-field vectors."""
-    b_dot_v = v_para(br, bt, bp, vr, vt, vp)
+    b_dot_v = br*vr + bt*vt + bp*vp
     bv = bv_mag(br, bt, bp, vr, vt, vp)
     arg = numpy.array(b_dot_v / bv)
     arg[arg < -1.0] = -1.0
-- 
2.43.0


From 45f2330a2d3bf9b67d8425d22158294dd22656cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:29 +0000
Subject: [PATCH 03/47] fix: pair each species with its own energies in
 rigidity

Mass and charge were broadcast along the energy axis, so a dataset with more
than one species either failed or silently mixed species and energies.
---
 src/goats/core/computed.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 09d83ce..3e94e25 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -182,10 +182,11 @@ def rigidity(
     it divides the momentum by the particle charge to get rigidity.
     """
     c = float(MKS['c'])
-    total_energy = numpy.array(energy, ndmin=1) + mass*c**2
-    rest_energy = mass*c**2
+    # The species axis precedes the energy axis.
+    rest_energy = numpy.asarray(mass)[..., None] * c**2
+    total_energy = numpy.array(energy, ndmin=1) + rest_energy
     p = numpy.sqrt(total_energy**2 - rest_energy**2) / c
-    return p / charge
+    return p / numpy.asarray(charge)[..., None]
 
 
 @registry.register
-- 
2.43.0


From 3dd7e10c347be25efbd27b4ae4b08bbfd9a8a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:29 +0000
Subject: [PATCH 04/47] fix: use the speed of light in cm/s in electromagnetic
 conversions

Some factors assumed m/s, so charges and currents were wrong by a factor of
100 in cgs, potentials by 100, and conductances, resistances and inductances
by 10^4. The elementary charge is 4.8e-10 statC, as in `fundamental`.
---
 src/goats/core/metric.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4657fb0..362298a 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -728,17 +728,17 @@ PI = numpy.pi
 
 _CONVERSIONS = {
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C / 10,
     ('e', 'C'): 1.6022e-19,
-    ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('S', 'cm / s'): C**2 * 1e-9,
+    ('A', 'statA'): C / 10,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -752,7 +752,7 @@ _CONVERSIONS = {
     ('H / m', '1'): 1e7 / 4*PI,
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From d14a44ce31f534e9cb553e5c427e4d41f6ac96e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:21 +0000
Subject: [PATCH 05/47] fix: interpolate over one-dimensional energy and
 pitch-angle axes

The axis number was hard-coded to that of a two-dimensional energy grid, and a
quantity with no uninterpolated axis was subscripted after interpolation.
---
 src/goats/eprem/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 42d8a61..4e34c3c 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -446,12 +446,6 @@ class Context(observing.Context):
         ]
         return q[tuple(indices)]
 
-    _axis_indices = {
-        'time': 0,
-        'energy': 1,
-        'mu': 1,
-    }
-
     def _compute_interpolants(self, q: variable.Quantity):
         """Determine the coordinate axes over which to interpolate."""
         coordinates = {}
@@ -468,7 +462,7 @@ class Context(observing.Context):
                         'reference': self.coordinates[dimension],
                     }
         interpolants = {
-            k: {**c, 'axis': self._axis_indices.get(k)}
+            k: {**c, 'axis': c['reference'].ndim - 1}
             for k, c in coordinates.items()
         }
         if 'shell' not in q.dimensions:
@@ -514,6 +508,9 @@ class Context(observing.Context):
             for d in coordinates
         ]
         dimensions = list(set(q.dimensions) - set(interpolated))
+        if not dimensions:
+            # There are no uninterpolated axes to subscript.
+            return base
         return self._subscript(base, *dimensions)
 
     def _interpolate_coordinate(
-- 
2.43.0


From a1e2248bccbc4f46b0880e0b3453d97d93f1db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:21 +0000
Subject: [PATCH 06/47] fix: interpolate over radius before interpolating over
 time

After interpolation to the target times, the rows of the data no longer match
the rows of the radius grid: the request failed or, when there were as many
target times as data times, combined values with the wrong radii.
---
 src/goats/eprem/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 4e34c3c..e242022 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -492,7 +492,14 @@ class Context(observing.Context):
     ) -> variable.Quantity:
         """Internal interpolation logic."""
         array = None
-        for coordinate in coordinates.values():
+        # Interpolate over radius, which depends on time, before interpolating
+        # over time.
+        ordered = sorted(
+            coordinates.values(),
+            key=lambda c: c['reference'].ndim,
+            reverse=True,
+        )
+        for coordinate in ordered:
             array = self._interpolate_coordinate(
                 q,
                 coordinate['targets'],
-- 
2.43.0


From 7c13c505b6fccf871557b05600e17412db63b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:21 +0000
Subject: [PATCH 07/47] fix: give an observation the axis values of the
 selected indices

An observation limited to some indices of a coordinate axis reported the values
of the whole axis.
---
 src/goats/eprem/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index e242022..59bef25 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -218,7 +218,7 @@ class Axes(aliased.Mapping):
                     if isinstance(target, str) else int(target)
                     for target in targets
                 ]
-                return index.Data(indices, values=symbols)
+                return index.Data(indices, values=[symbols[i] for i in indices])
             self._species = axis.Indexer(method, len(symbols))
         return self._species
 
@@ -236,7 +236,10 @@ class Axes(aliased.Mapping):
                 )
             if all(isinstance(t, typing.SupportsIndex) for t in targets):
                 # All the target values are already indices.
-                return index.Data(targets, values=numpy.array(converted))
+                return index.Data(
+                    targets,
+                    values=numpy.array(converted)[list(targets)],
+                )
             measured = measurable.measure(targets)
             if measured.unit != '1':
                 # If the targets include a dimensioned unit, we want to
-- 
2.43.0


From 158d295eec176ed2a04ab539ff0d6e0c1b65f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:16 +0000
Subject: [PATCH 08/47] fix: keep the scale of a variable that is created from
 another variable

The new variable held the scaled array but applied the next unit conversion to
the unscaled data, so converting it lost the earlier conversion.
---
 src/goats/core/variable.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index ed278cb..5665b9c 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -39,10 +39,14 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             if isinstance(__interface, measurable.Quantified)
             else __interface
         )
-        # Carry the internal array from an existing instance.
-        self._full_array = getattr(__interface, '_array', None)
-        # Reset the internal array scale factor.
-        self._scale = 1.0
+        if isinstance(__interface, Array):
+            # Carry the unscaled internal array and the internal array scale
+            # factor from an existing instance.
+            self._full_array = __interface._load_array()
+            self._scale = __interface._scale
+        else:
+            self._full_array = getattr(__interface, '_array', None)
+            self._scale = 1.0
         # Initialize other attributes to `None`.
         self._ndim = None
         self._shape = None
-- 
2.43.0


From fb0d9ebe7f18c460703c8bd65d3a37348dfc485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:42 +0000
Subject: [PATCH 09/47] fix: evaluate computed quantities in MKS units for CGS
 observers

The functions use MKS constants but received CGS values, so a CGS observer
reported wrong flux, fluence, integral flux, energies, rigidity, mean free path
and acceleration rate.
---
 src/goats/eprem/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 59bef25..6f91ec8 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -416,7 +416,15 @@ class Context(observing.Context):
     def compute(self, q: computed.Quantity) -> variable.Quantity:
         """Determine dependencies and compute the result of this function."""
         dependencies = {p: self.get_dependency(p) for p in q.parameters}
-        return q(**dependencies)
+        if str(self._system) == 'mks':
+            return q(**dependencies)
+        # The functions in `~computed` require values in MKS units.
+        values = q.method.compute(**{
+            k: v['mks'] for k, v in dependencies.items()
+        })
+        unit = q.unit.norm['mks']
+        result = variable.Quantity(values, dimensions=q.dimensions, unit=unit)
+        return result[q.unit]
 
     def get_dependency(self, key: str):
         """Get the named constant or variable quantity."""
-- 
2.43.0


From b50e3dd4f22fea8fb8713334f5aab1217b352e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:01 +0000
Subject: [PATCH 10/47] fix: keep the scale of an array that is created from
 another array

Same defect as in `variable`: a unit conversion of the new array was applied to
the unscaled data.
---
 src/goats/core/physical.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 8fd7750..2b55225 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -240,8 +240,14 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
     def __init__(self, __data, **meta) -> None:
         """Initialize an array from arguments."""
         super().__init__(__data, **meta)
-        self._scale = 1.0
-        self._full_array = getattr(__data, '_array', None)
+        if isinstance(__data, Array):
+            # Carry the unscaled internal array and the internal array scale
+            # factor from an existing instance.
+            self._scale = __data._scale
+            self._full_array = __data._load_array()
+        else:
+            self._scale = 1.0
+            self._full_array = getattr(__data, '_array', None)
         self._ndim = None
         self._shape = None
         self.display.register(data='_get_data_type')
-- 
2.43.0


From c5684c5cd7f64c368e14abdd7c1594bf7aa0c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:37 +0000
Subject: [PATCH 11/47] fix: keep the unit of a configured parameter value

An operational argument did not measure itself, so a default such as
lambda0 = 0.5 au reached the functions as 0.5 m.
---
 src/goats/core/operational.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index d87d3e2..0b8c6a2 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -11,6 +11,7 @@ import numpy.typing
 
 from goats.core import algebraic
 from goats.core import iterables
+from goats.core import measurable
 from goats.core import metadata
 from goats.core import metric
 from goats.core import physical
@@ -138,6 +139,10 @@ class Argument:
             return bool(self.data.strip())
         return bool(self.data)
 
+    def __measure__(self):
+        """Create a measurement from this argument's value(s) and unit."""
+        return measurable.Measurement(tuple(self), self.unit or '1')
+
     def __float__(self):
         """Represent a single-valued physical argument as a `float`."""
         if self.unit:
-- 
2.43.0


From 171b48dc4d17b99f7e683ec2912bc8713f5d9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:49 +0000
Subject: [PATCH 12/47] fix: interpolate at a radius or energy that lies on a
 grid point

---
 src/goats/core/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/interpolation.py b/src/goats/core/interpolation.py
index 4cfa0ce..80ed3b5 100644
--- a/src/goats/core/interpolation.py
+++ b/src/goats/core/interpolation.py
@@ -104,7 +104,7 @@ def _apply_interp1d(
     axis: int=None,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    if reference.ndim == 1 and target in reference:
         idx = numerical.find_nearest(reference, target).index
         return array[idx]
     if axis is not None:
@@ -119,7 +119,7 @@ def _apply_interp1d(
     else:
         ref = reference
         arr = array
-    # NOTE: If `ref.size == 1`, the restriction process constrained the
+    # NOTE: If `ref` has one point, the restriction process constrained the
     # reference array to a single value. There is no point in attempting to
     # interpolate over a single reference value since interpolation will fail
     # with fewer than two interpolant values. This may mean that `target` is
@@ -128,8 +128,8 @@ def _apply_interp1d(
     # that `target` is far enough from the extrema of `reference` to represent a
     # truly erroneous value.
     if reference.ndim == 2:
-        if ref.size == 1:
-            return numpy.array([numpy.squeeze(y) for y in arr])
+        if ref.shape[1] == 1:
+            return numpy.array([y[0] for y in arr])
         interps = [interp1d(x, y, axis=0) for x, y in zip(ref, arr)]
         return numpy.array([interp(target) for interp in interps])
     if ref.size == 1:
-- 
2.43.0


From 4936b77109b0604ed04efa050030a146dac9342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:25 +0000
Subject: [PATCH 13/47] fix: compare the minimum energy to each species' own
 energies in integral flux

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 3e94e25..788461c 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -370,10 +370,10 @@ def integral_flux(
     int_flux = numpy.zeros((*flux.shape[:3], len(minimum_energy)))
     for i, bound in enumerate(minimum_energy):
         m = max(bound, sys.float_info.min)
-        use_all = m < numpy.min(energies)
         for s, species_energy in enumerate(energies):
             f = flux[..., s, :]
             e = species_energy
+            use_all = m < numpy.min(e)
             y, x = (f, e) if use_all else _interpolate(f, e, m)
             int_flux[..., s, i] = integrate.simpson(y, x)
     return int_flux
-- 
2.43.0


From 762e1e05d5b49d1c6a77d06560c64fc16e3effbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:27 +0000
Subject: [PATCH 14/47] fix: never drop a term from a unit conversion

The conversion from, e.g., 'hour' to 'day' or 'm/min' to 'km/h' silently
evaluated to 1.0 because the conversion by dimensions discarded every unit
that it could not reduce, as well as the scale of every unit that it could.
---
 src/goats/core/metric.py | 48 ++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 362298a..f73548b 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1710,11 +1710,12 @@ class Conversion(iterables.ReprStrMixin):
         if u1 not in self.units:
             if computed := self._rescale(u1, u0):
                 return scale / computed
-        conversions = CONVERSIONS.get_adjacencies(u0).items()
-        for unit, weight in conversions:
-            if unit not in self._checked:
-                if value := self._convert_as_strings(unit, u1, scale=scale):
-                    return weight * value
+        for alias in self._get_aliases_of(u0):
+            conversions = CONVERSIONS.get_adjacencies(alias).items()
+            for unit, weight in conversions:
+                if unit not in self._checked:
+                    if value := self._convert_as_strings(unit, u1, scale=scale):
+                        return weight * value
 
     @classmethod
     def _rescale(cls, u0: str, u1: str):
@@ -1750,23 +1751,31 @@ class Conversion(iterables.ReprStrMixin):
 
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
         """Attempt to compute a conversion via unit dimensions."""
+        factor = 1.0
         decomposed = []
         for term in terms:
-            reduction = NamedUnit(term.base).reduce()
-            if reduction:
-                decomposed.extend(
-                    [
-                        symbolic.Term(
-                            coefficient=reduction.scale**term.exponent,
-                            base=this.base,
-                            exponent=term.exponent*this.exponent,
-                        )
-                        for this in reduction.units
-                    ]
-                )
+            unit = NamedUnit(term.base)
+            reduction = unit.reduce()
+            if not reduction:
+                if all(d == '1' for d in unit.dimensions.values()):
+                    # A dimensionless unit (e.g., 'nuc') doesn't contribute.
+                    continue
+                # Otherwise, we can't account for the contribution of this term.
+                return
+            factor *= reduction.scale ** term.exponent
+            decomposed.extend(
+                [
+                    symbolic.Term(
+                        base=this.base,
+                        exponent=term.exponent*this.exponent,
+                    )
+                    for this in reduction.units
+                ]
+            )
         if symbolic.Expression(decomposed) == '1':
-            return 1.0
-        return self._resolve_terms(decomposed)
+            return factor
+        if resolved := self._resolve_terms(decomposed):
+            return factor * resolved
 
     def _match_terms(
         self,
@@ -1782,6 +1791,7 @@ class Conversion(iterables.ReprStrMixin):
         ]
         for term in like_terms:
             u1 = term.base
+            self._checked = []
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
         dimensions = NamedUnit(u0).dimensions.values()
-- 
2.43.0


From 7af5f9492240e73d6ce4b1fff7fa1765bbf4c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:08 +0000
Subject: [PATCH 15/47] fix: let several threads create units at the same time

---
 src/goats/core/metric.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index f73548b..45e5d80 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1,7 +1,9 @@
 import abc
 import collections.abc
 import contextlib
+import functools
 import numbers
+import threading
 import typing
 
 import numpy
@@ -11,6 +13,19 @@ from goats.core import iterables
 from goats.core import symbolic
 
 
+_registry_lock = threading.RLock()
+"""Protects the registries of existing units."""
+
+
+def _synchronized(method):
+    """Allow only one thread at a time to use the unit registries."""
+    @functools.wraps(method)
+    def wrapper(*args, **kwargs):
+        with _registry_lock:
+            return method(*args, **kwargs)
+    return wrapper
+
+
 _prefixes = [
     {'symbol': 'Y', 'name': 'yotta', 'factor': 1e+24},
     {'symbol': 'Z', 'name': 'zetta', 'factor': 1e+21},
@@ -1075,6 +1090,7 @@ class _NamedUnitMeta(abc.ABCMeta):
     _instances = aliased.MutableMapping()
     _attributes = {}
 
+    @_synchronized
     def __call__(
         cls,
         arg: typing.Union[Instance, symbolic.Expressable],
@@ -1946,6 +1962,7 @@ class _UnitMeta(abc.ABCMeta):
 
     _instances = aliased.MutableMapping()
 
+    @_synchronized
     def __call__(
         cls,
         arg: typing.Union[Instance, symbolic.Expressable],
-- 
2.43.0


From 9928624b4bd9ed91a21c3ea3e96e126918b5f7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:56 +0000
Subject: [PATCH 16/47] fix: keep an aliased mapping consistent if an update is
 interrupted

---
 src/goats/core/aliased.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index cf87dc9..b72740c 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -839,22 +839,26 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
     def __setitem__(self, key: str, value: _VT):
         """Assign a value to `key` and its aliases."""
         resolved = self._resolve(key) or Group(key)
-        self.as_dict[resolved] = value
-        self._refresh()
+        self._refresh({**self.as_dict, resolved: value})
 
     def __delitem__(self, key: str):
         """Remove the item corresponding to `key`."""
         resolved = self._resolve(key)
         if not resolved:
             raise KeyError(f"'{key!r}' is not a known name or alias.") from None
-        del self.as_dict[resolved]
-        self._refresh()
+        self._refresh({
+            k: v for k, v in self.as_dict.items() if k is not resolved
+        })
 
-    def _refresh(self):
-        """Perform common tasks after setting or deleting an item."""
-        self._flat_dict = {
-            alias: key for key in self.as_dict for alias in key
-        }
+    def _refresh(self, updated: dict):
+        """Perform common tasks after setting or deleting an item.
+        
+        This method replaces the internal mappings together in order to keep
+        them consistent with each other if an exception (e.g., a keyboard
+        interrupt) prevents an update from completing.
+        """
+        flat = {alias: key for key in updated for alias in key}
+        self.as_dict, self._flat_dict = updated, flat
 
     def alias(self, key: str, *aliases: str, include=False):
         """Get or set the alias(es) for an existing key.
@@ -882,9 +886,12 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
                 raise KeyError(
                     f"'{key}' is already an alias for {this!r}"
                 ) from None
-            updated = self._resolve(key) | alias
-            self.as_dict[updated] = self[key]
-            del self[key]
+            current = self._resolve(key)
+            updated = {
+                k: v for k, v in self.as_dict.items() if k is not current
+            }
+            updated[current | alias] = self[key]
+            self._refresh(updated)
 
 
 class NameMap(iterables.MappingBase):
-- 
2.43.0


From 682f12c93eddf5e017dd2f278d1689c77d664fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:50 +0000
Subject: [PATCH 17/47] fix: correct the SI-to-CGS conversion of permeability
 (H / m)

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 45e5d80..04eb6b4 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -764,7 +764,7 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
     ('V', 'statV'): 1e8 / C,
-- 
2.43.0


From 4cbf6bb2302357aee73dda5f8b210bf50132bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:26 +0000
Subject: [PATCH 18/47] fix: normalise units whose quantities cancel out

---
 src/goats/core/metric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 04eb6b4..6a49290 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -856,6 +856,9 @@ class _Property(collections.abc.Mapping, iterables.ReprStrMixin):
         entry, it will attempt to create the equivalent `dict` by symbolically
         evaluating the terms in the entry.
         """
+        if quantity == '1':
+            # All the terms of a compound quantity have cancelled out.
+            return self['identity']
         if quantity not in _QUANTITIES:
             return self._parse(quantity)
         q = _QUANTITIES[quantity]
-- 
2.43.0


From 1e9d12d6dc1ed4ca380f66b14e4f9da7005bc170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:35 +0000
Subject: [PATCH 19/47] fix: keep the metric system and stay consistent when an
 observer is updated

---
 src/goats/eprem/__init__.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 6f91ec8..405eb77 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -696,12 +696,24 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             The path to a new EPREM configuration file from which to extract
             simulation runtime parameter arguments.
         """
-        context = self._build_context(source=source, config=config)
-        if context:
-            self._variables = context.variables
-            self._axes = context.axes
-            return super().update(context)
-        return self
+        previous = (
+            self._config, self._source, self._confpath, self._datapath
+        )
+        try:
+            context = self._build_context(
+                source=source,
+                config=config,
+                system=self._system,
+            )
+        except BaseException:
+            # Leave this observer as it was before the failed update.
+            (
+                self._config, self._source, self._confpath, self._datapath
+            ) = previous
+            raise
+        self._variables = context.variables if context else None
+        self._axes = context.axes if context else None
+        return super().update(context)
 
     def _build_context(self, source=None, config=None, system=None):
         """Create an instance of the EPREM observing context."""
-- 
2.43.0


From c39dc756ef7aa05a3c774ee7b3c1c21270659da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:35 +0000
Subject: [PATCH 20/47] fix: keep the viewers of a dataset to itself and refuse
 unknown file types

---
 src/goats/core/datafile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/datafile.py b/src/goats/core/datafile.py
index 3b00a7d..1341529 100644
--- a/src/goats/core/datafile.py
+++ b/src/goats/core/datafile.py
@@ -167,9 +167,9 @@ class ViewerFactory(collections.abc.MutableMapping):
         try:
             viewers = self._viewer_map[path.suffix]
         except KeyError:
-            TypeError(f"Unrecognized file type for {path}")
+            raise TypeError(f"Unrecognized file type for {path}") from None
         else:
-            return viewers
+            return viewers.copy()
 
     def __getitem__(self, group: str):
         """Get the appropriate viewer for this dataset group."""
-- 
2.43.0


From fe0f9a342d600a884b3a1b78e6d72a4c4d7bd430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:47 +0000
Subject: [PATCH 21/47] fix: identify path-based instances by what their path
 refers to

---
 src/goats/core/iotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 90e8c4c..0e4be55 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -26,7 +26,7 @@ class PathSet(iterables.InstanceSet):
         if not kwargs and len(args) == 1:
             arg = args[0]
             if isinstance(arg, (str, pathlib.Path)):
-                return arg
+                return pathlib.Path(arg).expanduser().resolve()
         return super()._generate_key()
 
 
-- 
2.43.0


From bc4978ad8347203bc6a9ec66c8f482232c72f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:38 +0000
Subject: [PATCH 22/47] fix: accept sums of runtime parameters that are equal
 to zero

---
 src/goats/eprem/runtime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 9a7f9c8..75f4b94 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -703,7 +703,8 @@ class Runtime(iterables.MappingBase):
         """Resolve a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
-- 
2.43.0


From ba7ec99d1504f180638864bdbf8414b0bc111a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:38 +0000
Subject: [PATCH 23/47] fix: ignore white space around the names and lines of a
 config file

---
 src/goats/eprem/runtime.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 75f4b94..f381c2c 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -565,12 +565,11 @@ class ConfigFile(iterables.MappingBase):
         pairs = {}
         with self.filepath.open('r') as fp:
             for line in fp:
-                line = line.rstrip('\n')
-                if line == '' or line == '\n' or line[0] in self.comments:
+                line = iotools.strip_inline_comments(line, self.comments)
+                if not line:
                     continue
-                key, _tmp = line.split('=')
-                value = iotools.strip_inline_comments(_tmp, self.comments)
-                pairs[key] = value
+                key, value = line.split('=', 1)
+                pairs[key.strip()] = value.strip()
         return pairs
 
     def __str__(self) -> str:
-- 
2.43.0


From 17e75acc18087d3a596c460579a656b2f1e54eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:38 +0000
Subject: [PATCH 24/47] fix: list the parameters of the current source after
 changing it

---
 src/goats/eprem/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index f381c2c..f465219 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -648,6 +648,7 @@ class Runtime(iterables.MappingBase):
         if 'source' in paths:
             self._basetypes = None
             self._reference = None
+            super().__init__(tuple(self.reference))
 
     @property
     def basetypes(self):
-- 
2.43.0


From d3de64a07f27229b1e3c515e479c29d8f79b4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:38 +0000
Subject: [PATCH 25/47] fix: compare the config files that were named, wherever
 they are

---
 src/goats/eprem/runtime.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index f465219..29b61db 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1586,7 +1586,7 @@ def _build_arg_dict(
     """Build a `dict` of parameter values."""
     default = Interface()
     paths = _get_relative_paths(files)
-    targets = {path: Interface(path) for path in paths}
+    targets = {name: Interface(path) for name, path in paths.items()}
     keys = sorted(ConfigurationC(source))
     built = {key: {} for key in keys}
     for key in keys:
@@ -1607,12 +1607,10 @@ def _build_arg_dict(
 
 
 def _get_relative_paths(paths: typing.Iterable[iotools.PathLike]):
-    """Strip the common ancestor, if any, from `paths`."""
-    these = {iotools.ReadOnlyPath(f) for f in paths}
-    common = os.path.commonpath(these)
-    if not common:
-        return these
-    return [os.path.relpath(path, start=common) for path in these]
+    """Map the names of `paths`, without common ancestor, to full paths."""
+    these = list(dict.fromkeys(iotools.ReadOnlyPath(f) for f in paths))
+    common = os.path.commonpath([path.parent for path in these])
+    return {os.path.relpath(path, start=common): path for path in these}
 
 
 def _format_arg(arg: operational.Argument):
-- 
2.43.0


From bd0b7beec4e7a7f00cc61f789fbcf1669dccc8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:38 +0000
Subject: [PATCH 26/47] fix: never leave an incomplete database of runtime
 parameters

---
 src/goats/eprem/runtime.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 29b61db..d96f35a 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -52,6 +52,7 @@ import numbers
 import os
 import pathlib
 import re
+import threading
 import typing
 import json
 
@@ -1633,18 +1634,32 @@ def generate_defaults(
         '_BASETYPES_H': {**BaseTypesH(source).format('json')},
         '_CONFIGURATION_C': {**ConfigurationC(source).format('json')},
     }
-    outpath = pathlib.Path(output or __file__).with_suffix('.json')
+    outpath = pathlib.Path(output or __file__).with_suffix('.json').resolve()
     mode = action or 'write'
     if mode not in {'append', 'write'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     if mode == 'append':
-        obj.update(json.load(outpath.open('r')))
-    json.dump(
-        obj,
-        outpath.open('w'),
-        indent=4,
-        sort_keys=True,
-    )
+        with outpath.open('r') as fp:
+            obj.update(json.load(fp))
+    # Complete the new file before replacing the existing one, so that there is
+    # always a usable file.
+    unique = f'{os.getpid()}-{threading.get_ident()}'
+    temporary = outpath.with_name(f'.{outpath.name}.{unique}')
+    try:
+        with temporary.open('w') as fp:
+            json.dump(
+                obj,
+                fp,
+                indent=4,
+                sort_keys=True,
+            )
+            fp.flush()
+            os.fsync(fp.fileno())
+        os.replace(temporary, outpath)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            temporary.unlink()
+        raise
 
 
 if __name__ == '__main__':
-- 
2.43.0


From b6fab2be057f9030e31733f4311d5405a1193cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:30 +0000
Subject: [PATCH 27/47] fix: compare config files that do not differ

---
 src/goats/eprem/runtime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index d96f35a..b491499 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1548,6 +1548,9 @@ def compare_arguments(
     if mode not in {'show', 'diff'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     args = _build_arg_dict(files, source=source, mode=mode)
+    if not args:
+        # All the files have the same values.
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
-- 
2.43.0


From f3f3f8747bd95f41bcdf79a5e46ec9727373f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:26 +0000
Subject: [PATCH 28/47] fix: keep relative paths of runtime parameters valid
 after a change of directory

---
 src/goats/eprem/runtime.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index b491499..7befb88 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -613,6 +613,7 @@ class Runtime(iterables.MappingBase):
             'source': source_path,
             'config': config_path,
         }
+        self._located = {k: self._locate(v) for k, v in self._paths.items()}
         self._user = None
         self._basetypes = None
         self._reference = None
@@ -635,11 +636,19 @@ class Runtime(iterables.MappingBase):
                 return self._paths[current[0]]
             return [self._paths[name] for name in current]
         if new:
+            located = {k: self._locate(v) for k, v in new.items()}
             self._paths.update(new)
+            self._located.update(located)
             self._reset(paths=new)
             return self
         raise TypeError("No paths to get or set")
 
+    def _locate(self, path: typing.Optional[iotools.PathLike]):
+        """Fix the location of a path that may be relative."""
+        if not path:
+            return path
+        return pathlib.Path.cwd() / pathlib.Path(path).expanduser()
+
     def _reset(self, paths: typing.Container=None):
         """Reset attributes based on updates to other attributes."""
         paths = paths or {}
@@ -655,14 +664,14 @@ class Runtime(iterables.MappingBase):
     def basetypes(self):
         """Values of constants defined in `baseTypes.h`."""
         if self._basetypes is None:
-            self._basetypes = BaseTypesH(self._paths['source'])
+            self._basetypes = BaseTypesH(self._located['source'])
         return self._basetypes
 
     @property
     def user(self) -> typing.Mapping[str, str]:
         """The user-provided parameter values."""
         if self._user is None:
-            if path := self._paths['config']:
+            if path := self._located['config']:
                 self._user = ConfigFile(path, **self._kwargs)
             else:
                 self._user = {}
@@ -672,7 +681,7 @@ class Runtime(iterables.MappingBase):
     def reference(self):
         """Parameter metadata from `configuration.c`."""
         if self._reference is None:
-            self._reference = ConfigurationC(self._paths['source'])
+            self._reference = ConfigurationC(self._located['source'])
         return self._reference
 
     _special_cases = {
-- 
2.43.0


From b814be158358c9edd429378ab94a6e621d4ead7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:55 +0000
Subject: [PATCH 29/47] fix: give each class of units its own instances

---
 src/goats/core/metric.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 6a49290..a058a36 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1963,7 +1963,12 @@ class _UnitMeta(abc.ABCMeta):
     needing to overload `__new__` on that class or its base class(es).
     """
 
-    _instances = aliased.MutableMapping()
+    _instances: aliased.MutableMapping
+
+    def __init__(cls, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        # A subclass must never get an instance of its base class.
+        cls._instances = aliased.MutableMapping()
 
     @_synchronized
     def __call__(
-- 
2.43.0


From 8d8a97773b67765a840fd7aed35c4f02167f236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:38 +0000
Subject: [PATCH 30/47] fix: honour slice bounds and trailing indices in mixed
 subscripts

---
 src/goats/core/physical.py |  4 ++--
 src/goats/core/variable.py | 13 ++++++-------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 2b55225..d7c8257 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -371,7 +371,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             args = [args]
         expanded = self._expand_ellipsis(args)
         idx = [
-            range(self.shape[i])
+            range(*arg.indices(self.shape[i]))
             if isinstance(arg, slice) else arg
             for i, arg in enumerate(expanded)
         ]
@@ -390,7 +390,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[slice(start+1, None)],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 5665b9c..1077136 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -126,10 +126,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         result = numpy.array(array, ndmin=self.ndim)
         if array.ndim != self.ndim:
             with contextlib.suppress(TypeError):
-                shape = [
-                    self._get_axis_size(i, v)
-                    for i, v in enumerate(indices)
-                ]
+                shape = list(self.shape)
+                for i, v in enumerate(self._expand_ellipsis(indices)):
+                    shape[i] = self._get_axis_size(i, v)
                 return self._copy_with(data=result.reshape(shape))
         return self._copy_with(data=result)
 
@@ -138,7 +137,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         if isinstance(v, int):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(*v.indices(self.shape[i])))
         return self.shape[i]
 
     def _normalize_indices(self, args):
@@ -156,7 +155,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             args = [args]
         expanded = self._expand_ellipsis(args)
         indices = [
-            range(self.shape[i])
+            range(*arg.indices(self.shape[i]))
             if isinstance(arg, slice) else arg
             for i, arg in enumerate(expanded)
         ]
@@ -174,7 +173,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[slice(start+1, None)],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
-- 
2.43.0


From 42d63bcb886571d6f29f3e6f2de5c55be37cd625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:27 +0000
Subject: [PATCH 31/47] fix: make in-place operators of quantities work

---
 src/goats/core/measurable.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index c1100a6..a17081a 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -137,9 +137,8 @@ class Quantified(algebraic.Quantity, iterables.ReprStrMixin):
         if mode == 'inplace':
             data = func(*args, **kwargs)
             meta = self.meta[name].evaluate(*operands, **kwargs)
-            self._data = data
-            for k, v in meta:
-                setattr(self, k, v)
+            updates = {f'_{k}': v for k, v in meta.items()}
+            self.__dict__.update(updates, _data=data)
             return self
         raise ValueError(f"Unknown operator mode {mode!r}")
 
-- 
2.43.0


From 63d36eb244fc66d017758fc53de404bb87ddbaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:06 +0000
Subject: [PATCH 32/47] fix: never drop degrees from a unit conversion

---
 src/goats/core/metric.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index a058a36..8d8e3c5 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1776,7 +1776,7 @@ class Conversion(iterables.ReprStrMixin):
             unit = NamedUnit(term.base)
             reduction = unit.reduce()
             if not reduction:
-                if all(d == '1' for d in unit.dimensions.values()):
+                if self._is_unity(unit):
                     # A dimensionless unit (e.g., 'nuc') doesn't contribute.
                     continue
                 # Otherwise, we can't account for the contribution of this term.
@@ -1813,10 +1813,16 @@ class Conversion(iterables.ReprStrMixin):
             self._checked = []
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
-        dimensions = NamedUnit(u0).dimensions.values()
-        if u0 in named_units and all(d == '1' for d in dimensions):
+        if u0 in named_units and self._is_unity(NamedUnit(u0)):
             return 1.0, target
 
+    def _is_unity(self, unit: NamedUnit):
+        """True if dropping the dimensionless `unit` changes no value."""
+        if any(d != '1' for d in unit.dimensions.values()):
+            return False
+        # A scaled unit (e.g., 'deg') differs from its normal unit.
+        return all(n == unit or n.symbol == '1' for n in unit.norm.values())
+
     def _resolve_terms(self, terms: typing.List[symbolic.Term]):
         """Compute ratios of matching terms, if possible."""
         if len(terms) <= 1:
-- 
2.43.0


From 46711902e70107ba7c651f9f8e3535460bd251ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:14 +0000
Subject: [PATCH 33/47] fix: add variables dimension by dimension

---
 src/goats/core/variable.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 1077136..7224be9 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -606,7 +606,13 @@ class Quantity(Array):
         """Convert input arrays into arrays appropriate to `ufunc`."""
         multiplicative = ufunc.__name__ in {'multiply', 'divide', 'true_divide'}
         correct_type = all(isinstance(v, type(self)) for v in inputs)
-        if multiplicative and correct_type:
+        # Operands may have the same dimensions in different orders.
+        reordered = (
+            ufunc.__name__ in {'add', 'subtract'} and correct_type
+            and len({tuple(v.dimensions) for v in inputs}) > 1
+            and len({frozenset(v.dimensions) for v in inputs}) == 1
+        )
+        if (multiplicative or reordered) and correct_type:
             dims = self.dimensions.merge(*[v.dimensions for v in inputs])
             tmp = {}
             for v in inputs:
-- 
2.43.0


From e563b4cf57328ce995eb908721cf5027fccfeaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 34/47] fix: keep the unit and name of a scalar or vector that
 is created from another one

---
 src/goats/core/physical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index d7c8257..4b8ea8c 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -66,6 +66,8 @@ class Scalar(Quantity, algebraic.Scalar):
     ) -> None: ...
 
     def __init__(self, __data, **meta) -> None:
+        if isinstance(__data, Scalar):
+            meta = {k: getattr(__data, k) for k in ('unit', 'name')}
         super().__init__(float(__data), **meta)
 
     def __iter__(self):
@@ -161,7 +163,7 @@ class Vector(Quantity):
         if isinstance(__data, measurable.Measurement):
             meta = {'unit': __data.unit}
             __data = __data.data
-        elif isinstance(__data, Scalar):
+        elif isinstance(__data, (Scalar, Vector)):
             meta = {k: getattr(__data, k) for k in ('unit', 'name')}
             __data = __data.data
         array = numpy.asfarray(list(iterables.whole(__data)))
-- 
2.43.0


From b06865266e2ab5959b6505f7f456f19510e18a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 35/47] fix: keep the unit of measured quantities that
 constrain an axis

---
 src/goats/eprem/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 405eb77..47be66e 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -589,6 +589,9 @@ class Context(observing.Context):
         this = self.constraints[key]
         if isinstance(this, index.Quantity):
             return this
+        if isinstance(this, measurable.Quantity):
+            # Don't lose the unit of an already measured quantity.
+            this = measurable.measure(this)
         return self.axes[key].index(*iterables.whole(this))
 
     def get_value(self, key: str, default: T=None) -> physical.Scalar:
-- 
2.43.0


From 8b55553601c5a3d159eebf1a037bdf008e2a7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:57 +0000
Subject: [PATCH 36/47] fix: convert between units that both have a metric
 prefix

---
 src/goats/core/metric.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 8d8e3c5..160073e 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1711,6 +1711,9 @@ class Conversion(iterables.ReprStrMixin):
           to `u0`;
         * a multi-step conversion recursively built by calling back to
           `~Conversions._convert_as_strings`
+        * the same as above, starting from a unit that has the same base unit
+          as, but different metric scale than, `u0` (e.g., for `'mG'` to
+          `'nT'`)
 
         If it does not succeed, it will return ``None`` in order to allow other
         methods an opportunity to convert `u0` to `u1`.
@@ -1735,6 +1738,14 @@ class Conversion(iterables.ReprStrMixin):
                 if unit not in self._checked:
                     if value := self._convert_as_strings(unit, u1, scale=scale):
                         return weight * value
+        if u0 not in self.units and u0 in named_units:
+            n0 = NamedUnit(u0)
+            for unit in self.units:
+                if unit in named_units and unit not in self._checked:
+                    nx = NamedUnit(unit)
+                    if nx.base == n0.base:
+                        if value := self._convert_as_strings(unit, u1):
+                            return scale * (nx // n0) * value
 
     @classmethod
     def _rescale(cls, u0: str, u1: str):
-- 
2.43.0


From b6cdafd7b9e4eb179815599de6e6d542b792350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:59 +0000
Subject: [PATCH 37/47] fix: treat units of an ambiguous system as not
 convertible

---
 src/goats/core/metric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 160073e..3cc55eb 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1785,7 +1785,10 @@ class Conversion(iterables.ReprStrMixin):
         decomposed = []
         for term in terms:
             unit = NamedUnit(term.base)
-            reduction = unit.reduce()
+            try:
+                reduction = unit.reduce()
+            except SystemAmbiguityError:
+                reduction = None
             if not reduction:
                 if self._is_unity(unit):
                     # A dimensionless unit (e.g., 'nuc') doesn't contribute.
-- 
2.43.0


From 82bfd9b2220b919cd5ff3696698b584ac98d7ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:26 +0000
Subject: [PATCH 38/47] fix: refuse unknown quantities without exhausting the
 stack

---
 src/goats/core/metric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 3cc55eb..ea80bfa 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -886,9 +886,12 @@ class _Property(collections.abc.Mapping, iterables.ReprStrMixin):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        quantity = term.base.replace('_', ' ')
+        if quantity != '1' and quantity not in _QUANTITIES:
+            raise KeyError(f"Unknown quantity {quantity}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[quantity].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From 59013d3e98eb1b0807b08f751f13889f50ac1803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:09 +0000
Subject: [PATCH 39/47] fix: accept the symbols of micro and ohm in unit
 expressions

---
 src/goats/core/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index ed680ed..4df21cf 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -30,7 +30,7 @@ class Patterns(collections.UserDict):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
@@ -250,7 +250,7 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
@@ -570,7 +570,7 @@ class OperandFactory(PartFactory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
-- 
2.43.0


From 3329487b92396b246bb8512f20cec6a0ad0091a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:36 +0000
Subject: [PATCH 40/47] fix: correct the SI dimension of permittivity

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index ea80bfa..b252ed7 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -601,7 +601,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From ef0e1e5fb3cb398979ff3d5f79875bb62473ce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:59 +0000
Subject: [PATCH 41/47] fix: read the dataset that is at a path now, not a
 former one

---
 src/goats/core/iotools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 0e4be55..e279abc 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -26,7 +26,12 @@ class PathSet(iterables.InstanceSet):
         if not kwargs and len(args) == 1:
             arg = args[0]
             if isinstance(arg, (str, pathlib.Path)):
-                return pathlib.Path(arg).expanduser().resolve()
+                path = pathlib.Path(arg).expanduser().resolve()
+                if not path.exists():
+                    return path
+                # A new file at this path is not the file we may already know.
+                info = path.stat()
+                return path, info.st_dev, info.st_ino
         return super()._generate_key()
 
 
-- 
2.43.0


From 6963e7115be8b22c78f55c2ec9b934204c1f5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:49 +0000
Subject: [PATCH 42/47] fix: give equal alias groups equal hashes

The hash of a group depended on the order of its aliases, so that merging
mappings which list the same aliases in another order kept both groups and
returned the outdated value.
---
 src/goats/core/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index b72740c..373d6a8 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From 17abfdfcc325b01f51ecf85f1d21782ec4c5da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:27 +0000
Subject: [PATCH 43/47] fix: merge every group that shares an alias

Groups.merge and Groups.update failed when two of the given groups share
aliases with the same group, kept overlapping groups when one given group
shares aliases with two others, and stored plain tuples instead of groups,
which made later calls fail.
---
 src/goats/core/aliased.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 373d6a8..90c8631 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -151,19 +151,13 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
+                merged = Group(group)
+                for found in [g for g in these if not merged.isdisjoint(g)]:
                     these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                    merged = found | merged
+                these.append(merged)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.find(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
         for i in __x:
-- 
2.43.0


From 87691fdb30cc0ca6534732ea96e4fbc686b016ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:48 +0000
Subject: [PATCH 44/47] fix: register all given aliases or none

A call that was refused because one alias is in use had already registered the
aliases in front of it.
---
 src/goats/core/aliased.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 90c8631..1b07c21 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -871,7 +871,8 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         """
         if not aliases:
             return super().alias(key, include=include)
-        for alias in (a for a in aliases if a != key):
+        new = [a for a in aliases if a != key]
+        for alias in new:
             if alias in self._flat_keys():
                 current = super().alias(key)
                 this = ", ".join(str(a) for a in current)
@@ -880,6 +881,7 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
                 raise KeyError(
                     f"'{key}' is already an alias for {this!r}"
                 ) from None
+        for alias in new:
             current = self._resolve(key)
             updated = {
                 k: v for k, v in self.as_dict.items() if k is not current
-- 
2.43.0


From edcb155923023aa1e836d0c23e2a0027acbd2ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:02 +0000
Subject: [PATCH 45/47] fix: list the names of an inverted name map and copy it
 as it is

Inverting a name map left its length and its iteration as before, and a copy
was built from the arguments of the original, whatever became of them.
---
 src/goats/core/aliased.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 1b07c21..e428380 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -1,6 +1,7 @@
 import abc
 import collections
 import collections.abc
+import copy
 import typing
 
 from goats.core import iterables
@@ -920,7 +921,6 @@ class NameMap(iterables.MappingBase):
         names = self._get_names(defs, refs)
         self._mapping = self._build_mapping(names, defs, key)
         super().__init__(self._mapping.keys())
-        self._init = {'refs': refs, 'defs': defs, 'key': key}
 
     RT = typing.TypeVar('RT')
     RT = typing.Union[
@@ -1000,7 +1000,8 @@ class NameMap(iterables.MappingBase):
             name: list(aliases)
             for aliases, name in self._mapping.items(aliased=True)
         }
-        self._mapping = Mapping(inverted)
+        mapping = Mapping(inverted)
+        self._mapping, self._collection = mapping, mapping.keys()
         return self
 
     def __getitem__(self, key: str):
@@ -1040,6 +1041,6 @@ class NameMap(iterables.MappingBase):
 
     def copy(self):
         """Make a shallow copy of this object."""
-        return type(self)(**self._init)
+        return copy.copy(self)
 
 
-- 
2.43.0


From 57f5770db95bf295e5b49a47636aff1789a82429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:26 +0000
Subject: [PATCH 46/47] fix: never reset a unit or dimension that is in use

symbolic.Expression(unit) returns the given unit, after which Python initialised
it a second time: another thread that was evaluating a property of the same
(shared) unit could get None.
---
 src/goats/core/metric.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index b252ed7..df4385c 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2057,6 +2057,10 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
         expression: typing.Union[Instance, str, iterables.whole],
         **kwargs
     ) -> None:
+        if expression is self:
+            # The base class returns an existing instance as is, after which
+            # python calls this method again.
+            return
         super().__init__(expression, **kwargs)
         self._dimensions = None
         self._decomposed = None
@@ -2446,6 +2450,8 @@ class Dimension(symbolic.Expression):
         ) from None
 
     def __init__(self, arg: symbolic.Expressable) -> None:
+        if arg is self:
+            return
         super().__init__(arg)
         self._quantities = {}
 
-- 
2.43.0


From 1724c94dfd7ade61d36b4350af220825879af46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 47/47] fix: never mistake an interrupted conversion of a
 parameter for its value

Runtime and Interface ignored every exception while converting a
definition, including MemoryError, and kept the unconverted string as the
parameter's definition. Ignore only exceptions which mean that the string
does not represent the requested type.
---
 src/goats/eprem/runtime.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 7befb88..acdd338 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -384,6 +384,10 @@ def soft_convert(
     return value
 
 
+_INCONVERTIBLE = (AttributeError, TypeError, ValueError)
+"""Exceptions that mean a definition can't convert to the requested type."""
+
+
 class ConfigurationC(SourceFile):
     """A representation of default arguments in EPREM `configuration.c`."""
 
@@ -768,9 +772,13 @@ class Runtime(iterables.MappingBase):
         if isinstance(arg, realtype):
             return arg
         if realtype in {int, float}:
-            return soft_convert(arg, realtype)
+            return soft_convert(arg, realtype, _INCONVERTIBLE)
         if realtype == list:
-            return soft_convert(arg, iterables.string_to_list)
+            return soft_convert(
+                arg,
+                iterables.string_to_list,
+                _INCONVERTIBLE,
+            )
         return arg
 
 
@@ -985,9 +993,13 @@ class Interface(aliased.Mapping[str, _VT]):
         if isinstance(arg, realtype):
             return arg
         if realtype in {int, float}:
-            return soft_convert(arg, realtype)
+            return soft_convert(arg, realtype, _INCONVERTIBLE)
         if realtype == list:
-            return soft_convert(arg, iterables.string_to_list)
+            return soft_convert(
+                arg,
+                iterables.string_to_list,
+                _INCONVERTIBLE,
+            )
         return arg
 
 
-- 
2.43.0

