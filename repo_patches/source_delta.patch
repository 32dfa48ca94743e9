From 9beb7fca96e9c48447a8fd97b498859bf1655deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:39 +0000
Subject: [PATCH 01/47] fix: do not add parameters below a tree that has been
 aggregated

---
 openscm/core/parameters.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 09d199b..88fbf62 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -184,8 +184,9 @@ class _Parameter:
         Raises
         ------
         ParameterReadError
-            If the child parameter would need to be added, but this parameter has
-            already been read from. In this case a child parameter cannot be added.
+            If the child parameter would need to be added, but this parameter (or one of
+            its parents) has already been read from. In this case a child parameter
+            cannot be added.
         ParameterWrittenError
             If the child parameter would need to be added, but this parameter has
             already been written to. In this case a child parameter cannot be added.
@@ -194,8 +195,12 @@ class _Parameter:
         if res is None:
             if self.has_been_written_to:
                 raise ParameterWrittenError
-            if self.has_been_read_from:
-                raise ParameterReadError
+            # views of any parameter further up aggregate over this one's children, too
+            p: Optional["_Parameter"] = self
+            while p is not None:
+                if p.has_been_read_from:
+                    raise ParameterReadError
+                p = p.parent
             res = _Parameter(name, self.region)
             res.parent = self
             self.children[name] = res
-- 
2.43.0


From d630db4b8896a25b7d45dce542879b1d10d683dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 02/47] fix: refuse to aggregate child parameters of a
 different type

---
 openscm/core/parameters.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 88fbf62..7171c78 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -254,21 +254,23 @@ class _Parameter:
         Raises
         ------
         ParameterTypeError
-            If parameter has already been read from or written to in a different type
+            If parameter (or one of its child parameters) has already been read from or
+            written to in a different type
         ParameterAggregationError
             If parameter has child parameters which cannot be aggregated (for boolean
             and string parameters)
         """
         if self.parameter_type is not None and self.parameter_type != parameter_type:
             raise ParameterTypeError
+        if parameter_type == ParameterType.GENERIC and self.children:
+            raise ParameterAggregationError
+        self._check_children_type(parameter_type)
         if self.parameter_type is None:
             self.unit = unit
             self.parameter_type = parameter_type
             if parameter_type == ParameterType.SCALAR:
                 self.data = float("NaN")
             elif parameter_type == ParameterType.GENERIC:
-                if self.children:
-                    raise ParameterAggregationError
                 self.data = None
             else:  # parameter is a timeseries
                 self.data = np.full(
@@ -282,6 +284,26 @@ class _Parameter:
                 self.time_points = np.array(time_points, copy=True)
         self.has_been_read_from = True
 
+    def _check_children_type(self, parameter_type: ParameterType) -> None:
+        """
+        Check that all parameters below this one can be aggregated as
+        :obj:`parameter_type`.
+
+        Parameters
+        ----------
+        parameter_type
+            Parameter type to be read
+
+        Raises
+        ------
+        ParameterTypeError
+            If a parameter below this one is of a different type
+        """
+        for child in self.children.values():
+            if child.parameter_type not in (None, parameter_type):
+                raise ParameterTypeError
+            child._check_children_type(parameter_type)
+
     def attempt_write(
         self,
         parameter_type: ParameterType,
-- 
2.43.0


From cff184f9233a311c20b777b2b549647c1e3e92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 03/47] fix: leave no trace of a parameter view that could not
 be created

---
 openscm/core/parameterset.py | 82 +++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 21 deletions(-)

diff --git a/openscm/core/parameterset.py b/openscm/core/parameterset.py
index 6dd69a7..a9c6fff 100644
--- a/openscm/core/parameterset.py
+++ b/openscm/core/parameterset.py
@@ -1,7 +1,8 @@
 """
 Bundling parameters in a parameter set.
 """
-from typing import Optional, Union
+from contextlib import contextmanager
+from typing import Iterator, Optional, Union
 
 import numpy as np
 
@@ -135,6 +136,49 @@ class ParameterSet:
         # len(name) == 0
         raise ValueError("No parameter name given")
 
+    @contextmanager
+    def _parameter_for_view(
+        self, name: HierarchicalName, region: HierarchicalName
+    ) -> Iterator[_Parameter]:
+        """
+        Get (or create) the parameter for a view that is created in the context.
+
+        If creating the view fails (e.g. because its unit is invalid), the parameter is
+        left as if the view had never been requested.
+
+        Parameters
+        ----------
+        name
+            :ref:`Hierarchical name <parameter-hierarchy>` of the parameter
+        region
+            Hierarchical name of the region
+
+        Yields
+        ------
+        _Parameter
+            Parameter found or newly created
+        """
+        # pylint: disable=protected-access
+        region_ = self._get_or_create_region(region)
+        if isinstance(name, str):
+            name = name.split(HIERARCHY_SEPARATOR)
+        existing = 0
+        while existing < len(name) and region_.get_parameter(name[: existing + 1]):
+            existing += 1
+        parameter = self._get_or_create_parameter(name, region_)
+        state = dict(vars(parameter))
+        try:
+            yield parameter
+        except Exception:
+            if existing == len(name):
+                vars(parameter).update(state)
+            elif existing:
+                parent = region_.get_parameter(name[:existing])
+                del parent.children[name[existing]]  # type: ignore
+            else:
+                del region_._parameters[name[0]]
+            raise
+
     def scalar(
         self, name: HierarchicalName, unit: str, region: HierarchicalName = ("World",)
     ) -> ScalarView:
@@ -164,12 +208,9 @@ class ParameterSet:
         ValueError
             Name not given or invalid region
         """
-        parameter = self._get_or_create_parameter(
-            name, self._get_or_create_region(region)
-        )
-
-        parameter.attempt_read(ParameterType.SCALAR, unit)
-        return ScalarView(parameter, unit)
+        with self._parameter_for_view(name, region) as parameter:
+            parameter.attempt_read(ParameterType.SCALAR, unit)
+            return ScalarView(parameter, unit)
 
     def timeseries(  # pylint: disable=too-many-arguments
         self,
@@ -218,14 +259,16 @@ class ParameterSet:
         timeseries_type = ParameterType.from_timeseries_type(timeseries_type)
         interpolation = InterpolationType.from_interpolation_type(interpolation)
         extrapolation = ExtrapolationType.from_extrapolation_type(extrapolation)
-        parameter = self._get_or_create_parameter(
-            name, self._get_or_create_region(region)
-        )
-
-        parameter.attempt_read(timeseries_type, unit, time_points)
-        return TimeseriesView(
-            parameter, unit, time_points, timeseries_type, interpolation, extrapolation
-        )  # TimeseriesView
+        with self._parameter_for_view(name, region) as parameter:
+            parameter.attempt_read(timeseries_type, unit, time_points)
+            return TimeseriesView(
+                parameter,
+                unit,
+                time_points,
+                timeseries_type,
+                interpolation,
+                extrapolation,
+            )
 
     def generic(
         self, name: HierarchicalName, region: HierarchicalName = ("World",)
@@ -256,12 +299,9 @@ class ParameterSet:
         ValueError
             Name not given or invalid region
         """
-        parameter = self._get_or_create_parameter(
-            name, self._get_or_create_region(region)
-        )
-
-        parameter.attempt_read(ParameterType.GENERIC)
-        return GenericView(parameter)
+        with self._parameter_for_view(name, region) as parameter:
+            parameter.attempt_read(ParameterType.GENERIC)
+            return GenericView(parameter)
 
     def info(
         self, name: HierarchicalName, region: HierarchicalName = ("World",)
-- 
2.43.0


From c8e6519df7a32ddc20860dfd86294d27c0113203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:30 +0000
Subject: [PATCH 04/47] fix: refresh aggregated timeseries when child
 parameters change

---
 openscm/core/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index be0af3b..8f122d6 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -346,7 +346,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
-        elif self._version != self._parameter.version:
+        elif self._parameter.children or self._version != self._parameter.version:
             np.copyto(self._data, self._get_values())
             self._version = self._parameter.version
 
-- 
2.43.0


From 891103277c8b8fdb3f3b7581430f36885aef5c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:05 +0000
Subject: [PATCH 05/47] fix: keep held timeseries arrays current, precise and
 read-only if aggregated

---
 openscm/core/views.py | 75 ++++++++++++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 22 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 8f122d6..d556688 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -4,6 +4,7 @@ and time information.
 """
 
 import numbers
+from copy import deepcopy
 from typing import Any, Optional, Sequence, Tuple, cast
 
 import numpy as np
@@ -25,7 +26,6 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
 
     _HANDLED_TYPES = (np.ndarray, numbers.Number)
     __array_priority__ = 1000
-    _ndarray: np.ndarray
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         args = [
@@ -34,7 +34,8 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         outputs = kwargs.pop("out", None)
         if outputs:
             kwargs["out"] = tuple(
-                i._ndarray if isinstance(i, type(self)) else i for i in outputs
+                i.__prepare_write__(float)._ndarray if isinstance(i, type(self)) else i
+                for i in outputs
             )
             results = self._ndarray.__array_ufunc__(ufunc, method, *args, **kwargs)
             if results is NotImplemented:
@@ -59,10 +60,10 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     def _create_arithmetic_method(cls, op):
         def arithmetic_method(self, other):
             if isinstance(other, cls):
-                other = other._ndarray
+                other = other.__read__()._ndarray
 
             with np.errstate(all="ignore"):
-                return op(self._ndarray, other)
+                return op(self.__read__()._ndarray, other)
 
         arithmetic_method.__name__ = "__{}__".format(op.__name__)
         arithmetic_method.__qualname__ = "{cl}.__{name}__".format(
@@ -73,24 +74,38 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
 
     _create_comparison_method = _create_arithmetic_method
 
-    def __init__(self, input_array: np.ndarray, parameter_view: "TimeseriesView"):
+    def __init__(self, parameter_view: "TimeseriesView", items: Tuple = ()):
         """
         Initialize.
 
         Parameters
         ----------
-        input_array
-            Array to handle
         parameter_view
             :class:`TimeseriesView` this timeseries belongs to
+        items
+            Indices to apply (one after the other) to the data of the view
         """
-        self._ndarray = np.asarray(input_array)
         self._parameter_view = parameter_view
+        self._items = items
+
+    @property
+    def _ndarray(self) -> np.ndarray:
+        """
+        Array to handle
+        """
+        result = self._parameter_view._data
+        for item in self._items:
+            result = result[item]
+        return np.asarray(result)
 
     def __read__(self):
         self._parameter_view._read()
         return self
 
+    def __prepare_write__(self, dtype):
+        self._parameter_view._prepare_element_write(dtype)
+        return self
+
     def __write__(self):
         self._parameter_view._write()
         return self
@@ -99,10 +114,12 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         self.__read__()
         result = self._ndarray[item]
         if not isinstance(item, int):
-            result = type(self)(result, self._parameter_view)
+            result = type(self)(self._parameter_view, self._items + (deepcopy(item),))
         return result
 
     def __setitem__(self, key, val):
+        val = np.asarray(val)
+        self.__prepare_write__(val.dtype)
         self._ndarray[key] = val
         self.__write__()
 
@@ -112,10 +129,10 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             yield i
 
     def __repr__(self):
-        return "timeseries({})".format(repr(self._ndarray))
+        return "timeseries({})".format(repr(self.__read__()._ndarray))
 
     def __array__(self, dtype=None):
-        return np.asarray(self._ndarray, dtype=dtype)
+        return np.asarray(self.__read__()._ndarray, dtype=dtype)
 
     def __len__(self):
         return len(self._ndarray)
@@ -343,13 +360,31 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             )
 
     def _read(self):
-        if self._data is None:
-            self._data = self._get_values()
-            self._version = self._parameter.version
-        elif self._parameter.children or self._version != self._parameter.version:
-            np.copyto(self._data, self._get_values())
+        if (
+            self._data is None
+            or self._parameter.children
+            or self._version != self._parameter.version
+        ):
+            self._set_data(self._get_values())
             self._version = self._parameter.version
 
+    def _promote(self, dtype):
+        if not np.can_cast(dtype, self._data.dtype):
+            self._data = self._data.astype(np.promote_types(dtype, self._data.dtype))
+
+    def _set_data(self, values):
+        if self._data is None:
+            self._data = np.array(values)
+        else:
+            self._promote(values.dtype)
+            np.copyto(self._data, values)
+
+    def _prepare_element_write(self, dtype):
+        self._check_write()
+        self._read()
+        if np.issubdtype(dtype, np.number):
+            self._promote(dtype)
+
     def _check_write(self):
         if not self._writable:
             self._parameter.attempt_write(
@@ -403,7 +438,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         self._read()
         if self._timeseries is None:
-            self._timeseries = _Timeseries(self._data, self)
+            self._timeseries = _Timeseries(self)
         return self._timeseries
 
     @values.setter
@@ -414,11 +449,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         self._check_write()
         if len(v) != self._timeseries_converter.target_length:
             raise TimeseriesPointsValuesMismatchError
-        if self._data is None:
-            self._data = np.asarray(v).copy()
-            self._timeseries = _Timeseries(self._data, self)
-        else:
-            np.copyto(self._data, np.asarray(v))
+        self._set_data(np.asarray(v))
         self._write()
 
     @property
-- 
2.43.0


From 6a048f9d6d40f497f7edf33bca83ce272b2eb9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 06/47] fix: leave parameters unchanged by failed or
 unpublished writes

---
 openscm/core/views.py | 70 +++++++++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index d556688..2193f8e 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -11,7 +11,11 @@ import numpy as np
 from numpy.lib.mixins import NDArrayOperatorsMixin
 from pandas.core.arrays.base import ExtensionOpsMixin
 
-from ..errors import ParameterEmptyError, TimeseriesPointsValuesMismatchError
+from ..errors import (
+    ParameterEmptyError,
+    ParameterReadonlyError,
+    TimeseriesPointsValuesMismatchError,
+)
 from .parameters import ParameterInfo, ParameterType, _Parameter
 from .time import ExtrapolationType, InterpolationType, TimeseriesConverter
 from .units import UnitConverter
@@ -237,12 +241,15 @@ class ScalarView(ParameterInfo):
         """
         Value of scalar parameter
         """
+        if self._parameter.children:
+            raise ParameterReadonlyError
+        data = self._unit_converter.convert_to(v)
         if not self._writable:
             self._parameter.attempt_write(
                 ParameterType.SCALAR, self._unit_converter.target
             )
             self._writable = True
-        self._parameter.data = self._unit_converter.convert_to(v)
+        self._parameter.data = data
         self._parameter.version += 1
 
     @property
@@ -276,6 +283,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     write)?
     """
 
+    _pending: bool
+    """Have values been written that the underlying parameter does not have yet?"""
+
     _timeseries: Optional[_Timeseries]
     """Time series handler"""
 
@@ -285,8 +295,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     _unit_converter: UnitConverter
     """Unit converter"""
 
-    _version: int
-    """Version of cache"""
+    _version: Optional[int]
+    """Version of cache (``None`` if it needs to be read again)"""
 
     _writable: bool
     """Is this view writable? Is set to ``True`` once this view is written to."""
@@ -329,7 +339,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         )
         self._data = None
         self._locked = False
+        self._pending = False
         self._timeseries = None
+        self._version = None
         self._writable = False
 
         def get_data_views_for_children_or_parameter(
@@ -360,6 +372,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             )
 
     def _read(self):
+        if self._pending:
+            return
         if (
             self._data is None
             or self._parameter.children
@@ -380,7 +394,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             np.copyto(self._data, values)
 
     def _prepare_element_write(self, dtype):
-        self._check_write()
+        if self._parameter.children:
+            raise ParameterReadonlyError
         self._read()
         if np.issubdtype(dtype, np.number):
             self._promote(dtype)
@@ -394,13 +409,28 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             )
             self._writable = True
 
+    def _convert_to(self, values):
+        return self._timeseries_converter.convert_to(
+            self._unit_converter.convert_to(values)
+        )
+
     def _write(self):
-        if not self._locked:
-            self._parameter.data = self._timeseries_converter.convert_to(
-                self._unit_converter.convert_to(self._data)
-            )
-            self._parameter.version += 1
-            self._version = self._parameter.version
+        if self._locked:
+            self._pending = True
+            return
+        try:
+            data = self._convert_to(self._data)
+        except Exception:
+            self._version = None
+            raise
+        self._set_parameter_data(data)
+
+    def _set_parameter_data(self, data):
+        self._check_write()
+        self._parameter.data = data
+        self._parameter.version += 1
+        self._version = self._parameter.version
+        self._pending = False
 
     def _get_values(self) -> np.ndarray:
         if self._parameter.children:
@@ -446,11 +476,18 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Value of the full timeseries
         """
-        self._check_write()
+        if self._parameter.children:
+            raise ParameterReadonlyError
         if len(v) != self._timeseries_converter.target_length:
             raise TimeseriesPointsValuesMismatchError
-        self._set_data(np.asarray(v))
-        self._write()
+        v = np.asarray(v)
+        if self._locked:
+            self._set_data(v)
+            self._pending = True
+        else:
+            data = self._convert_to(v)
+            self._set_data(v)
+            self._set_parameter_data(data)
 
     @property
     def unit(self) -> Optional[str]:
@@ -482,10 +519,11 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Unlock this view (i.e., update the underlying parameter on every write).
 
-        Updates the underlying parameter.
+        Updates the underlying parameter if this view has been written to while locked.
         """
+        if self._pending:
+            self._set_parameter_data(self._convert_to(self._data))
         self._locked = False
-        self._write()
 
 
 class GenericView(ParameterInfo):
-- 
2.43.0


From 077087eeb745704d23c84f577e933cd1454a4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:38 +0000
Subject: [PATCH 07/47] fix: average intervals exactly and detect any
 extrapolation

---
 openscm/core/time.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index b872cae..c306a5c 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -14,7 +14,6 @@ from typing import Any, Callable, Dict, Sequence, Union
 
 import numpy as np
 import pandas as pd
-import scipy.integrate as integrate
 import scipy.interpolate as interpolate
 from dateutil import parser
 
@@ -292,7 +291,7 @@ def _calc_interval_averages(
     continuous_representation: Callable[[float], float], target_intervals: np.ndarray
 ) -> np.ndarray:
     """
-    Calculate the interval averages of a continuous function.
+    Calculate the interval averages of a continuous, piecewise linear function.
 
     Here interval average is calculated as the integral over the period divided by
     the period length.
@@ -311,13 +310,23 @@ def _calc_interval_averages(
     np.ndarray
         Array of the interval/period averages
     """
-    # TODO: numerical integration here could be very expensive
-    # TODO: update to include caching and/or analytic solutions depending on interpolation choice
+    # The representation is linear between its nodes so that the value in the middle
+    # between two nodes is the average there. Hence, the integral is exact.
+    nodes = continuous_representation.x  # type: ignore
     int_averages = [np.nan] * len(target_intervals[:-1])
     for i, l in enumerate(target_intervals[:-1]):
         u = target_intervals[i + 1]
-        y, _ = integrate.quad(continuous_representation, l, u)
-        int_averages[i] = y / (u - l)
+        points = np.concatenate(
+            (
+                [l],
+                nodes[
+                    np.searchsorted(nodes, l, side="right") : np.searchsorted(nodes, u)
+                ],
+                [u],
+            )
+        )
+        middle_values = continuous_representation((points[1:] + points[:-1]) / 2)
+        int_averages[i] = np.sum(middle_values * np.diff(points)) / (u - l)
 
     return np.array(int_averages)
 
-- 
2.43.0


From 8a5b2609357cb4810ad2a0ece8b9c8587af4fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:37 +0000
Subject: [PATCH 08/47] fix: define sulfur as a base unit

---
 openscm/core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 6d23e2d..3f01a78 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -136,7 +136,7 @@ _standard_gases = {
     "NOx": "NOx",
     "nox": ["NOx"],
     "NH3": ["14/17 * N", "ammonia"],
-    "S": ["sulfur"],
+    "S": "sulfur",
     "SO2": ["32/64 * S", "sulfur_dioxide"],
     "SOx": ["SO2"],
     "BC": "black_carbon",
-- 
2.43.0


From 54d1c45a333148d520bab3ca0d92962e40f2012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:09 +0000
Subject: [PATCH 09/47] fix: guess parameter types for units which cannot be
 parsed

---
 openscm/scmdataframe/parameter_type.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/openscm/scmdataframe/parameter_type.py b/openscm/scmdataframe/parameter_type.py
index 5a15f16..62c36e0 100644
--- a/openscm/scmdataframe/parameter_type.py
+++ b/openscm/scmdataframe/parameter_type.py
@@ -5,7 +5,7 @@ import re
 from typing import Optional
 
 from ..core.parameters import ParameterType
-from ..core.units import UndefinedUnitError, _unit_registry
+from ..core.units import _unit_registry
 
 """
 List of regex patterns for matching variable names to :obj:`ParameterType`.
@@ -53,15 +53,18 @@ def guess_parameter_type(variable_name: str, unit: Optional[str]) -> ParameterTy
     """
     if unit:
         # try and determine if the unit contains a time dimension
-        try:
-            pint_unit = _unit_registry(unit).units
-            if "[time]" in str(pint_unit.dimensionality):
+        for parse in (_unit_registry.Unit, _unit_registry.Quantity):
+            try:
+                dimensionality = str(parse(unit).dimensionality)
+            except Exception:  # pylint: disable=broad-except
+                # pint raises all kinds of exceptions if it cannot make sense of a
+                # string, default to trying to parse from variable name
+                continue
+
+            if "[time]" in dimensionality:
                 return ParameterType.AVERAGE_TIMESERIES
 
             return ParameterType.POINT_TIMESERIES
-        except UndefinedUnitError:
-            # default to trying to parse from variable name
-            pass
 
     for r, t in parameter_matches:
         if r.match(variable_name):
-- 
2.43.0


From 496d0ad60f7db1dc980a08253ccd4d33dd69d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:49 +0000
Subject: [PATCH 10/47] fix: read unsigned integer years and partial dates
 correctly

---
 openscm/core/time.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index c306a5c..75c7e20 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -107,7 +107,14 @@ def _float_year_to_datetime(inp: float) -> np.datetime64:
 
 
 _ufunc_float_year_to_datetime = np.frompyfunc(_float_year_to_datetime, 1, 1)
-_ufunc_str_to_datetime = np.frompyfunc(parser.parse, 1, 1)
+
+
+def _str_to_datetime(inp: str) -> datetime.datetime:
+    # parts of the date which are not given shall not depend on today's date
+    return parser.parse(inp, default=datetime.datetime(2000, 1, 1))
+
+
+_ufunc_str_to_datetime = np.frompyfunc(_str_to_datetime, 1, 1)
 
 
 def _parse_datetime(inp: np.ndarray) -> np.ndarray:
@@ -147,7 +154,11 @@ def _format_datetime(dts: np.ndarray) -> np.ndarray:
     if issubclass(dtype, np.floating):
         return _ufunc_float_year_to_datetime(dts).astype("datetime64[s]")
     if issubclass(dtype, np.integer):
-        return (np.asarray(dts) - 1970).astype("datetime64[Y]").astype("datetime64[s]")
+        return (
+            (np.asarray(dts, dtype=_TARGET_TYPE) - 1970)
+            .astype("datetime64[Y]")
+            .astype("datetime64[s]")
+        )
     if issubclass(dtype, str):
         return _parse_datetime(dts).astype("datetime64[s]")
     return np.asarray(dts, dtype="datetime64[s]")
-- 
2.43.0


From dd7bc38666ac0e711cd89165954e3854ef018448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 11/47] fix: do not expose uninitialised memory in DICE outputs

---
 openscm/adapters/dice.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index 1fbb530..d0f3d09 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -235,18 +235,18 @@ class DICE(Adapter):
         v.b32 = v.b23.value * v.mueq.value / v.mleq.value
         v.b33 = 1 - v.b32
 
-        v.mat.values = np.empty(self._timestep_count)
+        v.mat.values = np.zeros(self._timestep_count)
         v.mat.values[0] = v.mat0.value
-        v.ml.values = np.empty(self._timestep_count)
+        v.ml.values = np.zeros(self._timestep_count)
         v.ml.values[0] = v.ml0.value
-        v.mu.values = np.empty(self._timestep_count)
+        v.mu.values = np.zeros(self._timestep_count)
         v.mu.values[0] = v.mu0.value
-        v.tatm.values = np.empty(self._timestep_count)
+        v.tatm.values = np.zeros(self._timestep_count)
         v.tatm.values[0] = v.tatm0.value
-        v.tocean.values = np.empty(self._timestep_count)
+        v.tocean.values = np.zeros(self._timestep_count)
         v.tocean.values[0] = v.tocean0.value
 
-        v.forc.values = np.empty(self._timestep_count)
+        v.forc.values = np.zeros(self._timestep_count)
         v.forc.values[0] = (
             v.fco22x.value * log2(v.mat0.value / v.mateq.value) + v.fex0.value
         )
-- 
2.43.0


From ba0170317330ea8bd8a68b755889075b3a4590b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 12/47] fix: accept several ranges in time filters without
 altering them

---
 openscm/scmdataframe/base.py    |  2 +-
 openscm/scmdataframe/filters.py | 70 +++++++++++++++------------------
 2 files changed, 32 insertions(+), 40 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 4beb8ce..a824039 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -770,7 +770,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
     def _day_match(self, values):
         if isinstance(values, str):
             wday = True
-        elif isinstance(values, list) and isinstance(values[0], str):
+        elif isinstance(values, (list, tuple)) and isinstance(values[0], str):
             wday = True
         else:
             wday = False
diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 32ea694..dae7baa 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -346,50 +346,42 @@ def time_match(
         increasing integers (i.e. "Nov-Feb" will not work, one must use ["Nov-Dec",
         "Jan-Feb"] instead)
     """
-    times_list = [times] if isinstance(times, (int, str)) else times
+    # take a copy as the filter must not be altered
+    times_list = [times] if isinstance(times, (int, str)) else list(times)
 
     def conv_strs(strs_to_convert, conv_codes, name):
-        res = None
-        for conv_code in conv_codes:
-            try:
-                res = [
-                    getattr(time.strptime(t, conv_code), strptime_attr)
-                    for t in strs_to_convert
-                ]
-                break
-            except ValueError:
-                continue
-
-        if res is None:
-            error_msg = "Could not convert {} '{}' to integer".format(
-                name, strs_to_convert
-            )
-            raise ValueError(error_msg)
+        res = []
+        for t in strs_to_convert:
+            for conv_code in conv_codes:
+                try:
+                    res.append(getattr(time.strptime(t, conv_code), strptime_attr))
+                    break
+                except ValueError:
+                    continue
+            else:
+                error_msg = "Could not convert {} '{}' to integer".format(
+                    name, strs_to_convert
+                )
+                raise ValueError(error_msg)
         return res
 
     if isinstance(times_list[0], str):
-        to_delete = []
-        to_append = []  # type: List
-        for i, timeset in enumerate(times_list):
-            # ignore type as already established we're looking at strings
-            if "-" in timeset:  # type: ignore
-                ints = conv_strs(timeset.split("-"), conv_codes, name)  # type: ignore
-                if ints[0] > ints[1]:
-                    error_msg = (
-                        "string ranges must lead to increasing integer ranges,"
-                        " {} becomes {}".format(timeset, ints)
-                    )
-                    raise ValueError(error_msg)
-
-                # + 1 to include last month
-                to_append += [j for j in range(ints[0], ints[1] + 1)]
-                to_delete.append(i)
-
-        for i in to_delete:
-            del times_list[i]
-
-        times_list = conv_strs(times_list, conv_codes, name)
-        times_list += to_append
+        # ignore type as already established we're looking at strings
+        ranges = [t for t in times_list if "-" in t]  # type: ignore
+        times_list = conv_strs(
+            [t for t in times_list if "-" not in t], conv_codes, name  # type: ignore
+        )
+        for timeset in ranges:
+            ints = conv_strs(timeset.split("-"), conv_codes, name)  # type: ignore
+            if ints[0] > ints[1]:
+                error_msg = (
+                    "string ranges must lead to increasing integer ranges,"
+                    " {} becomes {}".format(timeset, ints)
+                )
+                raise ValueError(error_msg)
+
+            # + 1 to include last month
+            times_list += [j for j in range(ints[0], ints[1] + 1)]
 
     return is_in(data, times_list)
 
-- 
2.43.0


From b9e7ae0428ff363cfeaf03376e4814f41df54d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:10 +0000
Subject: [PATCH 13/47] fix: match special characters in filters literally

---
 openscm/scmdataframe/filters.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index dae7baa..81ccdea 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -99,7 +99,7 @@ def find_depth(
     regexp = str(s).replace("*", "")
 
     def apply_test(val):
-        return test(len(pipe.findall(val.replace(regexp, ""))))
+        return test(len(pipe.findall(val.replace(regexp, "", 1))))
 
     return np.array([b for b in [apply_test(m) for m in meta_col]])
 
@@ -169,16 +169,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
 
     for s in _values:
         if isinstance(s, str):
-            _regexp = (
-                str(s)
-                .replace("|", "\\|")
-                .replace(".", r"\.")  # `.` has to be replaced before `*`
-                .replace("*", ".*")
-                .replace("+", r"\+")
-                .replace("(", r"\(")
-                .replace(")", r"\)")
-                .replace("$", "\\$")
-            ) + "$"
+            _regexp = re.escape(str(s)).replace(r"\*", ".*") + "$"
             pattern = re.compile(_regexp if not regexp else str(s))
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
-- 
2.43.0


From 1835d276d34434e9eb1e68005b8e2ca89ad53178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:10 +0000
Subject: [PATCH 14/47] fix: filter by metadata which contains None

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 81ccdea..1fb202f 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -164,7 +164,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
     _meta_col = meta_col.copy()
     if has_nan:
         _meta_col.loc[
-            [np.isnan(i) if not isinstance(i, str) else False for i in _meta_col]
+            [pd.isnull(i) if not isinstance(i, str) else False for i in _meta_col]
         ] = ""
 
     for s in _values:
-- 
2.43.0


From 7ccf207a7219a7a26d1d416062f55a563ba06261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 15/47] fix: filter empty data frames and with empty selections

---
 openscm/core/time.py            | 12 +++++++-----
 openscm/scmdataframe/base.py    |  4 ++--
 openscm/scmdataframe/filters.py |  8 ++++----
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 75c7e20..5e870ef 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -211,7 +211,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Year of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "year")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "year")
 
     def months(self) -> np.ndarray:
         """
@@ -222,7 +222,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Month of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "month")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "month")
 
     def days(self) -> np.ndarray:
         """
@@ -233,7 +233,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Day of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "day")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "day")
 
     def hours(self) -> np.ndarray:
         """
@@ -244,7 +244,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Hour of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "hour")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "hour")
 
     def weekdays(self) -> np.ndarray:
         """
@@ -255,7 +255,9 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Day of the week of each time point
         """
-        return np.vectorize(datetime.datetime.weekday)(self._values.astype(object))
+        return np.vectorize(datetime.datetime.weekday, otypes=[int])(
+            self._values.astype(object)
+        )
 
 
 def create_time_points(  # TODO: replace by simpler function
diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index a824039..cd44e20 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -712,8 +712,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             Filtering cannot be performed on requested column
         """
         regexp = filters.pop("regexp", False)
-        keep_ts = np.array([True] * len(self._data))
-        keep_meta = np.array([True] * len(self.meta))
+        keep_ts = np.array([True] * len(self._data), dtype=bool)
+        keep_meta = np.array([True] * len(self.meta), dtype=bool)
 
         # filter by columns and list of values
         for col, values in filters.items():
diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 1fb202f..e7d42ac 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -34,7 +34,7 @@ def is_in(vals: List, items: List) -> np.ndarray:
         Array of the same length as :obj:`vals` where the element is ``True`` if the
         corresponding element of :obj:`vals` is in :obj:`items` and False otherwise
     """
-    return np.array([v in items for v in vals])
+    return np.array([v in items for v in vals], dtype=bool)
 
 
 def find_depth(
@@ -101,7 +101,7 @@ def find_depth(
     def apply_test(val):
         return test(len(pipe.findall(val.replace(regexp, "", 1))))
 
-    return np.array([b for b in [apply_test(m) for m in meta_col]])
+    return np.array([b for b in [apply_test(m) for m in meta_col]], dtype=bool)
 
 
 def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
@@ -151,7 +151,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
         Filtering is performed on a string metadata column which contains
         :class:`np.nan` and :obj:`has_nan` is ``False``
     """
-    matches = np.array([False] * len(meta_col))
+    matches = pd.Series(False, index=meta_col.index, dtype=bool)
     _values = (
         [values]
         if not isinstance(values, Iterable) or isinstance(values, str)
@@ -190,7 +190,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
                 if level is None
                 else find_depth(_meta_col, str(s), level, separator=separator)
             )
-            matches |= _meta_col.isin(subset) & depth
+            matches |= _meta_col.isin(subset).astype(bool) & depth
         else:
             matches |= meta_col == s
 
-- 
2.43.0


From 01244c302e1fce6bd4ec69834885b31f19241e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 16/47] fix: interpolate frames with mixed or missing parameter
 types and year targets

---
 openscm/scmdataframe/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index cd44e20..87cf86e 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -971,7 +971,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         # pylint: disable=protected-access
 
-        target_times = np.asarray(target_times, dtype="datetime64[s]")
+        target_times = TimePoints(target_times).values
 
         # Need to keep an object index or pandas will not be able to handle a wide
         # time range
@@ -987,19 +987,19 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             res._sort_meta_cols()
 
         def guess(r):
-            if r.parameter_type is None:
+            if pd.isnull(r.parameter_type):
                 warnings.warn(
                     "`parameter_type` metadata not available. Guessing parameter types where unavailable."
                 )
                 parameter_type = guess_parameter_type(r.variable, r.unit)
-                r.parameter_type = (
+                return (
                     "average"
                     if parameter_type == ParameterType.AVERAGE_TIMESERIES
                     else "point"
                 )
-            return r
+            return r.parameter_type
 
-        res._meta.apply(guess, axis=1)
+        res._meta["parameter_type"] = [guess(r) for _, r in res._meta.iterrows()]
 
         # Resize dataframe to new index length
         old_data = res._data
@@ -1008,13 +1008,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for parameter_type, grp in res._meta.groupby("parameter_type"):
             p_type = ParameterType.from_timeseries_type(parameter_type)
             time_points = self.time_points
+            target_time_points = target_times
 
             if p_type == ParameterType.AVERAGE_TIMESERIES:
                 # With an average time series we are making the assumption that the last value is the
                 # average value between t[-1] and (t[-1] - t[-2]). This will ensure that both the
                 # point and average timeseries can use the same time grid.
                 delta_t = target_times[-1] - target_times[-2]
-                target_times = np.concatenate(
+                target_time_points = np.concatenate(
                     (target_times, [target_times[-1] + delta_t])
                 )
 
@@ -1023,7 +1024,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             timeseries_converter = TimeseriesConverter(
                 time_points,
-                target_times,
+                target_time_points,
                 p_type,
                 InterpolationType.from_interpolation_type(interpolation_type),
                 ExtrapolationType.from_extrapolation_type(extrapolation_type),
-- 
2.43.0


From a0ac340b9a2511ac2c6c38e0a91b038fbd0bc106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 17/47] fix: set metadata only for existing timeseries and by
 row label

---
 openscm/scmdataframe/base.py | 38 +++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 87cf86e..49aad3a 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -893,8 +893,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Raises
         ------
         ValueError
-            No name can be determined from inputs or index cannot be coerced to
-            :class:`pd.MultiIndex`
+            No name can be determined from inputs, index cannot be coerced to
+            :class:`pd.MultiIndex`, or index contains duplicates or entries which do
+            not exist
         """
         # check that name is valid and doesn't conflict with data columns
         # mypy doesn't recognise if
@@ -924,17 +925,32 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         meta = pd.Series(meta, index=index, name=name)
 
-        df = self.meta.reset_index()
+        def hashable(label):
+            # missing values are equal here
+            label = label if isinstance(label, tuple) else (label,)
+            return tuple(None if pd.isnull(i) else i for i in label)
+
         if all(index.names):
-            df = df.set_index(index.names)
-        self._meta = (
-            pd.merge(df, meta, left_index=True, right_index=True, how="outer")
-            .reset_index()
-            .set_index("index")
+            rows = self._meta[list(index.names)].itertuples(index=False, name=None)
+        elif meta.index.isin(self._meta.index).all():
+            rows = self._meta.index
+        else:
+            rows = range(len(self._meta))
+        rows = [hashable(row) for row in rows]
+
+        new_values = {hashable(label): v for label, v in meta.iteritems()}
+        if len(new_values) < len(meta):
+            raise ValueError("Metadata is not unique for each index entry")
+        if not set(new_values).issubset(rows):
+            raise ValueError("Cannot set metadata of timeseries which do not exist")
+
+        old_values = (
+            self._meta[name] if name in self._meta else [np.nan] * len(self._meta)
+        )
+        self._meta[name] = pd.Series(
+            [new_values.get(row, old) for row, old in zip(rows, old_values)],
+            index=self._meta.index,
         )
-        # Edge case of using a different index on meta
-        if "level_0" in self._meta:
-            self._meta.drop("level_0", axis=1, inplace=True)
         self._sort_meta_cols()
 
     def interpolate(  # pylint: disable=too-many-locals
-- 
2.43.0


From 2d05a8e3388a1d76f4761437dcff35b21041cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 18/47] fix: leave data frames unchanged by failed in-place
 operations

---
 openscm/scmdataframe/base.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 49aad3a..7dc76bc 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -445,8 +445,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Provides direct access to set "time" as well as the columns in :attr:`meta`.
         """
         if key == "time":
-            self._time_points = TimePoints(value)
-            self._data.index = self._time_points.to_index()
+            time_points = TimePoints(value)
+            self._data.index = time_points.to_index()  # checks the length
+            self._time_points = time_points
             return value
         return self.set_meta(value, name=key)
 
@@ -854,15 +855,16 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             Column is not in meta or renaming will cause non-unique metadata
         """
         ret = copy.deepcopy(self) if not inplace else self
+        meta = self.meta
         for col, _mapping in mapping.items():
             if col not in self.meta.columns:
                 raise ValueError("Renaming by {} not supported!".format(col))
-            ret._meta[col] = ret._meta[col].replace(  # pylint: disable=protected-access
-                _mapping
-            )
-            if ret._meta.duplicated().any():  # pylint: disable=protected-access
+            meta[col] = meta[col].replace(_mapping)
+            if meta.duplicated().any():
                 raise ValueError("Renaming to non-unique metadata for {}!".format(col))
 
+        ret._meta = meta  # pylint: disable=protected-access
+
         if not inplace:
             return ret
 
@@ -1269,7 +1271,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             with the converted units.
         """
         # pylint: disable=protected-access
-        ret = self if inplace else self.copy()
+        ret = self.copy()
 
         if "unit_context" not in ret._meta:
             ret._meta["unit_context"] = None
@@ -1284,9 +1286,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
                 unit=unit, unit_context=context
             )
 
-        if not inplace:
-            return ret
-        return None
+        if inplace:
+            # only update if none of the conversions failed
+            self._data, self._meta = ret._data, ret._meta
+            return None
+        return ret
 
     def relative_to_ref_period_mean(
         self, append_str: Optional[str] = None, **kwargs: Any
-- 
2.43.0


From 947dc935d3158a06f3fa418bfd2248c79d980f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 19/47] fix: keep metadata values of -999 when appending

---
 openscm/scmdataframe/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 7dc76bc..1f48824 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1514,6 +1514,8 @@ def df_append(
 
     # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
     na_fill_value = -999
+    while any((d.meta == na_fill_value).any(axis=None) for d in joint_dfs):
+        na_fill_value -= 1  # must not be an actual value
     for i, _ in enumerate(joint_dfs):
         for col in joint_meta_set:
             if col not in joint_dfs[i].meta:
-- 
2.43.0


From 501cc69a999824fffbef4faa08bf702754090e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 20/47] fix: keep timeseries with missing metadata when reading
 long data

---
 openscm/scmdataframe/base.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 1f48824..e1b1b59 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -158,6 +158,17 @@ def _format_data(  # pylint: disable=missing-return-doc
     return df, meta
 
 
+def _get_na_fill_value(metas: List[pd.DataFrame]) -> int:
+    """
+    Get a value to replace missing values with which none of the metadata contains.
+    """
+    na_fill_value = -999
+    while any((meta == na_fill_value).any(axis=None) for meta in metas):
+        na_fill_value -= 1
+
+    return na_fill_value
+
+
 def _format_long_data(df):
     # check if time column is given as `year` (int) or `time` (datetime)
     cols = set(df.columns)
@@ -170,9 +181,17 @@ def _format_long_data(df):
         raise ValueError(msg)
 
     extra_cols = list(set(cols) - set(REQUIRED_COLS + [time_col, "value"]))
-    df = df.pivot_table(columns=REQUIRED_COLS + extra_cols, index=time_col).value
+    meta_cols = REQUIRED_COLS + extra_cols
+    # timeseries with missing values in their metadata would be dropped otherwise
+    na_fill_value = _get_na_fill_value([df[meta_cols]])
+    for col in meta_cols:
+        if df[col].isna().any():
+            df[col] = df[col].fillna(na_fill_value)
+
+    df = df.pivot_table(columns=meta_cols, index=time_col).value
     meta = df.columns.to_frame(index=None)
     df.columns = meta.index
+    meta = meta.replace(to_replace=na_fill_value, value=np.nan)
 
     return df, meta
 
@@ -1513,9 +1532,7 @@ def df_append(
     joint_meta_set = set(joint_meta)
 
     # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
-    na_fill_value = -999
-    while any((d.meta == na_fill_value).any(axis=None) for d in joint_dfs):
-        na_fill_value -= 1  # must not be an actual value
+    na_fill_value = _get_na_fill_value([d.meta for d in joint_dfs])
     for i, _ in enumerate(joint_dfs):
         for col in joint_meta_set:
             if col not in joint_dfs[i].meta:
-- 
2.43.0


From 1b213def21b2300df736ae734d398d13c538c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 21/47] fix: keep groups with missing metadata when processing
 over columns

---
 openscm/scmdataframe/base.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index e1b1b59..d3bc15d 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -169,6 +169,21 @@ def _get_na_fill_value(metas: List[pd.DataFrame]) -> int:
     return na_fill_value
 
 
+def _replace_in_index(index: pd.Index, to_replace: Any, value: Any) -> pd.Index:
+    """
+    Replace a value in all levels of an index (returns it as it is if there is none).
+    """
+    frame = index.to_frame(index=False)
+    mask = frame.isna() if pd.isnull(to_replace) else frame == to_replace
+    if not mask.any(axis=None):
+        return index
+
+    frame = frame.mask(mask, value)
+    if isinstance(index, pd.MultiIndex):
+        return pd.MultiIndex.from_frame(frame)
+    return pd.Index(frame.iloc[:, 0], name=index.name)
+
+
 def _format_long_data(df):
     # check if time column is given as `year` (int) or `time` (datetime)
     cols = set(df.columns)
@@ -1240,16 +1255,25 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         cols = [cols] if isinstance(cols, str) else cols
         ts = self.timeseries()
         group_cols = list(set(ts.index.names) - set(cols))
+
+        # groups with missing values in their metadata would be dropped otherwise
+        na_fill_value = _get_na_fill_value([self._meta])
+        ts.index = _replace_in_index(ts.index, np.nan, na_fill_value)
         grouper = ts.groupby(group_cols)
 
         if operation == "median":
-            return grouper.median(**kwargs)
-        if operation == "mean":
-            return grouper.mean(**kwargs)
-        if operation == "quantile":
-            return grouper.quantile(**kwargs)
+            res = grouper.median(**kwargs)
+        elif operation == "mean":
+            res = grouper.mean(**kwargs)
+        elif operation == "quantile":
+            res = grouper.quantile(**kwargs)
+        else:
+            raise ValueError(
+                "operation must be one of ['median', 'mean', 'quantile']"
+            )
 
-        raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
+        res.index = _replace_in_index(res.index, na_fill_value, np.nan)
+        return res
 
     def convert_unit(
         self,
-- 
2.43.0


From d9a132dbb78c19aa9bc3f280ce002552567b060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 22/47] fix: calculate reference period means for timeseries
 with missing metadata

---
 openscm/scmdataframe/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index d3bc15d..8c04f2d 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1362,11 +1362,10 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         ts = self.timeseries()
         # mypy confused by `inplace` default
-        ref_period_mean = (
-            self.filter(**kwargs).timeseries().mean(axis="columns")  # type: ignore
-        )
+        ref_period_mean = self.filter(**kwargs)._data.mean()  # type: ignore
 
-        res = ts.sub(ref_period_mean, axis="rows")
+        # do not align by metadata as it may have missing values
+        res = ts.sub(ref_period_mean.reindex(self._data.columns).values, axis="rows")
         res.reset_index(inplace=True)
 
         if append_str is None:
-- 
2.43.0


From bfda524c07b8158847c3e35d443ee0e6f3c6aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:17 +0000
Subject: [PATCH 23/47] fix: link data and metadata if the rows of the input
 have duplicate labels

---
 openscm/scmdataframe/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 8c04f2d..cec0d57 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -424,6 +424,10 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         self._time_points = TimePoints(_df.index.values)
         _df.index = self._time_points.to_index()
         _df = _df.astype(float)
+        if not _df.columns.is_unique:
+            # data and metadata are linked by these labels
+            _df.columns = pd.RangeIndex(len(_df.columns))
+            _meta.index = _df.columns
 
         self._data, self._meta = (_df, _meta)
         self._sort_meta_cols()
-- 
2.43.0


From 9da6d0929c995b0e962f3e9a4de23a7e0f291b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 24/47] fix: do not alter the data from which data frames are
 created

---
 openscm/scmdataframe/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index cec0d57..299efbe 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -265,8 +265,7 @@ def _from_ts(
     ValueError
         Not all required columns are present
     """
-    if not isinstance(df, pd.DataFrame):
-        df = pd.DataFrame(df)
+    df = pd.DataFrame(df).copy()  # the input must not be altered
     if index is not None:
         if isinstance(index, np.ndarray):
             df.index = TimePoints(index).to_index()
@@ -278,7 +277,7 @@ def _from_ts(
         missing = list(set(REQUIRED_COLS) - set(columns.keys()))
         raise ValueError("missing required columns `{}`!".format(missing))
 
-    df.index.name = "time"
+    df.index = df.index.rename("time")
 
     num_ts = len(df.columns)
     for c_name, col in columns.items():
@@ -294,7 +293,7 @@ def _from_ts(
                 "1 or {}".format(c_name, num_ts)
             )
             raise ValueError(error_msg)
-        columns[c_name] = col_list * num_ts
+        columns[c_name] = list(col_list) * num_ts
 
     meta = pd.DataFrame(columns, index=df.columns)
 
-- 
2.43.0


From 9365414e35d67995f8e9acab26e9c392ee5fec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 25/47] fix: include all subregions when converting parameter
 sets to data frames

---
 openscm/scmdataframe/__init__.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/openscm/scmdataframe/__init__.py b/openscm/scmdataframe/__init__.py
index f032309..e2cfcda 100644
--- a/openscm/scmdataframe/__init__.py
+++ b/openscm/scmdataframe/__init__.py
@@ -108,17 +108,11 @@ def convert_openscm_to_scmdataframe(  # pylint: disable=too-many-locals
     data = []
 
     root_params: Dict[Tuple, ParameterInfo] = {}
-    for (
-        _,
-        value,
-    ) in parameterset._root._parameters.items():  # pylint: disable=protected-access
-        root_params.update(walk_parameters(value))
-    for (
-        _,
-        r,
-    ) in parameterset._root._children.items():  # pylint: disable=protected-access
+    regions = [parameterset._root]  # pylint: disable=protected-access
+    for r in regions:
         for _, value in r._parameters.items():  # pylint: disable=protected-access
             root_params.update(walk_parameters(value))
+        regions.extend(r._children.values())  # pylint: disable=protected-access
 
     for (param_name, region), p_info in root_params.items():
         # All meta values are stored as generic value (AKA no units)
-- 
2.43.0


From 4b644b2e5661e9539dd0fd8812927eacc3e55564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:29 +0000
Subject: [PATCH 26/47] fix: cover the whole time span at any date when
 generating time ranges

---
 openscm/scmdataframe/offsets.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 93b2f94..468a456 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -18,6 +18,7 @@ from pandas.tseries.offsets import (
     BusinessMixin,
     DateOffset,
     NaT,
+    Tick,
     as_datetime,
     conversion,
     normalize_date,
@@ -59,6 +60,15 @@ def apply_dt(func, self):
     return wrapper
 
 
+def _apply_single(obj: DateOffset, n: int, dt: datetime.datetime) -> datetime.datetime:
+    """
+    Apply a single step of an offset forward (or backward for negative ``n``) without
+    using :class:`pd.Timestamp`.
+    """
+    single = obj.__class__(n, normalize=obj.normalize, **obj.kwds)
+    return apply_dt(single.apply.__wrapped__, single)(dt)  # type: ignore
+
+
 def apply_rollforward(obj):
     """
     Roll provided date forward to next offset, only if not on offset.
@@ -67,7 +77,7 @@ def apply_rollforward(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt + obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = _apply_single(obj, 1, dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -81,7 +91,7 @@ def apply_rollback(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt - obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = _apply_single(obj, -1, dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -128,6 +138,10 @@ def to_offset(rule: str) -> DateOffset:
             object.__setattr__(offset, fname, apply_dt(orig_func, offset))
 
     wrap_funcs("apply")
+    if isinstance(offset, Tick):  # fixed length, uses pd.Timestamp without a wrapper
+        object.__setattr__(
+            offset, "apply", apply_dt(lambda self, dt: dt + self.delta, offset)
+        )
     object.__setattr__(offset, "rollforward", apply_rollforward(offset))
     object.__setattr__(offset, "rollback", apply_rollback(offset))
 
@@ -241,9 +255,10 @@ def generate_range(
 
     # Iterate to find all the required timesteps
     current = start
-    while current <= end:
+    if current <= end:
         yield current
 
+    while current < end:
         next_current = offset.apply(current)
         if next_current <= current:
             raise ValueError(  # pragma: no cover  # emergency valve
@@ -251,3 +266,4 @@ def generate_range(
             )
 
         current = next_current
+        yield current
-- 
2.43.0


From f671c25a8cec65200225051df976a51b812e6aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:45 +0000
Subject: [PATCH 27/47] fix: make degreeC and degreeF names of the Celsius and
 Fahrenheit scales

They were defined as new units, which dropped the offset: 0 degreeC was 0 K.
---
 openscm/core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 3f01a78..bf5d70c 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -261,8 +261,8 @@ class ScmUnitRegistry(pint.UnitRegistry):  # type: ignore
         self.define("a = 1 * year = annum = yr")
         self.define("h = hour")
         self.define("d = day")
-        self.define("degreeC = degC")
-        self.define("degreeF = degF")
+        self.define("@alias degC = degreeC")
+        self.define("@alias degF = degreeF")
         self.define("kt = 1000 * t")  # since kt is used for "knot" in the defaults
 
         self.define("ppt = [concentrations]")
-- 
2.43.0


From d419f22a143537bbf902e22f91b58d241b674c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:51 +0000
Subject: [PATCH 28/47] fix: accept fractional years in the last year of the
 calendar

A list of years as texts which contained 9999 was read as dates instead, so that
e.g. the year 99 became 1999.
---
 openscm/core/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 5e870ef..489e351 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -98,7 +98,9 @@ def _float_year_to_datetime(inp: float) -> np.datetime64:
     ) + np.timedelta64(  # pylint: disable=too-many-function-args
         int(
             (
-                datetime.datetime(year + 1, 1, 1) - datetime.datetime(year, 1, 1)
+                datetime.datetime(year, 12, 31)
+                - datetime.datetime(year, 1, 1)
+                + datetime.timedelta(days=1)
             ).total_seconds()
             * fractional_part
         ),
-- 
2.43.0


From 819e6fb160aed6b7b5620e6ad82a391999594eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 29/47] fix: treat time points of any resolution as instants in
 timeseries conversion

---
 openscm/core/time.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 489e351..c41c24d 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -390,6 +390,13 @@ def _calc_integral_preserving_linear_interpolation(values: np.ndarray) -> np.nda
     )
 
 
+def _to_seconds(time_points: np.ndarray) -> np.ndarray:
+    time_points = np.array(time_points)
+    if np.issubdtype(time_points.dtype, np.datetime64):
+        time_points = time_points.astype("datetime64[s]")
+    return time_points.astype(_TARGET_TYPE, copy=True)
+
+
 class TimeseriesConverter:
     """
     Converts timeseries and their points between two timeseriess (each defined by a time
@@ -440,8 +447,8 @@ class TimeseriesConverter:
         InsufficientDataError
             Timeseries too short to extrapolate
         """
-        self._source = np.array(source_time_points).astype(_TARGET_TYPE, copy=True)
-        self._target = np.array(target_time_points).astype(_TARGET_TYPE, copy=True)
+        self._source = _to_seconds(source_time_points)
+        self._target = _to_seconds(target_time_points)
         self._timeseries_type = timeseries_type
         self._interpolation_type = interpolation_type
         self._extrapolation_type = extrapolation_type
-- 
2.43.0


From 9ce0f4420d32a69b8fdc72360c1d710e6841064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 30/47] fix: do not truncate the exogenous forcing ramp to
 whole time units

---
 openscm/adapters/dice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index d0f3d09..8332de5 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -339,8 +339,9 @@ class DICE(Adapter):
             forcoth = v.fex1.value
         else:
             forcoth = v.fex0.value + (v.fex1.value - v.fex0.value) * (
-                v.period_length.value * self._timestep
-            ) / (v.forcoth_saturation_time.value - v.start_time.value)
+                (v.period_length.value * self._timestep)
+                / (v.forcoth_saturation_time.value - v.start_time.value)
+            )
 
         # Original: "Increase in radiative forcing (watts per m2 from 1900)"
         v.forc.values[self._timestep] = (
-- 
2.43.0


From bbb358752186d0eb5190537f54777543be09df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:27 +0000
Subject: [PATCH 31/47] fix: treat line breaks in metadata like any other
 character when filtering

---
 openscm/scmdataframe/filters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index e7d42ac..803d057 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -169,7 +169,8 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
 
     for s in _values:
         if isinstance(s, str):
-            _regexp = re.escape(str(s)).replace(r"\*", ".*") + "$"
+            # "(?s)" and "\Z" so that line breaks are characters like any other
+            _regexp = "(?s)" + re.escape(str(s)).replace(r"\*", ".*") + r"\Z"
             pattern = re.compile(_regexp if not regexp else str(s))
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
-- 
2.43.0


From 99f902d5490eeb04e88e2bf4bc5618f7d4e710aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:46 +0000
Subject: [PATCH 32/47] fix: allow pandas time stamps as filters for times
 outside their range

---
 openscm/scmdataframe/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 803d057..3662511 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -406,4 +406,6 @@ def datetime_match(
     if isinstance(dts, int) or any([isinstance(d, int) for d in dts]):
         error_msg = "`time` can only be filtered with datetimes or lists of datetimes"
         raise TypeError(error_msg)
+    # time stamps cannot be compared with times outside of the nanosecond range
+    dts = [d.to_pydatetime() if isinstance(d, pd.Timestamp) else d for d in dts]
     return is_in(data, dts)
-- 
2.43.0


From 2e6c976c700df9570170b7fd79a1c5a38154b752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:59 +0000
Subject: [PATCH 33/47] fix: do not generate time points beyond the one which
 covers the end

---
 openscm/scmdataframe/offsets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 468a456..2823cd8 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -249,9 +249,10 @@ def generate_range(
      datetime.datetime(2005, 4, 1, 0, 0),
      datetime.datetime(2005, 7, 1, 0, 0)]
     """
-    # Get the bounds
+    # Get the bounds (the first timestep at or after the end is reached by iterating as
+    # timesteps have the time of day of the start, not the one of the end)
     start = offset.rollback(start)
-    end = offset.rollforward(end)
+    end = as_datetime(end)
 
     # Iterate to find all the required timesteps
     current = start
-- 
2.43.0


From d24eabc80627beb42c62e2c965117c670e4c064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 34/47] fix: do not share time points with the caller's arrays

---
 openscm/core/time.py         | 3 ++-
 openscm/scmdataframe/base.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index c41c24d..841f2f8 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -183,7 +183,8 @@ class TimePoints:  # TODO: track type of timeseries
         values
             Time points array to handle
         """
-        self._values = _format_datetime(np.asarray(values))
+        # do not share memory with the caller's array
+        self._values = np.array(_format_datetime(np.asarray(values)))
 
     @property
     def values(self) -> np.ndarray:
diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 299efbe..0043bed 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -576,7 +576,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         Time points of the data
         """
-        return self._time_points.values
+        return self._time_points.values.copy()
 
     def timeseries(self, meta: Optional[List[str]] = None) -> pd.DataFrame:
         """
-- 
2.43.0


From 615da5f916006b5c1efca820f01b67ebcd5733df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:35 +0000
Subject: [PATCH 35/47] fix: cancel equal units of different names when
 guessing parameter types

---
 openscm/scmdataframe/parameter_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/parameter_type.py b/openscm/scmdataframe/parameter_type.py
index 62c36e0..c766524 100644
--- a/openscm/scmdataframe/parameter_type.py
+++ b/openscm/scmdataframe/parameter_type.py
@@ -53,7 +53,7 @@ def guess_parameter_type(variable_name: str, unit: Optional[str]) -> ParameterTy
     """
     if unit:
         # try and determine if the unit contains a time dimension
-        for parse in (_unit_registry.Unit, _unit_registry.Quantity):
+        for parse in (_unit_registry.Quantity, _unit_registry.Unit):
             try:
                 dimensionality = str(parse(unit).dimensionality)
             except Exception:  # pylint: disable=broad-except
-- 
2.43.0


From 0df93c81d052991515ff819925c0050f8a5ed3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:26 +0000
Subject: [PATCH 36/47] fix: guess the type of series without one when
 converting to a parameter set

---
 openscm/scmdataframe/base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 0043bed..6f502ec 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -540,12 +540,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             variable = metadata.pop("variable")
             region = metadata.pop("region")
             unit = metadata.pop("unit")
-            try:
-                timeseries_type = ParameterType.from_timeseries_type(
-                    metadata.pop("parameter_type")
-                )
-            except KeyError:
+            parameter_type = metadata.get("parameter_type")
+            if pd.isnull(parameter_type):
                 timeseries_type = guess_parameter_type(variable, unit)
+            else:
+                timeseries_type = ParameterType.from_timeseries_type(parameter_type)
 
             time_points = self.time_points
             if timeseries_type == ParameterType.AVERAGE_TIMESERIES:
-- 
2.43.0


From 924ae3e29d53f8da8e5a075d6cb815cad042f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 37/47] fix: return picked elements of a timeseries as a copy
 that can be written

---
 openscm/core/views.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 2193f8e..83e8263 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -116,9 +116,14 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
 
     def __getitem__(self, item):
         self.__read__()
-        result = self._ndarray[item]
+        ndarray = self._ndarray
+        result = ndarray[item]
         if not isinstance(item, int):
-            result = type(self)(self._parameter_view, self._items + (deepcopy(item),))
+            # As with numpy slices stay connected, picked elements are a copy
+            if np.size(result) == 0 or np.may_share_memory(result, ndarray):
+                result = type(self)(
+                    self._parameter_view, self._items + (deepcopy(item),)
+                )
         return result
 
     def __setitem__(self, key, val):
-- 
2.43.0


From b27f381b0faa0c36fdc8ecebd9871b75a903e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:39 +0000
Subject: [PATCH 38/47] fix: refuse ranges of month or day names with more than
 two ends

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 3662511..b44ffe7 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -365,7 +365,7 @@ def time_match(
         )
         for timeset in ranges:
             ints = conv_strs(timeset.split("-"), conv_codes, name)  # type: ignore
-            if ints[0] > ints[1]:
+            if len(ints) != 2 or ints[0] > ints[1]:
                 error_msg = (
                     "string ranges must lead to increasing integer ranges,"
                     " {} becomes {}".format(timeset, ints)
-- 
2.43.0


From 749198cb05bc02e63852cac7c279c6caa52fc369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:22 +0000
Subject: [PATCH 39/47] fix: take names of days in any collection as names

---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 6f502ec..2e8de08 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -807,7 +807,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
     def _day_match(self, values):
         if isinstance(values, str):
             wday = True
-        elif isinstance(values, (list, tuple)) and isinstance(values[0], str):
+        elif np.iterable(values) and any(isinstance(v, str) for v in values):
             wday = True
         else:
             wday = False
-- 
2.43.0


From 226fa36e55a5f38798aa4666a9c8a448e334660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:10 +0000
Subject: [PATCH 40/47] fix: sort times given as text by time

---
 openscm/scmdataframe/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 2e8de08..8afd275 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -422,6 +422,13 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         self._time_points = TimePoints(_df.index.values)
         _df.index = self._time_points.to_index()
+        if (
+            not isinstance(data, ScmDataFrameBase)
+            and (np.diff(self._time_points.values) < np.timedelta64(0)).any()
+        ):
+            # times given as text or with an array are not yet sorted
+            _df = _df.sort_index(kind="mergesort")
+            self._time_points = TimePoints(_df.index.values)
         _df = _df.astype(float)
         if not _df.columns.is_unique:
             # data and metadata are linked by these labels
-- 
2.43.0


From 7ffb5ef0bc4490a11ae5efa45ea9ee2da907673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:58 +0000
Subject: [PATCH 41/47] fix: DICE leaves its output views locked when a run
 fails

---
 openscm/adapters/dice.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index 8332de5..21e3246 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -267,16 +267,16 @@ class DICE(Adapter):
         v.tocean.lock()
         v.forc.lock()
 
-        for _ in range(self._timestep_count - 1):
-            self._calc_step()
-        self._values.forc.unlock()
-
-        v.mat.unlock()
-        v.ml.unlock()
-        v.mu.unlock()
-        v.tatm.unlock()
-        v.tocean.unlock()
-        v.forc.unlock()
+        try:
+            for _ in range(self._timestep_count - 1):
+                self._calc_step()
+        finally:
+            v.mat.unlock()
+            v.ml.unlock()
+            v.mu.unlock()
+            v.tatm.unlock()
+            v.tocean.unlock()
+            v.forc.unlock()
 
     def _step(self) -> None:
         """
-- 
2.43.0


From b7c8e41ac63adc40872874424fa1b14d7808b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:31 +0000
Subject: [PATCH 42/47] fix: filtering by level alone failed if regular
 expressions were asked for

---
 openscm/scmdataframe/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 8afd275..3996482 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -800,7 +800,6 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
                         self.meta["variable"],
                         "*",
                         values,
-                        regexp=regexp,
                         has_nan=has_nan,
                         separator=self.data_hierarchy_separator,
                     ).values
-- 
2.43.0


From 2f6685a7a2c3e4e78893a9e7adae8ba9ae1b39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:31 +0000
Subject: [PATCH 43/47] fix: reference periods given as a single value failed
 or were misnamed

---
 openscm/scmdataframe/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 3996482..3a65470 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1377,8 +1377,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         res.reset_index(inplace=True)
 
         if append_str is None:
+            ranges = {
+                k: list(v)
+                if isinstance(v, Iterable) and not isinstance(v, str)
+                else [v]
+                for k, v in kwargs.items()
+            }
             append_str = ";".join(
-                ["{}: {} - {}".format(k, v[0], v[-1]) for k, v in kwargs.items()]
+                ["{}: {} - {}".format(k, v[0], v[-1]) for k, v in ranges.items()]
             )
             append_str = "(ref. period {})".format(append_str)
 
-- 
2.43.0


From 86209a1b6477d333909244687b5c923aac5fb6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:31 +0000
Subject: [PATCH 44/47] fix: empty lists of months and days as filters failed

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index b44ffe7..a1685da 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -357,7 +357,7 @@ def time_match(
                 raise ValueError(error_msg)
         return res
 
-    if isinstance(times_list[0], str):
+    if times_list and isinstance(times_list[0], str):
         # ignore type as already established we're looking at strings
         ranges = [t for t in times_list if "-" in t]  # type: ignore
         times_list = conv_strs(
-- 
2.43.0


From 675acafa3eaff6d75467f8d6b7ffecff43ac6602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:31 +0000
Subject: [PATCH 45/47] fix: units with parentheses of scalar columns were cut
 when converting to a parameter set

---
 openscm/scmdataframe/base.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 3a65470..2811b13 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -300,6 +300,18 @@ def _from_ts(
     return df, meta
 
 
+def _split_unit(name: str) -> Tuple[str, str]:
+    # names and units can have parentheses themselves, the last ones are the unit's
+    start, end = name.index("("), name.rindex(")")
+    depth = 0
+    for i in range(end, start, -1):
+        depth += {")": 1, "(": -1}.get(name[i], 0)
+        if depth == 0:
+            start = i
+            break
+    return name[:start].strip(), name[start + 1 : end].strip()
+
+
 class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
     """
     Base of OpenSCM's custom DataFrame implementation.
@@ -569,8 +581,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         unit_regexp = re.compile(r".*\(.*\)")
         for k, v in meta_values.iteritems():
             if unit_regexp.match(k):
-                para_name = k.split("(")[0].strip()
-                para_unit = k.split("(")[1].split(")")[0].strip()
+                para_name, para_unit = _split_unit(k)
                 parameterset.scalar(para_name, para_unit).value = v
             else:
                 parameterset.generic(k).value = v
-- 
2.43.0


From 31a48daca0889b559e337b39865fa69cd98a9ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:17 +0000
Subject: [PATCH 46/47] fix: conversion to a single time point failed

---
 openscm/core/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 841f2f8..1f08d92 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -454,7 +454,9 @@ class TimeseriesConverter:
         self._interpolation_type = interpolation_type
         self._extrapolation_type = extrapolation_type
 
-        if self._source[0] > self._target[1]:  # TODO: consider extrapolation type
+        # the second target time point, or the only one
+        # TODO: consider extrapolation type
+        if self._source[0] > self._target[:2][-1]:
             raise InsufficientDataError
 
     def _calc_continuous_representation(
-- 
2.43.0


From b4be628ea978b506c39e4263a7c6eb88a381ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 47/47] fix: pyam dataframes could not be made from times given
 partly as text

---
 openscm/scmdataframe/pyam_compat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/scmdataframe/pyam_compat.py b/openscm/scmdataframe/pyam_compat.py
index 3c17c66..b509593 100644
--- a/openscm/scmdataframe/pyam_compat.py
+++ b/openscm/scmdataframe/pyam_compat.py
@@ -27,6 +27,8 @@ try:
             if self.data["time"].apply(lambda x: isinstance(x, str)).any():
 
                 def convert_str_to_datetime(inp):
+                    if not isinstance(inp, str):
+                        return inp
                     try:
                         return parser.parse(inp)
                     except ValueError:
-- 
2.43.0

