"""Shared by the conversion checks."""
import numpy as np

from .core import require

from openscm.core.parameters import ParameterType
from openscm.core.time import ExtrapolationType, InterpolationType, TimeseriesConverter
from openscm.errors import InsufficientDataError

PTYPE = {"point": ParameterType.POINT_TIMESERIES, "average": ParameterType.AVERAGE_TIMESERIES}
ETYPE = {"none": ExtrapolationType.NONE, "constant": ExtrapolationType.CONSTANT,
         "linear": ExtrapolationType.LINEAR}


def times(secs):
    """Numpy times."""
    return np.array(secs, dtype="int64").astype("datetime64[s]")


def converter(ptype, src, dst, extrapolation):
    """The converter under test."""
    return TimeseriesConverter(times(src), times(dst), PTYPE[ptype],
                               InterpolationType.LINEAR, ETYPE[extrapolation])


def real(ptype, src, values, dst, extrapolation, direction="from"):
    """Values converted from ``src`` to ``dst`` or None if refused."""
    try:
        arr = np.array(values, dtype=float)
        keep = arr.copy()
        if direction == "from":
            res = converter(ptype, src, dst, extrapolation).convert_from(arr)
        else:
            # the same conversion asked for the other way round
            res = converter(ptype, dst, src, extrapolation).convert_to(arr)
        require(np.array_equal(arr, keep), "the conversion modifies its argument")
        return np.asarray(res)
    except InsufficientDataError:
        return None


def compare(got, want, tol, what):
    """Element-wise comparison."""
    require(got is not None, "%s is refused", what)
    require(got.shape == (len(want),), "%s has shape %s, not %d", what, got.shape, len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        require(abs(float(g) - float(w)) <= tol,
                "%s: value %d is %r, not %r (tolerance %g)", what, i, float(g), float(w), tol)
