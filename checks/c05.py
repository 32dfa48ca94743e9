"""C05: equidistant grids have exactly the requested start, step and length."""
import numpy as np
from hypothesis import strategies as st

from vf import cal
from vf.core import Sub, require

from openscm.core.parameters import ParameterType
from openscm.core.time import create_time_points

UNIT = {"s": 1, "m": 60, "h": 3600, "D": 86400, "W": 604800}


def check_grid(case, rec):
    s, n = case["start"], case["n"]
    pu, pn = case["period"]
    step = UNIT[pu] * pn
    su = case["start_unit"]
    if su in ("ms", "us"):
        start = np.datetime64(s * {"ms": 10**3, "us": 10**6}[su], su)
        want0 = s
    else:
        want0 = s // UNIT[su] * UNIT[su]
        start = np.datetime64(s // UNIT[su], su)
    period = np.timedelta64(pn, pu)
    if case["period_ms"]:
        period = period.astype("timedelta64[ms]")
    ttype = case["type"]
    average = ttype in ("average", "AVERAGE")
    arg = {"average": "average", "point": "point",
           "AVERAGE": ParameterType.AVERAGE_TIMESERIES,
           "POINT": ParameterType.POINT_TIMESERIES}[ttype]
    got = create_time_points(start, period, n, arg)
    m = n + 1 if average else n
    rec.label("average" if average else "point")
    rec.nontrivial(n > 2)
    if want0 + m * step > 2**33 or want0 < -(2**33):
        rec.label("far from 1970")
    require(got.dtype == np.dtype("datetime64[s]"), "grid has type %s", got.dtype)
    require(len(got) == m, "%d entries instead of %d", len(got), m)
    secs = got.astype("int64")
    want = want0 + step * np.arange(m, dtype="int64")
    bad = np.nonzero(secs != want)[0]
    if len(bad):
        i = int(bad[0])
        require(False, "entry %d of %d is %s, not %s", i, m, got[i],
                want[i].astype("datetime64[s]"))


@st.composite
def s_grid(draw):
    pu = draw(st.sampled_from(list(UNIT)))
    pn = draw(st.one_of(st.sampled_from([1, 365, 366, 30, 31, 7]), st.integers(1, 40000)))
    step = UNIT[pu] * pn
    su = draw(st.sampled_from(["s", "D", "h", "m", "ms", "us"]))
    start = draw(st.one_of(
        st.integers(1, 9900).map(cal.seconds),
        st.integers(cal.MIN, cal.MAX - 100 * cal.DAY),
        st.sampled_from([0, -1, 1])))
    room = (cal.MAX - start) // step
    n = draw(st.integers(1, max(1, min(room, draw(st.sampled_from([4, 40, 3000]))))))
    return {"start": start, "start_unit": su, "period": [pu, pn], "n": n,
            "type": draw(st.sampled_from(["average", "point", "AVERAGE", "POINT"])),
            "period_ms": draw(st.integers(0, 5)) == 0}


SUBS = [
    Sub("grid", check_grid, s_grid, quick=8000, thorough=300000,
        rule="start, period (1 s to centuries), length 1 to 3000, both series types; "
             "non-trivial if more than two points"),
]
ASSUMPTIONS = ["periods of fixed length (seconds to weeks)"]
