"""C08: no silent extrapolation and no conversion from too little data."""
import numpy as np
from hypothesis import strategies as st

from vf import tsgen, tsmodel
from vf.core import Sub, require
from vf.tscheck import compare, real, times

from openscm.core.parameterset import ParameterSet
from openscm.errors import InsufficientDataError


def check_bounds(case, rec):
    """Targets at, just inside and just outside the ends of the source."""
    ptype, src, vals = case["type"], case["src"], case["values"]
    dst = list(case["dst"])
    left, right = case["left"], case["right"]  # overshoot in seconds, negative: inside
    if case["snap"] and left is not None and (len(dst) == 1 or src[0] - left < dst[1]):
        dst[0] = src[0] - left
    if case["snap"] and right is not None and (len(dst) == 1 or src[-1] + right > dst[-2]):
        dst[-1] = src[-1] + right
    if any(b <= a for a, b in zip(dst, dst[1:])):
        return
    reaches = dst[0] < src[0] or dst[-1] > src[-1]
    early = tsmodel.late(src, dst)
    short = len(vals) < 3
    for ext in ("none", "constant", "linear"):
        refuse = early or short or (ext == "none" and reaches)
        got = real(ptype, src, vals, dst, ext)
        what = "%s series, %s" % (ptype, ext)
        if refuse:
            require(got is None, "%s: not refused but %r", what, got)
        else:
            require(got is not None, "%s: refused", what)
            require(got.shape == (len(dst) - (ptype == "average"),)
                    and np.all(np.isfinite(got)), "%s: gives %r", what, got)
        if not dst[0] > src[1]:
            got = real(ptype, src, vals, dst, ext, "to")
            refuse = short or (ext == "none" and reaches)
            if not early:
                require((got is None) == refuse, "%s, converting to: %r", what, got)
    rec.label(("early " if early else "") + ("short " if short else "")
              + ("reaches out" if reaches else "within"))
    over = [x for x in (src[0] - dst[0], dst[-1] - src[-1]) if x > 0]
    if over and max(over) <= 3600:
        rec.label("overshoot of at most an hour")
    rec.nontrivial(reaches or early or short)


def check_views(case, rec):
    """The same through views of a parameter."""
    ptype, src, dst, vals, ext = (case[k] for k in ("type", "src", "dst", "values", "ext"))
    ps = ParameterSet()
    w = ps.timeseries("X", "kg", times(src), timeseries_type=ptype, extrapolation=ext)
    w.values = np.array(vals)
    try:
        want = tsmodel.convert(ptype, src, vals, dst, ext)
    except tsmodel.Refused:
        want = None
    rec.nontrivial(want is None)
    rec.label("refused" if want is None else "accepted")
    tol = 1e-9 * tsmodel.magnitude(ptype, src, vals, dst, ext) + 1e-300

    def read():
        v = ps.timeseries("X", "kg", times(dst), timeseries_type=ptype, extrapolation=ext)
        return np.array(v.values)

    for _ in range(2):
        try:
            got = read()
        except InsufficientDataError:
            got = None
        if want is None:
            require(got is None, "reading is not refused but gives %r", got)
        else:
            compare(got, want, tol, "read through a view")
    # writing through a view whose grid does not suffice for the storage grid
    n = len(dst) - (ptype == "average")
    new = np.arange(n, dtype=float) * 1.5 + 1
    try:
        wantw = tsmodel.convert(ptype, dst, list(new), src, ext)
    except tsmodel.Refused:
        wantw = None
    if tsmodel.late(src, dst) or dst[0] > src[1]:
        return
    r = ps.timeseries("X", "kg", times(dst), timeseries_type=ptype, extrapolation=ext)
    try:
        r.values = new
        ok = True
    except InsufficientDataError:
        ok = False
    now = np.array(ps.timeseries("X", "kg", times(src), timeseries_type=ptype,
                                 extrapolation=ext).values)
    if wantw is None:
        require(not ok, "writing is not refused, the data becomes %r", now)
        compare(now, vals, 1e-12 * max(abs(v) for v in vals) + 1e-300, "data after a refused write")
        rec.label("write refused")
        rec.nontrivial()
    else:
        require(ok, "writing is refused")
        compare(now, wantw, 1e-9 * tsmodel.magnitude(ptype, dst, list(new), src, ext) + 1e-300,
                "data after writing")


OVER = st.one_of(
    st.sampled_from([0, 1, -1, 2, 59, 3600, 86400, 366 * 86400, None]),
    st.integers(-100, 10**7),
)


@st.composite
def s_bounds(draw):
    ptype = draw(st.sampled_from(["point", "average"]))
    avg = ptype == "average"
    src = draw(tsgen.grid(2 + avg, 9))
    dst = draw(tsgen.target(src, 1 + avg, 7, inside=draw(st.booleans()) or None))
    return {"type": ptype, "src": src, "dst": dst,
            "values": draw(tsgen.values(len(src) - avg)), "snap": draw(st.booleans()),
            "left": draw(OVER), "right": draw(OVER)}


@st.composite
def s_views(draw):
    ptype = draw(st.sampled_from(["point", "average"]))
    avg = ptype == "average"
    src = draw(tsgen.grid(3 + avg, 8))
    dst = list(draw(tsgen.target(src, 1 + avg, 7, inside=draw(st.booleans()) or None)))
    if draw(st.booleans()):
        side, k = draw(st.sampled_from([0, -1])), draw(st.sampled_from([0, 1, -1, 3600]))
        if side == 0 and (len(dst) == 1 or src[0] - k < dst[1]):
            dst[0] = src[0] - k
        elif side == -1 and (len(dst) == 1 or src[-1] + k > dst[-2]):
            dst[-1] = src[-1] + k
    return {"type": ptype, "src": src, "dst": dst, "ext": draw(tsgen.EXTRA),
            "values": draw(tsgen.values(len(src) - avg))}


SUBS = [
    Sub("bounds", check_bounds, s_bounds, quick=4000, thorough=150000,
        rule="targets snapped around the ends of the source by 1 s and more, short and late "
             "sources, all modes; non-trivial if some mode has to refuse"),
    Sub("views", check_views, s_views, quick=1500, thorough=50000,
        rule="reads and writes through parameter views; non-trivial if one has to be refused"),
]
ASSUMPTIONS = []
