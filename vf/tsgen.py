"""Strategies for time grids (integer seconds) and values."""
from hypothesis import strategies as st

from . import cal

STEP = st.one_of(
    st.integers(1, 10),
    st.integers(1, 10 * cal.DAY),
    st.integers(1, 400).map(lambda d: d * cal.DAY),
    st.sampled_from([1, 60, 3600, cal.DAY, 31 * cal.DAY, 365 * cal.DAY, 3652 * cal.DAY]),
)

START = st.one_of(
    st.integers(1700, 2200).map(cal.seconds),
    st.integers(100, 9000).map(cal.seconds),
    st.integers(cal.seconds(1900), cal.seconds(2100)),
    st.sampled_from([0, -1, cal.seconds(2000)]),
)


@st.composite
def grid(draw, lo, hi):
    """A strictly increasing grid with ``lo`` to ``hi`` entries."""
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(["regular", "years", "months", "irregular", "mixed"]))
    if kind == "years":
        y = draw(st.integers(1700, 2100))
        k = draw(st.sampled_from([1, 1, 2, 5, 10]))
        return [cal.seconds(y + k * i) for i in range(n)]
    if kind == "months":
        m = draw(st.integers(1800, 2100)) * 12 + draw(st.integers(0, 11))
        return [cal.seconds((m + i) // 12, (m + i) % 12 + 1) for i in range(n)]
    start = draw(START)
    if kind == "regular":
        step = draw(STEP)
        return [start + i * step for i in range(n)]
    steps = draw(st.lists(STEP, min_size=n - 1, max_size=n - 1))
    if kind == "mixed" and steps:
        # steps of comparable size
        base = max(steps)
        steps = [max(1, base // (1 + s % 5)) for s in steps]
    res = [start]
    for s in steps:
        res.append(res[-1] + s)
    return res


@st.composite
def target(draw, src, lo, hi, inside=None):
    """A target grid related to the source grid."""
    n = draw(st.integers(lo, hi))
    span = src[-1] - src[0]
    kind = draw(st.sampled_from(["inside", "inside", "subset", "superset", "out", "free",
                                 "moved", "moved"]))
    if inside:
        kind = draw(st.sampled_from(["inside", "subset", "superset", "moved"]))
    if kind == "moved":
        # the source grid with some of its inner points moved
        if len(src) >= lo:
            res = list(src)
            for i in sorted(draw(st.sets(st.integers(1, max(1, len(src) - 2)), min_size=1))):
                if i < len(src) - 1 and src[i + 1] - res[i - 1] > 1:
                    res[i] = draw(st.integers(res[i - 1] + 1, src[i + 1] - 1))
            return res
        kind = "inside"
    if kind == "subset":
        idx = draw(st.sets(st.integers(0, len(src) - 1), min_size=min(lo, len(src)),
                           max_size=len(src)))
        res = sorted(src[i] for i in idx)
        if len(res) >= lo:
            return res
        kind = "inside"
    if kind == "superset":
        extra = draw(st.lists(st.integers(src[0], src[-1]), max_size=hi))
        res = sorted(set(src) | set(extra))
        if len(res) >= lo:
            return res
        kind = "inside"
    if kind == "free":
        return draw(grid(lo, hi))
    if kind == "inside":
        a, b = src[0], src[-1]
    else:
        a = src[0] - draw(st.sampled_from([0, 1, 3600, span // 4 + 1, span * 2]))
        b = src[-1] + draw(st.sampled_from([0, 1, 3600, span // 4 + 1, span * 2]))
    n = min(n, b - a + 1)
    if n < lo:
        return draw(grid(lo, hi))
    pts = set(draw(st.lists(st.integers(a, b), min_size=n, max_size=n)))
    pts |= set(draw(st.sampled_from([[], [a], [b], [a, b], [a, b]])))
    res = sorted(pts)
    i = 0
    while len(res) < lo:
        cand = a + i
        i += 1
        if cand not in pts:
            pts.add(cand)
            res = sorted(pts)
    return res


VALUE = st.one_of(
    st.integers(-10, 10).map(float),
    st.floats(-1e6, 1e6, allow_nan=False).map(lambda v: v if abs(v) > 1e-100 else 0.0),
    st.sampled_from([0.0, 1.0, -1.0, 1e-9, 1e15, -1e15, 0.1]),
)


@st.composite
def values(draw, n):
    """``n`` values."""
    kind = draw(st.sampled_from(["any", "any", "const", "line", "small"]))
    if kind == "const":
        return [draw(VALUE)] * n
    if kind == "line":
        a, b = draw(VALUE), draw(VALUE)
        return [a + b * i for i in range(n)]
    if kind == "small":
        return [float(x) for x in draw(
            st.lists(st.integers(-5, 5), min_size=n, max_size=n))]
    return draw(st.lists(VALUE, min_size=n, max_size=n))


EXTRA = st.sampled_from(["none", "constant", "linear"])
