"""Strategies for histories on parameter sets (see psmachine)."""
from hypothesis import strategies as st

from . import cal, tsgen
from .psmachine import BAD_UNITS, FAMILIES, LOOKS, UNITS

NAMES = [["A"], ["A", "B"], ["A", "C"], ["A", "B", "D"], ["A", "B", "E"], ["F"], ["F", "B"],
         ["A", "B", "D", "G"]]
REGIONS = [["World"], ["World"], ["World"], ["World", "R"], ["World", "R", "S"]]
# regions that are easily taken for each other
LIKE_REGIONS = [["World"], ["World", "R"], ["World", "R", "R"], ["World", "World"],
                ["World", "R", "S"], ["World", "S", "R"], ["World", "R", "S", "R"],
                ["World", "S"], ["World", "r"], ["World", "R "], ["World", "R", "S", "R", "S"],
                ["World", "R", "S", "T", "U", "V"]]
BAD_ROOTS = [["Mars"], ["R"], ["Mars", "World"], ["world"], [" World"], ["World "], ["WORLD"],
             ["Worl"], ["World2"], ["Worlds", "R"], ["w"], ["R", "World"]]
# parameter names that are easily taken for each other
ALPHABETS = [["A", "B"], ["A", "B", "C"], ["A", "a", "A "], ["A", "AA", "B"], ["A", "B", " B"]]
ROOTS = st.sampled_from(["World", "World", "World", "Mars", "world", "W"])
NUM = st.one_of(st.integers(-9, 9).map(float), st.floats(-1e4, 1e4, allow_nan=False).map(
    lambda v: v if abs(v) > 1e-100 else 0.0),
                st.sampled_from([0.5, -0.25, 1e-3, 12345.678]))
VALS = st.lists(NUM, min_size=1, max_size=6)
EXT = st.sampled_from(["none", "constant", "constant", "linear"])
HOWREAD = st.sampled_from(LOOKS)
LOOK = st.integers(0, len(LOOKS) - 1)
SPELL = st.sampled_from(["text", "tuple", "list"])
OBJECTS = st.one_of(st.none(), st.booleans(), st.text(max_size=3), st.integers(-5, 5),
                    st.lists(st.integers(0, 3), max_size=3),
                    st.dictionaries(st.text(max_size=2), st.integers(0, 3), max_size=2))


@st.composite
def grids(draw):
    """Grids that overlap so that most conversions are possible."""
    n = draw(st.integers(4, 6))
    step = draw(st.sampled_from([86400, 31 * 86400, 365 * 86400, 3600]))
    start = draw(tsgen.START)
    base = [start + i * step for i in range(n)]
    res = [base]
    for _ in range(draw(st.integers(0, 2))):
        kind = draw(st.sampled_from(["finer", "wider", "inner", "irregular", "same"]))
        if kind == "finer":
            k = draw(st.integers(2, 3))
            res.append([start + i * (step // k) for i in range((n - 1) * k + 1)])
        elif kind == "wider":
            res.append([start - step // 2 + i * step for i in range(n + 1)])
        elif kind == "inner":
            res.append([start + step // 4 + i * (step // 2) for i in range(2 * n - 4)])
        elif kind == "same":
            res.append(list(base))
        else:
            extra = draw(st.lists(st.integers(start + 1, base[-1] - 1), min_size=2, max_size=4))
            res.append(sorted(set([start, base[-1]] + extra + [start + step])))
    return [g for g in res if len(g) >= 4] or [base]


@st.composite
def paths(draw, lo, hi, depth, prefix_free=True, least=1):
    """Parameter names from a small alphabet."""
    abc = draw(st.sampled_from(ALPHABETS))
    res = draw(st.lists(st.lists(st.sampled_from(abc), min_size=least, max_size=depth),
                        min_size=lo, max_size=hi, unique_by=tuple))
    if prefix_free:
        res = [p for p in res
               if not any(q != p and q[:len(p)] == p for q in res)]
    return res


def some_regions(draw):
    """A few regions."""
    if draw(st.booleans()):
        return REGIONS
    return draw(st.lists(st.sampled_from(LIKE_REGIONS), min_size=1, max_size=4))


KINDS = ["scalar", "generic", "point", "average"]


@st.composite
def view(draw, kinds, names, regions=None, family=None, bad=0.0, sets=2):
    """An operation that creates a view."""
    fam = family or draw(st.sampled_from(FAMILIES))
    unit = draw(st.sampled_from(fam))
    name = draw(st.sampled_from(names))
    region = draw(st.sampled_from(regions or [["World"]]))
    kind = draw(st.sampled_from(kinds))
    option = None
    if bad and draw(st.integers(0, 99)) < 100 * bad:
        what = draw(st.sampled_from(["unit", "dim", "kind", "root", "noname", "noregion",
                                     "option"]))
        if what == "unit":
            unit = draw(st.sampled_from(BAD_UNITS))
        elif what == "dim":
            unit = draw(st.sampled_from(sorted(UNITS)))
        elif what == "kind":
            kind = draw(st.sampled_from(KINDS))
        elif what == "root":
            region = draw(st.sampled_from(BAD_ROOTS))
        elif what == "option":
            option = draw(st.sampled_from(
                [["timeseries_type", "mean"], ["timeseries_type", "scalar"],
                 ["timeseries_type", ""], ["interpolation", "cubic"],
                 ["interpolation", "none"], ["extrapolation", "cubic"],
                 ["extrapolation", "lin"], ["extrapolation", ""]]))
        elif what == "noname":
            name = []
        else:
            region = []
    how = draw(SPELL)
    if region == ["World"] and draw(st.integers(0, 5)) == 0:
        how = "default"
    if (not name or not region) and how == "text":
        how = "tuple"
    return ["view", draw(st.integers(0, sets - 1)), kind, name, region, unit,
            draw(st.integers(0, 5)), draw(EXT), how] + ([option] if option else [])


N = st.integers(0, 30)


def op(kind, draw):
    """One operation of the given kind (other than creating a view)."""
    if kind == "write":
        return ["write", draw(N), draw(VALS), draw(st.sampled_from(["float", "int", "list"]))]
    if kind == "gwrite":
        return ["write", draw(N), draw(OBJECTS)]
    if kind == "wrongsize":
        return ["wrongsize", draw(N), draw(st.integers(-4, 4))]
    if kind == "elem":
        return ["elem", draw(N), draw(N), draw(NUM),
                draw(st.sampled_from(["one", "one", "slice", "list", "neg", "mask", "iadd"]))]
    if kind == "helem":
        return ["helem", draw(N), draw(N), draw(NUM),
                draw(st.sampled_from(["one", "slice", "imul", "out"]))]
    if kind == "sub":
        return ["sub", draw(N)] + draw(st.one_of(
            st.tuples(st.sampled_from([None, 0, 1, 2, -2]), st.sampled_from([None, None, 3, -1]),
                      st.sampled_from([None, 1, 2, -1])),
            st.integers(0, 3).map(lambda k: (k, k + 1, None)),
            st.tuples(st.lists(st.integers(0, 3), min_size=1, max_size=3),
                      st.sampled_from(["list", "array", "mask", "number"]), st.none()),
        ).map(list))
    if kind == "read":
        return ["read", draw(N), draw(HOWREAD)]
    if kind == "hread":
        return ["hread", draw(N), draw(HOWREAD)]
    if kind == "from":
        return ["from", draw(N), draw(N)]
    if kind == "info":
        return ["info", draw(st.integers(0, 1)), draw(st.sampled_from(NAMES)),
                draw(st.sampled_from(REGIONS + LIKE_REGIONS + BAD_ROOTS + [["World", "X"]])),
                draw(SPELL)]
    return [kind, draw(N)]  # hold, lock, unlock


def weighted(draw, weights):
    """A key, chosen by weight."""
    return draw(st.sampled_from([k for k, w in weights.items() for _ in range(w)]))
