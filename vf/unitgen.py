"""Strategies for unit expressions (see unitmodel)."""
from hypothesis import strategies as st

from . import unitmodel as um

STYLES = st.integers(0, 4)

MASS_ATOMS = ["g", "t", "g", "t", "metric_ton", "tonne", "lb"]
TIME_ATOMS = ["yr", "a", "s", "h", "d", "day", "year", "min", "week", "month", "hour",
              "annum", "second", "minute", "century"]


@st.composite
def atom(draw, names):
    """A prefixed atom."""
    name = draw(st.sampled_from(names))
    return [draw(st.sampled_from(um.ATOMS[name][2])), name]


def species_of(family):
    """A spelling of a species of the family."""
    return st.sampled_from(um.FAMILIES[family])


FAMILY = st.one_of(
    st.sampled_from(um.BIG_FAMILIES), st.sampled_from(sorted(um.FAMILIES))
)


@st.composite
def emission(draw, family, mass=None, time=None, style=None):
    """An expression for an amount of a species of ``family``."""
    mass = draw(st.booleans()) if mass is None else mass
    time = draw(st.booleans()) if time is None else time
    parts = []
    sp = draw(species_of(family))
    if mass:
        if sp in um.JOINT and draw(st.booleans()):
            letter = draw(st.sampled_from("gt"))
            parts.append([[draw(st.sampled_from(um.ATOMS[letter][2])), letter, sp], 1])
        else:
            parts.append([draw(atom(MASS_ATOMS)), 1])
            parts.append([["", sp], 1])
            if draw(st.integers(0, 4)) == 0:
                parts.reverse()
    else:
        parts.append([["", sp], 1])
    if time:
        parts.append([draw(atom(TIME_ATOMS)), -1])
    return {"p": parts, "s": draw(STYLES) if style is None else style}


GROUPS = {
    "mass": (MASS_ATOMS, 1),
    "time": (TIME_ATOMS, 1),
    "pertime": (TIME_ATOMS, -1),
    "length": (["m"], 1),
    "energy": (["J", "cal"], 1),
    "power": (["W"], 1),
    "conc": (["ppt", "ppb", "ppm"], 1),
    "temp": (["K", "kelvin", "delta_degC", "delta_degF"], 1),
    "perarea": (["m"], -2),
    "permass": (MASS_ATOMS, -1),
    "perconc": (["ppt", "ppb", "ppm"], -1),
    "perpower": (["W"], -1),
    "persquare": (TIME_ATOMS, -2),
}

SIGNATURES = [
    ["mass"], ["mass", "pertime"], ["time"], ["energy"], ["energy", "pertime"], ["power"],
    ["power", "perarea"], ["conc"], ["conc", "pertime"], ["temp"], ["temp", "pertime"],
    ["length"], ["length", "persquare"], ["mass", "perarea"], ["pertime"],
]


@st.composite
def plain(draw, sig):
    """An expression with the given signature."""
    parts = []
    for g in sig:
        names, e = GROUPS[g]
        parts.append([draw(atom(names)), e])
    if len(parts) > 1 and draw(st.integers(0, 4)) == 0:
        parts.reverse()
    return {"p": parts, "s": draw(STYLES)}


EXTRA = [[], ["time", "pertime"], ["mass", "permass"], ["conc", "perconc"],
         ["energy", "perpower", "pertime"]]


def distinct(u):
    """
    No two spellings of the same unit: pint keeps only one of them (see known_findings.txt).
    """
    seen = {}
    for t, _ in u["p"]:
        if seen.setdefault(um.token_value(t)[0], t) != t:
            return False
    return True


OFFSETS = st.sampled_from(sorted(um.OFFSET) + ["K", "kelvin"]).map(
    lambda n: {"p": [[["", n], 1]], "s": 0}
)


def case_twin(u):
    """The expression with milli and mega exchanged, or None if there is none."""
    for i, (tok, e) in enumerate(u["p"]):
        other = {"m": "M", "M": "m"}.get(tok[0])
        if other and len(tok) > 1 and other in um.ATOMS.get(tok[1], ((), (), ()))[2]:
            return {"p": u["p"][:i] + [[[other] + list(tok[1:]), e]] + u["p"][i + 1:],
                    "s": u["s"]}
    return None


@st.composite
def compatible(draw, n):
    """``n`` expressions of the same dimension, some of them alike but for their case."""
    units = draw(similar(n))
    if n > 1 and draw(st.integers(0, 2)) == 0:
        twins = [(i, case_twin(u)) for i, u in enumerate(units)]
        twins = [(i, t) for i, t in twins if t and distinct(t)]
        if twins:
            i, twin = draw(st.sampled_from(twins))
            units[draw(st.sampled_from([j for j in range(n) if j != i]))] = twin
    return units


@st.composite
def similar(draw, n):
    """``n`` expressions of the same dimension."""
    kind = draw(st.sampled_from(["gas", "gas", "gas", "plain", "plain", "offset", "cross",
                                 "redundant"]))
    if kind == "gas":
        fam = draw(FAMILY)
        mass, time = draw(st.booleans()), draw(st.booleans())
        return [draw(emission(fam, mass, time)) for _ in range(n)]
    if kind == "offset":
        return [draw(OFFSETS) for _ in range(n)]
    if kind == "cross":
        # the same dimension expressed through different atoms
        res = []
        for _ in range(n):
            if draw(st.booleans()):
                res.append(draw(plain(["power"])))
            else:
                res.append(draw(plain(["energy", "pertime"])))
        return res
    sig = draw(st.sampled_from(SIGNATURES))
    if kind == "redundant":
        # factors which cancel, at least in their dimension
        return [draw(plain(sig + draw(st.sampled_from(EXTRA))).filter(distinct))
                for _ in range(n)]
    return [draw(plain(sig)) for _ in range(n)]


VALUES = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 2.0, 1e-12, 1e12, -3.5e7, 300.0]),
    st.floats(-1e9, 1e9, allow_nan=False).map(lambda v: v if abs(v) > 1e-100 else 0.0),
    st.integers(-1000, 1000),
)
