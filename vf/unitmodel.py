"""
An independent model of the supported units.

A unit expression is plain data: ``{"p": [[token, exponent], ...], "s": style}`` where a
token is ``[prefix, atom]`` or, for a joint unit, ``[prefix, "g"|"t", species]``.  The
model knows the factor (an exact fraction) and the dimension of every token from the
tables below, which are the published values and were written down independently of the
code under test; it never parses unit text and never asks the code under test.
"""
from fractions import Fraction as F

PREFIX = {
    "": F(1), "f": F(1, 10**15), "p": F(1, 10**12), "n": F(1, 10**9), "u": F(1, 10**6),
    "m": F(1, 1000), "c": F(1, 100), "h": F(100), "k": F(1000), "M": F(10**6),
    "G": F(10**9), "T": F(10**12), "P": F(10**15), "E": F(10**18),
}

# derived species: symbol -> (factor, base)
DERIVED = {
    "CO2": (F(12, 44), "C"),
    "N2O": (F(14, 44), "N"),
    "N2ON": (F(14, 28), "N"),
    "nox": (F(1), "NOx"),
    "NH3": (F(14, 17), "N"),
    "SO2": (F(32, 64), "S"),
    "SOx": (F(32, 64), "S"),
    "NMVOC": (F(1), "VOC"),
    "HFC4310": (F(1), "HFC4310mee"),
}
BASE = (
    "C CH4 N NOx S BC OC CO VOC "
    "CFC11 CFC12 CFC13 CFC113 CFC114 CFC115 "
    "HCFC21 HCFC22 HCFC123 HCFC124 HCFC141b HCFC142b HCFC225ca HCFC225cb "
    "HFC23 HFC32 HFC41 HFC125 HFC134 HFC134a HFC143 HFC143a HFC152 HFC152a HFC161 "
    "HFC227ea HFC236cb HFC236ea HFC236fa HFC245ca HFC245fa HFC365mfc HFC4310mee "
    "Halon1201 Halon1202 Halon1211 Halon1301 Halon2402 "
    "CF4 C2F6 cC3F6 C3F8 cC4F8 C4F10 C5F12 C6F14 C7F16 C8F18 C10F18 "
    "HFE125 HFE134 HFE143a HCFE235da2 HFE245cb2 HFE245fa2 HFE347mcc3 HFE347pcf2 "
    "HFE356pcc3 HFE449sl HFE569sf2 HFE4310pccc124 HFE236ca12 HFE338pcc13 HFE227ea "
    "HFE236ea2 HFE236fa HFE245fa1 HFE263fb2 HFE329mcc2 HFE338mcf2 HFE347mcf2 "
    "HFE356mec3 HFE356pcf2 HFE356pcf3 HFE365mcf3 HFE374pc2 "
    "PFPMIE CCl4 CHCl3 CH2Cl2 CH3CCl3 CH3Cl CH3Br SF5CF3 SF6 NF3"
).split()
# further names (only usable as bare units): name -> symbol
ALIASES = {
    "carbon": "C", "carbon_dioxide": "CO2", "methane": "CH4", "nitrogen": "N",
    "nitrous_oxide": "N2O", "nitrous_oxide_farming_style": "N2ON", "ammonia": "NH3",
    "sulfur": "S", "sulfur_dioxide": "SO2", "black_carbon": "BC",
    "carbon_monoxide": "CO", "non_methane_volatile_organic_compounds": "NMVOC",
}

SPECIES = {}  # spelling -> (factor, base)
JOINT = []  # spellings usable in joint units
for _s in BASE:
    SPECIES[_s] = (F(1), _s)
for _s, _v in DERIVED.items():
    SPECIES[_s] = _v
for _s in list(SPECIES):
    JOINT.append(_s)
    if _s.upper() != _s:
        JOINT.append(_s.upper())
        SPECIES.setdefault(_s.upper(), SPECIES[_s])
JOINT = sorted(set(JOINT))
SYMBOLS = BASE + list(DERIVED)
for _a, _s in ALIASES.items():
    SPECIES[_a] = SPECIES[_s]

FAMILIES = {}  # base -> spellings
for _s, (_f, _b) in SPECIES.items():
    FAMILIES.setdefault(_b, []).append(_s)
FAMILIES = {b: sorted(v) for b, v in FAMILIES.items()}
BIG_FAMILIES = sorted(b for b, v in FAMILIES.items() if len(v) > 2)

YEAR = F(31557600)  # a Julian year, 365.25 days, in seconds
# atoms: name -> (factor, dimension, prefixes it is safe to combine with)
ATOMS = {
    "g": (F(1, 1000), {"mass": 1}, ["", "n", "u", "m", "k", "M", "G", "T", "P", "E"]),
    "t": (F(1000), {"mass": 1}, ["", "k", "M", "G", "P", "E"]),
    "metric_ton": (F(1000), {"mass": 1}, [""]),
    "tonne": (F(1000), {"mass": 1}, [""]),
    "lb": (F(45359237, 100000000), {"mass": 1}, [""]),
    "s": (F(1), {"time": 1}, ["", "n", "u", "m", "k"]),
    "second": (F(1), {"time": 1}, [""]),
    "min": (F(60), {"time": 1}, [""]),
    "minute": (F(60), {"time": 1}, [""]),
    "h": (F(3600), {"time": 1}, [""]),
    "hour": (F(3600), {"time": 1}, [""]),
    "d": (F(86400), {"time": 1}, [""]),
    "day": (F(86400), {"time": 1}, [""]),
    "week": (F(7 * 86400), {"time": 1}, [""]),
    "month": (YEAR / 12, {"time": 1}, [""]),
    "yr": (YEAR, {"time": 1}, ["", "k", "M", "G"]),
    "year": (YEAR, {"time": 1}, [""]),
    "a": (YEAR, {"time": 1}, ["", "k", "M", "G"]),
    "annum": (YEAR, {"time": 1}, [""]),
    "century": (100 * YEAR, {"time": 1}, [""]),
    "m": (F(1), {"length": 1}, ["", "n", "u", "m", "c", "k", "M"]),
    "J": (F(1), {"mass": 1, "length": 2, "time": -2}, ["", "m", "k", "M", "G", "T", "P", "E"]),
    "cal": (F(4184, 1000), {"mass": 1, "length": 2, "time": -2}, ["", "k"]),
    "W": (F(1), {"mass": 1, "length": 2, "time": -3}, ["", "m", "k", "M", "G", "T"]),
    "ppt": (F(1), {"conc": 1}, [""]),
    "ppb": (F(1000), {"conc": 1}, [""]),
    "ppm": (F(10**6), {"conc": 1}, [""]),
    "K": (F(1), {"temp": 1}, ["", "m", "k"]),
    "kelvin": (F(1), {"temp": 1}, [""]),
    "delta_degC": (F(1), {"temp": 1}, [""]),
    "delta_degF": (F(5, 9), {"temp": 1}, [""]),
    "dimensionless": (F(1), {}, [""]),
}
# units with an offset, only meaningful alone: value in K = (v + shift) * factor
OFFSET = {
    "degC": (F(1), F(27315, 100)),
    "celsius": (F(1), F(27315, 100)),
    "degreeC": (F(1), F(27315, 100)),
    "degF": (F(5, 9), F(45967, 100)),
    "fahrenheit": (F(5, 9), F(45967, 100)),
    "degreeF": (F(5, 9), F(45967, 100)),
}


def token_text(tok):
    """Text of a token."""
    return "".join(tok)


def token_value(tok):
    """(factor, dimension) of a token."""
    if len(tok) == 3:
        f, base = SPECIES[tok[2]]
        fm, dm, _ = ATOMS[tok[1]]
        return PREFIX[tok[0]] * fm * f, {"mass": 1, "[%s]" % base: 1}
    p, atom = tok
    if atom in SPECIES:
        f, base = SPECIES[atom]
        return PREFIX[p] * f, {"[%s]" % base: 1}
    if atom in OFFSET:
        return OFFSET[atom][0], {"temp": 1}
    f, dim, _ = ATOMS[atom]
    return PREFIX[p] * f, dim


def text(u):
    """Unit text of an expression in its style."""
    style = u["s"]
    num = [(token_text(t), e) for t, e in u["p"] if e > 0]
    den = [(token_text(t), -e) for t, e in u["p"] if e < 0]

    def power(name, e):
        if e == 1:
            return name
        return {0: "%s^%d", 1: "%s**%d", 2: "%s ** %d", 3: "%s^%d", 4: "%s**%d"}[style] % (
            name, e,
        )

    if not num and not den:
        return "dimensionless"
    if style in (0, 1, 2):
        join, over = {0: (" ", " / "), 1: (" * ", "/"), 2: ("*", " / ")}[style]
        res = join.join(power(n, e) for n, e in num) or "1"
        for n, e in den:
            res += over + power(n, e)
        if res.startswith("1"):
            return " * ".join(power(n, -e) for n, e in den)
        return res
    sep = {3: " ", 4: " * "}[style]
    return sep.join([power(n, e) for n, e in num] + [power(n, -e) for n, e in den])


def factor(u):
    """Exact factor to base units."""
    res = F(1)
    for t, e in u["p"]:
        res *= token_value(t)[0] ** e
    return res


def dims(u):
    """Dimension of an expression."""
    res = {}
    for t, e in u["p"]:
        for k, v in token_value(t)[1].items():
            res[k] = res.get(k, 0) + v * e
    return {k: v for k, v in res.items() if v}


def is_offset(u):
    """Whether the expression is a temperature scale with an offset."""
    return len(u["p"]) == 1 and u["p"][0][0][-1] in OFFSET


def affine(src, dst):
    """(scale, offset) such that value_dst = offset + scale * value_src, exactly."""
    fs, ss = (OFFSET[src["p"][0][0][-1]]) if is_offset(src) else (factor(src), F(0))
    fd, sd = (OFFSET[dst["p"][0][0][-1]]) if is_offset(dst) else (factor(dst), F(0))
    # K = (v + ss) * fs ; v' = K / fd - sd
    return fs / fd, ss * fs / fd - sd


def simple(*toks, **kw):
    """Expression from ``(prefix, atom, exponent)`` triples."""
    return {"p": [[list(t[:-1]), t[-1]] for t in toks], "s": kw.get("s", 0)}
