"""C30: series type guessing is total and follows the unit's time dimension."""
import re
import warnings

from hypothesis import strategies as st

from checks import c03
from vf import frames as fr, unitgen, unitmodel as um
from vf.core import Sub, require

from openscm.core.parameters import ParameterType
from openscm.core.units import UnitConverter
from openscm.scmdataframe.parameter_type import guess_parameter_type

POINT, AVERAGE = ParameterType.POINT_TIMESERIES, ParameterType.AVERAGE_TIMESERIES
RF = ["_RF", "_PEFFRF", "_EFFRF", "_SRF"]


def by_name(name):
    """Type by the documented patterns, or None if patterns of both types fit."""
    average = (name.startswith(("Emissions", "Radiative Forcing", "HEATUPTAKE_EBALANCE_TOTAL"))
               or any(x in name for x in RF + ["_EMIS", "_GWPEMIS", "Flux"]))
    point = (name.startswith(("Atmospheric Concentrations", "Surface Temperature"))
             or "_CONC" in name or "TEMP" in name)
    if average and point:
        return None
    return AVERAGE if average else POINT


def has_time(unit):
    """Whether the dimension of a unit expression includes time."""
    return um.dims(unit).get("time", 0) != 0


PIECES = ["Emissions", "Emissions|", "|Emissions", "_EMIS", "_GWPEMIS", "GWPEMIS", "Flux",
          "flux", "|Flux", "_RF", "_PEFFRF", "_EFFRF", "_SRF", "RF", "SRF", "Radiative Forcing",
          "radiative forcing", "|Radiative Forcing", "HEATUPTAKE_EBALANCE_TOTAL",
          "HEATUPTAKE_EBALANCE", "Atmospheric Concentrations", "_CONC", "CONC",
          "Surface Temperature", "TEMP", "Temp", "CO2", "|", "DAT_", "X", " ", "emissions",
          "EMIS", "_", "(a)", ".*", "é", "Ocean", "Heat Uptake", "1"]


@st.composite
def s_name(draw):
    return "".join(draw(st.lists(st.sampled_from(PIECES), min_size=0, max_size=4)))


def guess(name, unit):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return guess_parameter_type(name, unit)


def check_unit(case, rec):
    """Units that are understood decide."""
    text = um.text(case["unit"])
    want = AVERAGE if has_time(case["unit"]) else POINT
    got = guess(case["name"], text)
    rec.label(want.name)
    rec.nontrivial(by_name(case["name"]) not in (want, None))
    require(got == want, "type of %r in %r is %s, not %s", case["name"], text, got, want)


@st.composite
def s_unit(draw):
    kind = draw(st.integers(0, 6))
    if kind == 0:
        unit = draw(unitgen.OFFSETS)
    elif kind == 6:
        # names of one unit of time cancel, or not
        names = draw(st.sampled_from([["yr", "a", "year", "annum"], ["s", "second"],
                                      ["d", "day"], ["h", "hour"], ["min", "minute"]]))
        pair = draw(st.permutations(names))[:2]
        e = draw(st.sampled_from([1, 1, 1, 2]))
        parts = [[["", pair[0]], draw(st.sampled_from([1, 1, 2]))], [["", pair[1]], -e]]
        parts += draw(unitgen.plain(draw(st.sampled_from([["mass"], ["temp"], ["conc"]]))))["p"]
        unit = {"p": draw(st.permutations(parts)), "s": draw(unitgen.STYLES)}
    elif kind < 3:
        unit = draw(unitgen.emission(draw(unitgen.FAMILY)))
    elif kind == 3:
        unit = c03_unit(draw)
    else:
        unit = draw(unitgen.plain(draw(st.sampled_from(unitgen.SIGNATURES + [
            ["time", "pertime"], ["energy", "perarea"], ["length", "persquare", "time"],
            ["conc", "temp"], ["power", "time", "perarea"]]))))
    return {"unit": unit, "name": draw(s_name())}


def c03_unit(draw):
    form = draw(st.sampled_from(["mass", "flux"]))
    return c03.expr(form, draw(st.sampled_from(["CO2", "CH4", "SF6", "CF4"])),
                    draw(st.sampled_from(c03.MASSES)), draw(st.sampled_from(c03.TIMES)),
                    draw(st.booleans()))


# ------------------------------------------------------------------- not understood

BAD = ["parrots", "GtXYZ", "no unit at all", "Mt CO3 / yr", "$", "$/yr", "!", "%", "% / yr", "",
       None, "kg/", "/yr", "*", "**", "(", ")", "(kg", "kg)", "kg//yr", "kg ** ** 2", "[time]",
       "yr to kg", "'yr'", "\"", "#", "\\", "kg per nothing", "unknown/yr", "yr * unknown",
       "1 / 0", "kg / 0", "0 ** -1", "\0", "{}", "lambda: yr", "€", "日本 / yr", "yr = yr", "?",
       "W m-2 or so", "GtC per year of it", "-", "--", "ppm by volume", "10 20 30 nothings",
       "kg^", "kg^^2", "yr@", "yr parrots", "index (2005 = 1)"]


def check_name(case, rec):
    """Units that are not understood leave the decision to the name."""
    want = by_name(case["name"])
    if want is None:
        rec.label("ambiguous name")
        return
    rec.label(want.name)
    rec.nontrivial(want is AVERAGE)
    got = guess(case["name"], case["unit"])
    require(got == want, "type of %r in unknown unit %r is %s, not %s", case["name"],
            case["unit"], got, want)


@st.composite
def s_unknown(draw):
    # texts that no unit registry would understand
    if draw(st.integers(0, 2)):
        unit = draw(st.sampled_from([b for b in BAD if decided(b)]))
    else:
        word = "q" + draw(st.text(st.sampled_from("qxzjv"), min_size=3, max_size=8))
        unit = draw(st.sampled_from(["%s", "kg %s", "%s / yr", "yr * %s", "Mt %s / yr"])) % word
    return {"unit": unit, "name": draw(s_name())}


def decided(text):
    """Unknown without any doubt (not a question of how lenient a parser is)."""
    return text in ("parrots", "GtXYZ", "Mt CO3 / yr", "", None, "$", "$/yr", "unknown/yr",
                    "yr * unknown", "kg per nothing", "日本 / yr", "€", "(kg", "yr parrots",
                    "no unit at all", "GtC per year of it")


# ------------------------------------------------------------------------- any text


def harmless(text):
    """No towers of powers, which only take time to compute."""
    return len(re.findall(r"\*\*|\^|[⁰¹²³⁴⁵⁶⁷⁸⁹]", text)) < 2 and not re.search(r"\d{4}", text) \
        and not re.search(r"\d[eE]\d{2}", text)


def check_any(case, rec):
    """Any text gives an answer, and the answer has a reason."""
    name, unit = case["name"], case["unit"]
    got = guess(name, unit)
    require(got in (POINT, AVERAGE), "type is %s", got)
    require(guess(name, unit) == got, "another type the second time")
    rec.nontrivial(bool(unit))
    one, two = guess("Other", unit), guess("Emissions", unit)
    if one == two:
        # the unit decides (or the name should not have)
        require(got == one, "type of %r is %s, but of other names it is %s in %r", name, got, one,
                unit)
        rec.label("unit decides")
    else:
        require(one == POINT and two == AVERAGE, "names decide the wrong way round in %r", unit)
        want = by_name(name)
        if want is not None and "\n" not in name:
            require(got == want, "type of %r in %r is %s, not %s", name, unit, got, want)
        rec.label("name decides")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                UnitConverter(unit, "(%s)" % unit)
        except Exception:  # pylint: disable=broad-except
            return
        require(not unit, "%r is a unit for conversion, but not for guessing", unit)


TOKENS = ["kg", "Gt", "C", "CO2", "yr", "a", "s", "m", "W", "J", "K", "degC", "ppm", "/", "/",
          "*", "**", "^", " ", " ", "(", ")", "2", "-1", "10", "0", ".5", "1e3", "parrot", "%",
          "$", "_", "-", "+", ",", "²", "µ", "°", "[", "]", "'", "\"", "\\", ":", "=", "#", "per",
          "squared", "cubic", "nan", "inf", "None", "\n", "\t", "\0", "é", "//", "!"]


@st.composite
def s_any(draw):
    kind = draw(st.integers(0, 2))
    if kind == 0:
        unit = draw(st.text(max_size=12))
    else:
        unit = "".join(draw(st.lists(st.sampled_from(TOKENS), max_size=7)))
    name = draw(st.one_of(s_name(), st.text(max_size=10)))
    if not harmless(unit):
        unit = re.sub(r"[\d*^⁰¹²³⁴⁵⁶⁷⁸⁹]", "x", unit)
    return {"unit": unit, "name": name}


def check_use(case, rec):
    """Dataframes without a declared type follow the guess."""
    f = case["frame"]
    df = fr.build(f)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = df.interpolate([fr.to_dt(t) for t in f["times"]])
    for m in fr.meta_rows(res):
        want = guess(m["variable"], m["unit"])
        got = m["parameter_type"]
        require(got == ("average" if want is AVERAGE else "point"),
                "series %s in %s becomes %s", m["variable"], m["unit"], got)
        rec.label(got)
    rec.nontrivial()


@st.composite
def s_use(draw):
    f = draw(fr.frame(lo=1, hi=3, time_strategy=fr.times(3, 4, kinds=["years", "months"]),
                      words=["a", "b"], nan_values=False, extra=[]))
    for i, r in enumerate(f["rows"]):
        r["meta"]["variable"] = draw(s_name())
        r["meta"]["unit"] = draw(st.sampled_from([b for b in BAD if b] + fr.UNITS))
        r["meta"]["model"] = "m%d" % i
    return {"frame": f}


SUBS = [
    Sub("unit", check_unit, s_unit, quick=3000, thorough=60000,
        rule="units from the grammar of known units, with names that say something else; "
             "non-trivial if the name alone would give another answer"),
    Sub("name", check_name, s_unknown, quick=2000, thorough=30000,
        rule="unknown units with names from pieces of the patterns; non-trivial if a pattern "
             "fits"),
    Sub("any", check_any, s_any, quick=6000, thorough=200000,
        rule="arbitrary text as name and unit; non-trivial with a unit"),
    Sub("use", check_use, s_use, quick=300, thorough=2000,
        rule="interpolation without declared types; all non-trivial"),
]
ASSUMPTIONS = [
    "texts with towers of powers or giant numbers (which only take time) are left out",
    "names which fit patterns of both types are not judged",
]
