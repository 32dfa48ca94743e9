"""C28: dataframes and parameter sets convert into each other without loss."""
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import c23
from vf import cal, frames as fr, tsmodel
from vf.core import Sub, require
from vf.tscheck import PTYPE

from openscm.core.parameters import ParameterType
from openscm.core.parameterset import ParameterSet
from openscm.errors import ParameterEmptyError
from openscm.scmdataframe import convert_openscm_to_scmdataframe

REL = 1e-9
REGIONS = ["World", "World", "World|A", "World|A|B", "World|A|B|C", "World|D", "World|A|E",
           "World|A|A", "World|World"]
# leaves only: no name is the parent of another one
NAMES = ["Emissions|CO2|Energy", "Emissions|CO2|Land", "Emissions|CH4", "Surface Temperature",
         "Heat", "x|y|z|w", "Radiative Forcing|CO2", "X_CONC", "Flow|In|Flow", "Flow|In|In",
         "y|y|x"]
UNITS = {"K": "point", "mK": "point", "GtC/yr": "average", "W/m^2": "average", "kg": "point",
         "Mt CO2 / yr": "average", "ppm": "point"}
# units to read in: (unit, factor)
OTHER = {"K": ("mK", 1e3), "mK": ("K", 1e-3), "GtC/yr": ("MtC/yr", 1e3), "kg": ("g", 1e3),
         "W/m^2": ("kW/m^2", 1e-3), "Mt CO2 / yr": ("MtC/yr", 12 / 44), "ppm": ("ppb", 1e3)}
GENERIC = {"note": "text", "run": "number", "ensemble": "number", "comment": "text"}
SCALARS = ["ecs (K)", "heat (J/m^2)", "rate (1/yr)", "rapid|ecs (mK)", "Lag Time (yr)",
           "feedback (W/(m^2*K))", "a (b) c (kg)", "f(x)|g (W (m^-2))"]
SCALAR_OTHER = {"K": ("mK", 1e3), "J/m^2": ("kJ/m^2", 1e-3), "1/yr": ("1/century", 100.0),
                "mK": ("K", 1e-3), "yr": ("month", 12.0), "kg": ("g", 1e3),
                "W/(m^2*K)": ("mW/m^2/K", 1e3), "W (m^-2)": ("kW/m^2", 1e-3)}


@st.composite
def s_times(draw):
    ts = draw(fr.times(3, 6, kinds=["years", "months", "days", "any", "far", "decades"]))
    return ts


def edges(ptype, times):
    return times + [2 * times[-1] - times[-2]] if ptype == "average" else list(times)


def fits(times):
    return 2 * times[-1] - times[-2] < cal.seconds(9999)


@st.composite
def s_series(draw, n, times, lo=1):
    """Rows with their own regions and names."""
    rows, seen = [], set()
    for _ in range(draw(st.integers(lo, n))):
        where = draw(st.sampled_from(REGIONS)), draw(st.sampled_from(NAMES))
        if where in seen:
            continue
        seen.add(where)
        rows.append({"region": where[0], "variable": where[1],
                     "unit": draw(st.sampled_from(sorted(UNITS))),
                     "type": draw(st.sampled_from(["point", "average"])),
                     "values": draw(st.lists(fr.VALUE, min_size=len(times),
                                             max_size=len(times)))})
    return rows


@st.composite
def s_case(draw):
    times = draw(s_times().filter(fits))
    rows = draw(s_series(5, times))
    generic = {k: (draw(st.sampled_from(["a", "x y", "é|b", "", "1"])) if t == "text" else draw(
        st.sampled_from([0, 1, -3, 2.5, 1e6])))
        for k, t in GENERIC.items() if draw(st.integers(0, 2)) == 0}
    scalars = {k: draw(st.sampled_from([0.0, 1.0, 3.3, -2.5e6, 4, 1e-3]))
               for k in SCALARS if draw(st.integers(0, 2)) == 0}
    return {"times": times, "rows": rows, "generic": generic, "scalars": scalars,
            "model": draw(st.sampled_from(["m", "a model", "unspecified"])),
            "scenario": draw(st.sampled_from(["s", "rcp26", "ß"])),
            "climate": draw(st.sampled_from([None, None, "unspecified"])),
            "declared": draw(st.sampled_from(["all", "all", "none", "some"])),
            "order": draw(st.permutations(list(range(len(rows))))),
            "prior": draw(st.booleans()), "given": draw(st.sampled_from([0, 0, 1, 2]))}


def record_frame(case):
    rows = []
    cols = sorted(case["generic"]) + sorted(case["scalars"])
    if case["declared"] != "none":
        cols = cols + ["parameter_type"]
    if case["climate"]:
        cols = cols + ["climate_model"]
    for n, i in enumerate(case["order"]):
        r = case["rows"][i]
        meta = {"model": case["model"], "scenario": case["scenario"], "region": r["region"],
                "variable": r["variable"], "unit": r["unit"]}
        meta.update(case["generic"])
        meta.update(case["scalars"])
        if case["climate"]:
            meta["climate_model"] = case["climate"]
        if case["declared"] == "all" or (case["declared"] == "some" and n % 2):
            meta["parameter_type"] = r["type"] if n % 3 else r["type"].upper()
        rows.append({"meta": meta, "values": r["values"]})
    return {"times": case["times"], "cols": cols, "rows": rows}


def kind(r, meta):
    """Type of a row."""
    p = meta.get("parameter_type")
    return UNITS[r["unit"]] if p is None else p.lower()


def at(times):
    return np.array(times).astype("datetime64[s]")


def close(got, want, scale):
    return np.shape(got) == np.shape(want) and bool(np.all(
        np.abs(np.asarray(got) - np.asarray(want)) <= REL * scale + 1e-300))


def read(ps, r, ptype, times, unit=None):
    """Values of a series of a parameter set."""
    return np.array(ps.timeseries(
        tuple(r["variable"].split("|")), unit or r["unit"], at(edges(ptype, times)),
        region=tuple(r["region"].split("|")), timeseries_type=ptype).values)


def scalar_parts(col):
    unit = max((u for u in SCALAR_OTHER if col.endswith(" (%s)" % u)), key=len)
    return col[:-len(unit) - 3], unit


def judge_set(ps, case, f, what):
    """The parameter set holds the series and metadata."""
    metas = {(r["meta"]["region"], r["meta"]["variable"]): r["meta"] for r in f["rows"]}
    for r in case["rows"]:
        meta = metas.get((r["region"], r["variable"]))
        if meta is None:
            continue
        ptype = kind(r, meta)
        info = ps.info(r["variable"], r["region"])
        require(info is not None, "%s: no parameter %s in %s", what, r["variable"], r["region"])
        require(info.parameter_type == PTYPE[ptype], "%s: %s is of type %s, not %s", what,
                r["variable"], info.parameter_type, ptype)
        require(info.unit == r["unit"], "%s: %s is in %s, not %s", what, r["variable"],
                info.unit, r["unit"])
        got = read(ps, r, ptype, case["times"])
        scale = max(map(abs, r["values"]))
        require(close(got, r["values"], scale), "%s: %s in %s is %s, not %s", what,
                r["variable"], r["region"], got, r["values"])
        unit, factor = OTHER[r["unit"]]
        got = read(ps, r, ptype, case["times"], unit)
        require(close(got, np.array(r["values"]) * factor, scale * factor),
                "%s: %s in %s is %s", what, r["variable"], unit, got)
    for (region, name) in [(a, b) for a in sorted(set(REGIONS)) for b in NAMES]:
        if (region, name) not in metas:
            require(ps.info(name, region) is None, "%s: there is %s in %s", what, name, region)
    for k, v in list(case["generic"].items()) + [("model", case["model"]),
                                                 ("scenario", case["scenario"])]:
        got = ps.generic(k).value
        require(fr.canon(got) == fr.canon(v), "%s: %s is %r, not %r", what, k, got, v)
        require(isinstance(got, str) == isinstance(v, str), "%s: %s is %r", what, k, got)
    for k, v in case["scalars"].items():
        name, unit = scalar_parts(k)
        require(ps.info(name).parameter_type == ParameterType.SCALAR, "%s: %s", what, name)
        got = ps.scalar(name, unit).value
        require(close(got, v, abs(v)), "%s: %s is %r, not %r", what, k, got, v)
        other, factor = SCALAR_OTHER[unit]
        got = ps.scalar(name, other).value
        require(close(got, v * factor, abs(v) * factor), "%s: %s in %s is %r", what, k, other,
                got)
    if not case["climate"]:
        require(ps.info("climate_model") is None, "%s: there is a climate model", what)


def own_set(case):
    """A parameter set which already has something in it."""
    ps = ParameterSet()
    ps.generic("kept|a").value = "before"
    ps.scalar("other", "kg").value = 5.0
    ps.timeseries("Own|x", "kg", at(case["times"]), region=("World", "A"),
                  timeseries_type="point").values = np.arange(len(case["times"])) + 1.0
    return ps


def judge_own(ps, case):
    require(ps.generic("kept|a").value == "before" and ps.scalar("other", "kg").value == 5.0,
            "other parameters of the set change")
    got = ps.timeseries("Own|x", "kg", at(case["times"]), region=("World", "A"),
                        timeseries_type="point").values
    require(list(got) == [i + 1.0 for i in range(len(case["times"]))],
            "other timeseries of the set change")


def check_there(case, rec):
    """Dataframe to parameter set and back."""
    f = record_frame(case)
    df = fr.build(f)
    if case["prior"] and len(f["rows"]) > 1:
        gone = f["rows"].pop(0)["meta"]
        df = df.filter(keep=False, region=gone["region"], variable=gone["variable"])
    before = fr.snapshot(df)
    rec.nontrivial(len(f["rows"]) > 1)
    rec.label("%s types" % case["declared"])
    given = own_set(case) if case["given"] else None
    if case["given"] == 2:
        # what is there already is replaced
        r = f["rows"][-1]
        m = r["meta"]
        given.generic("model").value = "replaced"
        row = [x for x in case["rows"] if (x["region"], x["variable"]) == (
            m["region"], m["variable"])][0]
        ptype = kind(row, m)
        given.timeseries(m["variable"], m["unit"], at(edges(ptype, case["times"])),
                         region=tuple(m["region"].split("|")),
                         timeseries_type=ptype).values = [9.0] * len(case["times"])
        rec.label("replaces")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ps = df.to_parameterset() if given is None else df.to_parameterset(given)
    require(given is None or ps is given, "another parameter set is returned")
    require(fr.snapshot(df) == before, "to_parameterset modifies the dataframe")
    if given is not None:
        judge_own(given, case)
    judge_set(ps, case, f, "parameter set")
    if given is not None:
        return
    back = convert_openscm_to_scmdataframe(
        ps, at(case["times"]) if case["prior"] else df.time_points)
    got, secs = fr.observe(back)
    require(secs == case["times"], "times are %s", secs)
    want = {}
    for r in f["rows"]:
        m = dict(r["meta"])
        row = [x for x in case["rows"] if (x["region"], x["variable"]) == (
            m["region"], m["variable"])][0]
        m["parameter_type"] = kind(row, m)
        m.setdefault("climate_model", "unspecified")
        want[fr.key(m)] = dict(zip(case["times"], map(float, r["values"])))
    scale = max([abs(v) for r in case["rows"] for v in r["values"]] + [1e-300])
    fr.compare(got, want, "back from the parameter set", rel=REL, scale=scale)
    judge_set(ps, case, f, "parameter set after converting it")
    # and there again
    judge_set(back.to_parameterset(), dict(case, climate="unspecified"), {
        "rows": [{"meta": dict(m)} for m in ({k: v for k, v in zip(
            ["region", "variable", "parameter_type"],
            [dict(k)["region"], dict(k)["variable"], dict(k)["parameter_type"]])}
            for k in want)]}, "second parameter set")


# ------------------------------------------------------------------ from parameter sets


@st.composite
def s_set(draw):
    # series on grids of their own, all covering the target times
    targets = draw(s_times().filter(fits))
    rows = []
    for r in draw(s_series(6, [0])):
        own = draw(st.sampled_from(["same", "same", "finer", "wider"]))
        lo, hi = targets[0], 2 * targets[-1] - targets[-2]
        if own == "same":
            ts = edges(r["type"], targets)
        elif own == "finer":
            mid = [(a + b) // 2 for a, b in zip(targets, targets[1:])]
            ts = sorted(set(targets + mid + [hi]))
        else:
            ts = sorted({lo, lo + (hi - lo) // 3, lo + (hi - lo) // 2, hi,
                         lo + 2 * ((hi - lo) // 3)})
        n = len(ts) - (r["type"] == "average")
        r["times"] = ts
        r["values"] = draw(st.lists(fr.VALUE, min_size=n, max_size=n))
        rows.append(r)
    generic = {k: draw(st.sampled_from(["a", 1, 2.5, "é"])) for k in
               ["note", "run", "a|b", "a|c", "model", "scenario", "climate_model"]
               if draw(st.integers(0, 3)) == 0}
    for k in ("model", "scenario", "climate_model"):
        if k in generic:
            generic[k] = "own %s" % k
    scalars = {k: draw(st.sampled_from([0.0, 1.0, 3.3, -2.5e6, 1e-3]))
               for k in SCALARS if draw(st.integers(0, 2)) == 0}
    return {"targets": targets, "rows": rows, "generic": generic, "scalars": scalars,
            "args": draw(st.sampled_from([{}, {"model": "given", "scenario": "other"},
                                          {"climate_model": "cm"}])),
            "bad": draw(st.sampled_from([None] * 7 + ["generic", "scalar"])),
            "empty": draw(st.sampled_from([None] * 7 + ["generic", "scalar", "series"])),
            "parents": draw(st.sampled_from(["", "", "view", "read"])),
            "how": draw(st.sampled_from(["numpy", "numpy", "days", "ns", "numpy list"]))}


def parents(rows):
    """Sums in one region whose parts are of one type and in comparable units."""
    sums = {}
    for r in rows:
        names = tuple(r["variable"].split("|"))
        for n in range(1, len(names)):
            sums.setdefault((names[:n], tuple(r["region"].split("|"))), []).append(r)
    res = []
    for (names, region), parts in sorted(sums.items()):
        if len({r["type"] for r in parts}) == 1 and len({r["unit"] for r in parts}) == 1:
            res.append((names, region, parts[0]["unit"], parts[0]["type"]))
    return res


def check_set(case, rec):
    """Any parameter set to a dataframe."""
    ps = ParameterSet()
    targets = case["targets"]
    want, tol = {}, {}
    base = {"model": "unspecified", "scenario": "unspecified", "climate_model": "unspecified"}
    base.update(case["args"])
    base.update(case["generic"])
    base.update(case["scalars"])
    for r in case["rows"]:
        ps.timeseries(tuple(r["variable"].split("|")), r["unit"], at(r["times"]),
                      region=tuple(r["region"].split("|")),
                      timeseries_type=r["type"]).values = r["values"]
        dst = edges(r["type"], targets)
        vals = r["values"]
        if r["times"] != dst:
            vals = tsmodel.convert(r["type"], r["times"], r["values"], dst, "none")
        mag = tsmodel.magnitude(r["type"], r["times"], r["values"], dst, "none")
        m = dict(base, region=r["region"], variable=r["variable"], unit=r["unit"],
                 parameter_type=r["type"])
        want[fr.key(m)] = ([float(v) for v in vals], REL * mag + 1e-300)
    for k, v in case["generic"].items():
        ps.generic(k).value = v
    for k, v in case["scalars"].items():
        ps.scalar(*scalar_parts(k)).value = v
    look = case.get("parents", "")
    for names, region, unit, ptype in parents(case["rows"]) if look else []:
        # looking at a sum does not make it a series of its own
        view = ps.timeseries(names, unit, at(edges(ptype, targets)), region=region,
                             timeseries_type=ptype)
        if look == "read":
            view.values  # pylint: disable=pointless-statement
        rec.label("sum looked at")
    if case["bad"] == "generic":
        ps.generic("elsewhere", region=("World", "A")).value = "x"
    elif case["bad"] == "scalar":
        ps.scalar("elsewhere", "K", region=("World", "A", "B")).value = 1.0
    empty = case.get("empty")
    if empty == "generic":
        ps.generic("unwritten")
    elif empty == "scalar":
        ps.scalar("unwritten", "K")
    elif empty == "series":
        ps.timeseries("unwritten", "K", at(targets), timeseries_type="point")
    how = case["how"] if c23.possible(targets, case["how"]) else "numpy"
    arg = c23.target_argument(targets, how)
    kept = repr(arg)
    rec.label("refused" if case["bad"] else "converted")
    rec.nontrivial(len(want) > 1)
    try:
        df = convert_openscm_to_scmdataframe(ps, arg, **case["args"])
    except ParameterEmptyError:
        # what has no value cannot be converted, unless it is left out
        require(empty, "conversion finds an empty parameter")
        rec.label("empty %s" % empty)
        return
    except ValueError:
        require(case["bad"], "conversion fails")
        return
    require(not case["bad"], "a %s in another region is accepted", case["bad"])
    require(repr(arg) == kept, "conversion modifies the time points")
    got, secs = fr.observe(df)
    require(secs == targets, "times are %s, not %s", secs, targets)
    require(set(got) == set(want), "unexpected series %s, missing series %s",
            [k for k in got if k not in want][:2], [k for k in want if k not in got][:2])
    for k, (vals, t) in want.items():
        for s, v in zip(targets, vals):
            require(abs(got[k][s] - v) <= t, "%s at %s is %r, not %r", k, cal.iso(s),
                    got[k][s], v)
    # the parameter set can still be read and written
    for r in case["rows"]:
        view = ps.timeseries(tuple(r["variable"].split("|")), r["unit"], at(r["times"]),
                             region=tuple(r["region"].split("|")), timeseries_type=r["type"])
        require(close(view.values, r["values"], max(map(abs, r["values"]))),
                "conversion changes %s", r["variable"])
        view.values = np.array(r["values"]) + 1
    fr.compare(fr.observe(df)[0], got, "dataframe after writing to the parameter set")


# --------------------------------------------------------------------------- refusals


def check_refuse(case, rec):
    """Refusals leave a given parameter set alone."""
    base = dict(case["base"])
    f = record_frame(base)
    kind_ = case["kind"]
    rec.label(kind_)
    rec.nontrivial()
    n = len(f["rows"])
    if kind_ == "climate model":
        f["cols"] = sorted(set(f["cols"]) | {"climate_model"})
        for r in f["rows"]:
            r["meta"]["climate_model"] = "MAGICC7"
    elif n < 2 or kind_ == "climate models":
        f["cols"] = sorted(set(f["cols"]) | {"climate_model"})
        for i, r in enumerate(f["rows"]):
            r["meta"]["climate_model"] = "unspecified" if i else "MAGICC7"
    else:
        c = {"scenario": "scenario", "model": "model", "note": "note", "scalar": "ecs (K)",
             "missing note": "note"}[kind_]
        if c not in f["cols"] + fr.REQUIRED:
            f["cols"] = sorted(f["cols"] + [c])
        for i, r in enumerate(f["rows"]):
            last = i == case["odd"] % n
            r["meta"][c] = (2.5 if last else 3.5) if kind_ == "scalar" else (
                "odd" if last else None if kind_ == "missing note" else "even")
    df = fr.build(f)
    ps = own_set(base)
    before = fr.snapshot(df)
    names = [(x, r) for x in NAMES + ["model", "scenario", "note", "run", "climate_model",
                                      "ecs", "comment", "ensemble"] for r in set(REGIONS)]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            df.to_parameterset(ps)
    except ValueError:
        require(fr.snapshot(df) == before, "refusal modifies the dataframe")
        for x, r in names:
            require(ps.info(x, r) is None, "refused dataframe (%s) leaves %s in %s", kind_, x, r)
        judge_own(ps, base)
        return
    require(False, "dataframe is accepted (%s)", kind_)


@st.composite
def s_refuse(draw):
    return {"base": draw(s_case()), "odd": draw(st.integers(0, 4)),
            "kind": draw(st.sampled_from(["climate model", "climate models", "scenario", "model",
                                          "note", "scalar", "missing note"]))}


SUBS = [
    Sub("there", check_there, s_case, quick=900, thorough=15000,
        rule="dataframes with regions and names at several depths, declared and guessed types, "
             "to parameter sets (new and given), back and there again; non-trivial with "
             "several series"),
    Sub("set", check_set, s_set, quick=700, thorough=12000,
        rule="parameter sets with series on grids of their own; non-trivial with several "
             "series"),
    Sub("refuse", check_refuse, s_refuse, quick=150, thorough=4000,
        rule="dataframes which are not one input scenario; all non-trivial"),
]
ASSUMPTIONS = [
    "no variable is the parent of another one, and no two series share region and variable",
    "at least three times, no missing values",
    "converting back adds the columns climate_model and parameter_type",
]
