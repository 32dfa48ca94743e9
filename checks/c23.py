"""C23: dataframe interpolation equals converting each series on its own."""
import datetime

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf import cal, framemodel as fm, frames as fr, tsgen, tsmodel
from vf.core import Sub, require
from vf.tscheck import ETYPE

from openscm.core.time import InterpolationType, TimePoints, TimeseriesConverter
from openscm.errors import InsufficientDataError

REL = 1e-9
# (variable, unit, type which is guessed)
SERIES = [
    ("Emissions|CO2", "GtC/yr", "average"), ("Emissions|CO2", "GtC", "point"),
    ("Surface Temperature", "K", "point"), ("Surface Temperature", "K/yr", "average"),
    ("Atmospheric Concentrations|CO2", "ppm", "point"), ("Radiative Forcing", "W/m^2", "average"),
    ("Emissions|X", "parrots", "average"), ("Something", "parrots", "point"),
    ("X_GWPEMIS", "no unit at all", "average"), ("X_CONC", "$/%", "point"),
    ("Heat Flux", "!", "average"), ("Other", "", "point"), ("Emissions|Y", "", "average"),
]
NAMES = ["note", "ensemble", "weight", "flag", "mixed"]


def target_argument(targets, how):
    """Target times in one of the representations."""
    if how == "years":
        return [cal.fields(t)[0] for t in targets]
    if how == "year array":
        return np.array([cal.fields(t)[0] for t in targets])
    if how == "datetimes":
        return [fr.to_dt(t) for t in targets]
    if how == "object array":
        return np.array([fr.to_dt(t) for t in targets], dtype=object)
    if how == "numpy list":
        return [np.datetime64(t, "s") for t in targets]
    if how == "days":
        return np.array(targets).astype("datetime64[s]").astype("datetime64[D]")
    if how == "ns":
        return np.array(targets).astype("datetime64[s]").astype("datetime64[ns]")
    if how == "stamps":
        return [pd.Timestamp(fr.to_dt(t)) for t in targets]
    if how == "text":
        return [cal.iso(t) for t in targets]
    assert how == "numpy"
    return np.array(targets).astype("datetime64[s]")


HOWS = ["numpy", "datetimes", "years", "year array", "object array", "numpy list", "days", "ns",
        "stamps", "text"]


def possible(targets, how):
    """Whether the representation can express the times."""
    f = [cal.fields(t) for t in targets]
    if how in ("years", "year array"):
        return all(x[1:6] == (1, 1, 0, 0, 0) for x in f)
    if how == "days":
        return all(t % cal.DAY == 0 for t in targets)
    if how in ("ns", "stamps"):
        return all(1700 < x[0] < 2250 for x in f)
    return True


def build(case):
    """The frame of a case as a record frame."""
    rows = []
    for i, r in enumerate(case["rows"]):
        variable, unit, _ = SERIES[r["series"]]
        meta = {"model": "m%d" % i, "scenario": r["scenario"], "region": "World",
                "variable": variable, "unit": unit}
        for c in case["cols"]:
            meta[c] = r["extra"].get(c)
        if case["declared"]:
            meta["parameter_type"] = r["declared"]
        rows.append({"meta": meta, "values": r["values"]})
    return {"times": case["times"], "rows": rows,
            "cols": case["cols"] + (["parameter_type"] if case["declared"] else [])}


def kind(case, r):
    """Declared or guessed type of a row."""
    if case["declared"] and r["declared"] is not None:
        return r["declared"].lower()
    return SERIES[r["series"]][2]


def expect(case, f, targets, ext, rec):
    """Reference: series by metadata with values and tolerance, or None if refused."""
    res = {}
    for r, row in zip(case["rows"], f["rows"]):
        ptype = kind(case, r)
        vals, m = fm.interpolate(ptype, f["times"], r["values"], targets, ext)
        rec.label(ptype)
        meta = dict(row["meta"], parameter_type=ptype)
        res[fr.key(meta)] = (vals, REL * m + 1e-300)
    return res


def judge(df, want, targets, what):
    """Compare an interpolated dataframe."""
    got, secs = fr.observe(df)
    require(secs == list(targets), "%s: times are %s, not %s", what, secs, targets)
    require(set(got) == set(want), "%s: unexpected series %s, missing %s", what,
            [k for k in got if k not in want][:2], [k for k in want if k not in got][:2])
    ts = df.timeseries()
    require(all(d == np.dtype(float) for d in ts.dtypes), "%s: data is of type %s", what,
            set(ts.dtypes))
    require(all(isinstance(c, datetime.datetime) for c in ts.columns), "%s: times are %s", what,
            {type(c) for c in ts.columns})
    require(bool(np.allclose(ts.mean(axis=1).values, ts.values.mean(axis=1), rtol=1e-9,
                             atol=1e-9 * np.abs(ts.values).max())), "%s: not numeric", what)
    for k, (vals, tol) in want.items():
        require(sorted(got[k]) == list(targets), "%s: %s has values at %s", what, k,
                sorted(got[k]))
        for t, v in zip(targets, vals):
            require(abs(got[k][t] - v) <= tol, "%s: %s at %s is %r, not %r (tolerance %g)", what,
                    k, cal.iso(t), got[k][t], v, tol)


def check_interpolate(case, rec):
    f = build(case)
    df = fr.build(f)
    targets, ext = case["targets"], case["ext"]
    if case.get("one") is not None and all(kind(case, r) == "point" for r in case["rows"]):
        targets = [targets[case["one"] % len(targets)]]
        rec.label("single target")
    before = fr.snapshot(df)
    how = case["how"] if possible(targets, case["how"]) else "numpy"
    rec.label(how)
    arg = target_argument(targets, how)
    kept = fr.snapshot(arg) if isinstance(arg, np.ndarray) else repr(arg)
    kw = {}
    if not (ext == "constant" and case["spell"] == 0):  # the default
        kw["extrapolation_type"] = [ext, ext.upper(), ETYPE[ext]][case["spell"]]
    if case["spell"] == 2:
        kw["interpolation_type"] = InterpolationType.LINEAR
    what = "interpolate to %s (%s)" % (how, ext)
    try:
        want = expect(case, f, targets, ext, rec)
    except tsmodel.Refused:
        want = None
    try:
        res = df.interpolate(arg, **kw)
    except InsufficientDataError:
        require(want is None, "%s is refused", what)
        require(fr.snapshot(df) == before, "%s fails and modifies the dataframe", what)
        rec.label("refused")
        return
    require(want is not None, "%s is not refused", what)
    require(fr.snapshot(df) == before, "%s modifies the dataframe", what)
    require((fr.snapshot(arg) if isinstance(arg, np.ndarray) else repr(arg)) == kept,
            "%s modifies the target times", what)
    kinds = {kind(case, r) for r in case["rows"]}
    rec.label("mixed" if len(kinds) > 1 else "homogeneous")
    rec.nontrivial(len(case["rows"]) > 1 and targets != f["times"])
    judge(res, want, targets, what)
    if case["again"]:
        # the result behaves like any other dataframe: back to a part of the targets
        part = targets[:-1] if len(targets) > 3 else targets
        if len(targets) >= 3 and "unlucky" not in case:
            again = res.interpolate(target_argument(part, "numpy"), extrapolation_type="linear")
            back = {}
            for k, (vals, tol) in want.items():
                ptype = dict(k)["parameter_type"]
                v2, m2 = fm.interpolate(ptype, targets, vals, part, "linear")
                src = targets if ptype == "point" else fm.extended(targets)
                dst = part if ptype == "point" else fm.extended(part)
                back[k] = (v2, tol * tsmodel.amplification(ptype, src, dst, "linear")
                           + REL * m2)
            judge(again, back, part, what + " and again")
            rec.label("again")


@st.composite
def s_rows(draw, times):
    n = draw(st.integers(1, 5))
    cols = sorted(draw(st.sets(st.sampled_from(NAMES), max_size=3)))
    value = {"note": st.sampled_from(["a", "b"]), "ensemble": st.integers(0, 3),
             "weight": st.sampled_from([0.5, 1.5]), "flag": st.booleans(),
             "mixed": st.sampled_from(["a", 1, 2.5, True])}
    same = draw(st.none() | st.integers(0, len(SERIES) - 1))
    rows = []
    for _ in range(n):
        rows.append({
            "series": same if same is not None else draw(st.integers(0, len(SERIES) - 1)),
            "scenario": draw(st.sampled_from(["a", "b"])),
            "declared": draw(st.sampled_from([None, "point", "average", "Point", "AVERAGE"])),
            "extra": {c: draw(st.one_of(st.none(), value[c], value[c])) for c in cols},
            "values": draw(tsgen.values(len(times)))})
    return cols, rows


@st.composite
def s_case(draw):
    times = draw(tsgen.grid(3, 8))
    cols, rows = draw(s_rows(times))
    targets = draw(st.one_of(tsgen.target(times, 2, 9), st.just(times)))
    if draw(st.integers(0, 3)) == 0:
        # whole years around the data
        a, b = cal.fields(times[0])[0], cal.fields(times[-1])[0]
        step = max(1, (b - a) // 6)
        y = draw(st.integers(max(1, a - step), b))
        n = draw(st.integers(2, 8))
        targets = [cal.seconds(y + step * i) for i in range(n) if y + step * i < 9999]
        if len(targets) < 2:
            targets = times
    # also the end of the last period has to be an ordinary date
    if not (cal.seconds(1) <= targets[0] and 2 * targets[-1] - targets[-2] < cal.seconds(9999)):
        targets = times
    return {"times": times, "cols": cols, "rows": rows, "targets": targets,
            "declared": draw(st.booleans()), "how": draw(st.sampled_from(HOWS)),
            "ext": draw(tsgen.EXTRA), "spell": draw(st.integers(0, 2)),
            "again": draw(st.booleans()),
            "one": draw(st.sampled_from([None, None, None, 0, 1, 2, 5]))}


def rule_dates(rule, start, end):
    """Dates of a rule spanning the data, at the time of day of the start."""
    day = start % cal.DAY
    step = {"AS": 12, "MS": 1, "QS": 3}[rule]
    f = cal.fields(start)
    m = (f[0] * 12 + f[1] - 1) // step * step
    res = []
    while True:
        res.append(cal.seconds(m // 12, m % 12 + 1) + day)
        if res[-1] >= end:
            return res
        m += step


@st.composite
def s_resample(draw):
    case = draw(s_case())
    case["rule"] = draw(st.sampled_from(["AS", "AS", "MS", "QS"]))
    times = case["times"]
    years = (times[-1] - times[0]) / cal.DAY / 365
    if years > 60:
        case["rule"] = "AS"
    if years > 300 or not 2 < cal.fields(times[0])[0] < 9900:
        k = draw(st.integers(40, 700))
        times = case["times"] = [i * k * cal.DAY // 7 for i in range(len(times))]
    return case


def check_resample(case, rec):
    f = build(case)
    df = fr.build(f)
    targets = rule_dates(case["rule"], case["times"][0], case["times"][-1])
    before = fr.snapshot(df)
    kw, ext = {}, "constant"
    if case["spell"]:
        ext = case["ext"]
        kw["extrapolation_type"] = ext
    args = [] if case["rule"] == "AS" and case["spell"] else [case["rule"]]
    what = "resample %s (%s)" % (case["rule"], ext)
    try:
        want = expect(case, f, targets, ext, rec)
    except tsmodel.Refused:
        want = None
    try:
        res = df.resample(*args, **kw)
    except InsufficientDataError:
        require(want is None, "%s is refused", what)
        rec.label("refused")
        return
    require(want is not None, "%s is not refused", what)
    require(fr.snapshot(df) == before, "%s modifies the dataframe", what)
    rec.nontrivial(len(targets) > 2)
    judge(res, want, targets, what)


def check_direct(case, rec):
    """Every series is what the time conversion of this series gives, alone or with others."""
    f = build(case)
    df = fr.build(f)
    targets, ext = case["targets"], case["ext"]
    try:
        res = df.interpolate(target_argument(targets, "numpy"), extrapolation_type=ext)
    except InsufficientDataError:
        rec.label("refused")
        return
    rec.nontrivial(len(case["rows"]) > 1)
    got = {r["model"]: v for r, v in zip(fr.meta_rows(res), res.values)}
    from vf.tscheck import PTYPE
    for i, (r, row) in enumerate(zip(case["rows"], f["rows"])):
        ptype = kind(case, r)
        src, dst = f["times"], targets
        if ptype == "average":
            src, dst = fm.extended(src), fm.extended(dst)
        direct = TimeseriesConverter(
            TimePoints(np.array(src).astype("datetime64[s]")).values,
            TimePoints(np.array(dst).astype("datetime64[s]")).values,
            PTYPE[ptype], InterpolationType.LINEAR, ETYPE[ext],
        ).convert_from(np.array(r["values"], dtype=float))
        m = tsmodel.magnitude(ptype, src, r["values"], dst, ext)
        g = got["m%d" % i]
        require(np.all(np.abs(g - direct) <= 1e-12 * m), "%s: %s, converted directly %s",
                row["meta"], g, direct)
        alone = df.filter(model="m%d" % i).interpolate(target_argument(targets, "numpy"),
                                                       extrapolation_type=ext)
        require(np.all(np.abs(alone.values[0] - g) <= 1e-12 * m), "%s: %s, alone %s",
                row["meta"], g, alone.values[0])


SUBS = [
    Sub("interpolate", check_interpolate, s_case, quick=1300, thorough=40000,
        rule="1 to 5 series of declared and guessed types with extra metadata of any type, "
             "any related target grid in any representation, against exact arithmetic; "
             "non-trivial with several series and new times"),
    Sub("resample", check_resample, s_resample, quick=400, thorough=12000,
        rule="annual, quarterly and monthly grids spanning the data; non-trivial with three "
             "or more dates"),
    Sub("direct", check_direct, s_case, quick=400, thorough=12000,
        rule="the same series converted directly and alone; non-trivial with several series"),
]
ASSUMPTIONS = [
    "at least three source and two target times; no missing values",
    "tolerance 1e-9 of the largest number involved in the conversion",
]
