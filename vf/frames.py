"""
Dataframes as plain records: generation, the reference table, building the real object
and observing it.

A *record frame* is JSON data ``{"times": [seconds], "cols": [extra columns], "rows":
[{"meta": {column: value or None}, "values": [number or None]}]}``.

A *table* (the reference, and what is observed of a real dataframe) is a dict from a
canonical metadata key to ``{seconds: value}``; missing values are left out.
"""
import datetime
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from . import cal
from .core import require

from openscm.scmdataframe import ScmDataFrame

REQUIRED = ["model", "scenario", "region", "variable", "unit"]


# ------------------------------------------------------------------- reference table


def canon(v):
    """Canonical form of a metadata value."""
    if v is None:
        return None
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        v = float(v)
        return None if math.isnan(v) else v
    return str(v) if isinstance(v, str) else v


def key(meta):
    """Canonical key of a metadata dict (missing columns are absent or None)."""
    return tuple(sorted(((k, canon(v)) for k, v in meta.items()), key=lambda x: x[0]))


def table(frame):
    """Reference table of a record frame."""
    res = {}
    cols = REQUIRED + frame["cols"]
    for row in frame["rows"]:
        k = key({c: row["meta"].get(c) for c in cols})
        assert k not in res
        res[k] = {t: float(v) for t, v in zip(frame["times"], row["values"]) if v is not None}
    return res


def to_dt(sec):
    """Python datetime."""
    y, m, d, hh, mm, ss, _ = cal.fields(sec)
    return datetime.datetime(y, m, d, hh, mm, ss)


def to_sec(t):
    """Seconds of any time label."""
    return int(np.datetime64(t).astype("datetime64[s]").astype("int64"))


def build(frame, cls=None):
    """The real dataframe, from an array, an index and metadata columns."""
    data = np.array([[np.nan if v is None else float(v) for v in row["values"]]
                     for row in frame["rows"]], dtype=float).T
    cols = {c: [row["meta"].get(c) for row in frame["rows"]]
            for c in REQUIRED + frame["cols"]}
    return (cls or ScmDataFrame)(data, index=[to_dt(t) for t in frame["times"]], columns=cols)


def meta_rows(df):
    """The metadata of each series, in order."""
    meta = df.meta
    lists = {c: meta[c].tolist() for c in meta.columns}
    return [{c: v[i] for c, v in lists.items()} for i in range(len(meta))]


def observe(df, deep=True):
    """
    Table of a real dataframe, with its times; checks that everything it reports about
    itself agrees.
    """
    rows = meta_rows(df)
    require(len(df) == len(rows), "len() is %d, but metadata has %d rows", len(df), len(rows))
    secs = [int(t) for t in np.asarray(df.time_points).astype("datetime64[s]").astype("int64")]
    require(len(set(secs)) == len(secs), "time points are not unique: %s", secs)
    cols = list(df.meta.columns)
    require(cols[:5] == REQUIRED and len(set(cols)) == len(cols), "metadata columns are %s",
            cols)
    ts = df.timeseries()
    require(ts.shape == (len(rows), len(secs)), "timeseries has shape %s, not %s", ts.shape,
            (len(rows), len(secs)))
    vals = df.values
    require(np.array_equal(vals, ts.values, equal_nan=True), "values differ from timeseries")
    require(vals.dtype == float, "values are of type %s", vals.dtype)
    require([to_sec(t) for t in ts.columns] == secs, "timeseries times differ from time_points")
    require(list(ts.index.names) == cols, "timeseries index is %s, not %s", ts.index.names,
            cols)
    res, keys = {}, []
    for i, row in enumerate(rows):
        k = key(row)
        require(k not in res, "duplicate series %s", k)
        keys.append(k)
        res[k] = {t: float(v) for t, v in zip(secs, vals[i]) if not math.isnan(v)}
        label = ts.index[i]
        require(key(dict(zip(cols, label))) == k, "timeseries row %d is labelled %s, not %s", i,
                label, k)
    if deep:
        require([to_sec(t) for t in df["time"]] == secs, "df['time'] differs")
        require([int(y) for y in df["year"]] == [cal.fields(t)[0] for t in secs],
                "df['year'] differs")
        for c in cols:
            require([canon(v) for v in df[c].tolist()] == [canon(r[c]) for r in rows],
                    "df[%r] differs from metadata", c)
    return res, secs


def describe(t):
    """Short text of a table."""
    return "; ".join("%s: %s" % (
        "|".join(str(v) for _, v in k), v) for k, v in sorted(t.items(), key=str))[:1200]


def compare(got, want, what, rel=0.0, scale=None):
    """Tables have to be equal as sets (values exactly, or to a tolerance)."""
    if set(got) != set(want):
        extra = [k for k in got if k not in want]
        missing = [k for k in want if k not in got]
        require(False, "%s: unexpected series %s, missing series %s", what, extra[:3],
                missing[:3])
    for k, w in want.items():
        g = got[k]
        require(set(g) == set(w), "%s: series %s has values at %s, not %s", what, k,
                sorted(g), sorted(w))
        for t, v in w.items():
            tol = 0.0
            if rel:
                tol = rel * max(abs(v), scale if scale is not None else 0.0)
            require(abs(g[t] - v) <= tol, "%s: series %s at %s is %r, not %r", what, k,
                    cal.iso(t), g[t], v)


# ------------------------------------------------------------------------ generation

SECOND_GRIDS = ["years", "years", "months", "days", "hours", "any", "far", "decades", "ages",
                "dates", "dates"]


@st.composite
def times(draw, lo=1, hi=6, kinds=None, ns=False):
    """Strictly increasing times."""
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(kinds or SECOND_GRIDS))
    if ns and kind == "far":
        kind = "any"
    y = draw(st.integers(1700 if ns else 1, 2200 if ns else 9000)) if draw(
        st.integers(0, 3)) == 0 else draw(st.integers(1900, 2100))
    if kind == "years":
        return [cal.seconds(y + i) for i in range(n)]
    if kind == "decades":
        return [cal.seconds(y + 10 * i) for i in range(n)]
    if kind == "months":
        m = y * 12 + draw(st.integers(0, 11))
        return [cal.seconds((m + i) // 12, (m + i) % 12 + 1) for i in range(n)]
    if kind == "ages" and not ns:
        return [cal.seconds(a) for a in sorted(draw(st.lists(
            st.one_of(st.integers(100, 2500), st.integers(900, 1100)), min_size=n, max_size=n,
            unique=True)))]
    if kind in ("ages", "dates"):
        return sorted(draw(st.lists(
            st.builds(cal.seconds, st.integers(y, y + 1), st.integers(1, 12),
                      st.integers(1, 28)), min_size=n, max_size=n, unique=True)))
    base = cal.seconds(y, draw(st.integers(1, 12)), draw(st.integers(1, 28)))
    if kind == "days":
        return [base + i * cal.DAY for i in range(n)]
    if kind == "hours":
        return [base + i * 3600 * draw(st.sampled_from([1, 1, 5, 7])) for i in range(n)] \
            if n == 1 else [base + i * 3600 for i in range(n)]
    if kind == "far":
        # not the second in which numpy's cast from nanoseconds overflows
        res = draw(st.lists(st.integers(cal.seconds(1), cal.seconds(9990)).filter(
            lambda t: t != -9223372036), min_size=n, max_size=n, unique=True))
        return sorted(res)
    res = draw(st.lists(st.integers(0, 40 * 365 * cal.DAY), min_size=n, max_size=n,
                        unique=True))
    return sorted(base + r for r in res)


WORDS = ["a", "b", "World", "World|R", "Emissions|CO2", "Emissions|CO2|Energy", "x y",
         "primär", "a.b", "a+b", "a(b)", "[c]", "^d$", "A", "a*", "ab", "a|", "c\\d", "-x",
         "q'r", 'q"r', "x,y", "ü;ö", "#1", "été", "日本", "0", "1", "2.0", "-999", "1e3"]
SAFE = [w for w in WORDS if w not in ("0", "1", "2.0", "-999", "1e3")]
UNITS = ["K", "GtC/yr", "W/m^2", "kg", "Mt CO2 / yr", "dimensionless"]
EXTRA = {
    "climate_model": "text", "note": "text", "ensemble": "int", "weight": "float",
    "Mixed Case": "text", "ecs (K)": "float", "run": "int", "tag ": "text", " lead": "text",
    "model run": "int", "unit_note": "text", "year of birth": "int",
    "2010-01-01 tag": "text", "2050 cohort": "int",
}
NUMBERS = {"int": st.one_of(st.integers(-3, 3), st.sampled_from([-999, -1000, 10**6])),
           "float": st.sampled_from([0.5, -999.0, 1.25, -0.0, 3.0, 1e-7, 2.5e10])}
VALUE = st.one_of(st.integers(-20, 20).map(float), st.floats(-1e6, 1e6).map(
    lambda v: v if abs(v) > 1e-100 else 0.0), st.sampled_from([0.1, 1e-9, -999.0, 1e12]))


@st.composite
def text(draw, words=None, wild=False):
    """A text for metadata."""
    if wild and draw(st.integers(0, 2)) == 0:
        t = draw(st.text(st.characters(blacklist_categories=("Cc", "Cs", "Zl", "Zp")),
                         max_size=6))
        return "w" + t + "w"
    return draw(st.sampled_from(words or WORDS))


@st.composite
def frame(draw, lo=1, hi=5, time_strategy=None, words=None, wild=False, extra=None,
          nan_meta=True, nan_values=True, units=None, variables=None, scenarios=None,
          parameter_type=False, nan_numbers=True):
    """A record frame with unique metadata."""
    ts = draw(time_strategy if time_strategy is not None else times())
    names = sorted(draw(st.sets(st.sampled_from(sorted(extra if extra is not None else EXTRA)),
                                max_size=3))) if extra != [] else []
    n = draw(st.integers(lo, hi))
    rows, seen = [], set()
    few = draw(st.lists(text(words, wild), min_size=1, max_size=3))
    word = st.sampled_from(few)
    var = st.sampled_from(variables) if variables else st.one_of(
        st.sampled_from(["Emissions|CO2", "Surface Temperature", "Emissions|CO2|Energy"]), word)
    for i in range(n):
        meta = {"model": draw(word), "scenario": draw(
            st.sampled_from(scenarios) if scenarios else word),
            "region": draw(st.sampled_from(["World", "World|R", "World|R|S"])),
            "variable": draw(var), "unit": draw(st.sampled_from(units or UNITS))}
        for c in names:
            kind = EXTRA[c]
            v = draw(word if kind == "text" else NUMBERS[kind])
            missing = draw(st.integers(0, 3)) == 0 and nan_meta and (
                nan_numbers or kind == "text")
            meta[c] = None if missing else v
        if parameter_type:
            meta["parameter_type"] = draw(st.sampled_from(["point", "average"]))
        k = key(meta)
        if k in seen:
            meta["scenario"] = "%s %d" % (meta["scenario"], i)
            k = key(meta)
        seen.add(k)
        vals = draw(st.lists(VALUE, min_size=len(ts), max_size=len(ts)))
        if nan_values and len(ts) > 1 and draw(st.integers(0, 3)) == 0:
            holes = draw(st.sets(st.integers(0, len(ts) - 1), max_size=len(ts) - 1))
            vals = [None if j in holes else v for j, v in enumerate(vals)]
        rows.append({"meta": meta, "values": vals})
    if parameter_type:
        names = names + ["parameter_type"]
    res = {"times": ts, "cols": names, "rows": rows}
    # every time has a value of some series
    for j in range(len(ts)):
        if all(r["values"][j] is None for r in rows):
            rows[0]["values"][j] = 1.0
    return res


def with_nan(d):
    """Python metadata for pandas objects."""
    return {k: (np.nan if v is None else v) for k, v in d.items()}


def wide(f, labels=None):
    """Plain wide pandas table of a record frame."""
    labels = labels if labels is not None else [to_dt(t) for t in f["times"]]
    cols = REQUIRED + f["cols"]
    return pd.DataFrame(
        [[r["meta"].get(c) for c in cols] + [np.nan if v is None else v for v in r["values"]]
         for r in f["rows"]], columns=pd.Index(cols + list(labels), dtype=object))


def long(f, labels=None, time_name="time"):
    """Plain long pandas table of a record frame (missing values left out)."""
    labels = labels if labels is not None else [to_dt(t) for t in f["times"]]
    cols = REQUIRED + f["cols"]
    rows = [[r["meta"].get(c) for c in cols] + [lab, v]
            for r in f["rows"] for lab, v in zip(labels, r["values"]) if v is not None]
    return pd.DataFrame(rows, columns=cols + [time_name, "value"])


def snapshot(obj):
    """Deep picture of an argument, to see whether it is modified."""
    if isinstance(obj, ScmDataFrame.__mro__[-2]):
        return ("scm", [to_sec(t) for t in obj.time_points], repr(meta_rows(obj)),
                repr(obj.timeseries().values.tolist()), list(obj.meta.index))
    if isinstance(obj, pd.DataFrame):
        return ("df", repr(list(obj.columns)), repr(list(obj.index)), list(obj.index.names),
                [[repr(x) for x in obj.iloc[:, j].tolist()] for j in range(obj.shape[1])])
    if isinstance(obj, pd.Series):
        return ("series", obj.name, repr(list(obj.index)), [repr(x) for x in obj.tolist()])
    if isinstance(obj, np.ndarray):
        return ("array", str(obj.dtype), repr(obj.tolist()))
    return repr(obj)
