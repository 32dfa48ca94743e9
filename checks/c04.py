"""C04: any supported time representation denotes the right instants."""
import datetime
from fractions import Fraction as F

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf import cal
from vf.core import Sub, require

from openscm.core.time import TimePoints

EPOCH = datetime.datetime(1970, 1, 1)
MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def dt(sec):
    return EPOCH + datetime.timedelta(seconds=sec)


def from_seconds(kind, secs):
    """(input, expected seconds, tolerance) for instants given in seconds."""
    f = [cal.fields(s) for s in secs]
    if kind == "datetime":
        return [dt(s) for s in secs], secs, 0
    if kind == "datetime_array":
        return np.array([dt(s) for s in secs], dtype=object), secs, 0
    if kind == "datetime_us":
        return [dt(s) + datetime.timedelta(microseconds=250000) for s in secs], secs, 1
    if kind == "date":
        return [dt(s).date() for s in secs], [s // cal.DAY * cal.DAY for s in secs], 0
    if kind.startswith("np_"):
        unit = kind[3:]
        div = {"s": 1, "m": 60, "h": 3600, "D": cal.DAY}
        if unit in div:
            want = [s // div[unit] * div[unit] for s in secs]
            arr = np.array([s // div[unit] for s in secs], dtype="int64")
        elif unit in ("ms", "us", "ns"):
            want = secs
            arr = np.array([s * {"ms": 10**3, "us": 10**6, "ns": 10**9}[unit] for s in secs],
                           dtype="int64")
        elif unit == "M":
            want = [cal.seconds(x[0], x[1]) for x in f]
            arr = np.array([(x[0] - 1970) * 12 + x[1] - 1 for x in f], dtype="int64")
        else:
            want = [cal.seconds(x[0]) for x in f]
            arr = np.array([x[0] - 1970 for x in f], dtype="int64")
        return arr.astype("datetime64[%s]" % unit), want, 0
    if kind == "np_scalars":
        raise KeyError
    if kind == "nplist":
        return [np.datetime64(cal.iso(s), "s") for s in secs], secs, 0
    if kind == "timestamps":
        return [pd.Timestamp(cal.iso(s)) for s in secs], secs, 0
    if kind == "datetimeindex":
        return pd.DatetimeIndex([pd.Timestamp(cal.iso(s)) for s in secs]), secs, 0
    if kind == "objectindex":
        return pd.Index([dt(s) for s in secs], dtype=object), secs, 0
    if kind == "series":
        return pd.Series([dt(s) for s in secs], dtype=object), secs, 0
    if kind == "str_space":
        return ["%04d-%02d-%02d %02d:%02d:%02d" % x[:6] for x in f], secs, 0
    if kind == "str_T":
        return [cal.iso(s) for s in secs], secs, 0
    if kind == "str_minute":
        return (["%04d-%02d-%02d %02d:%02d" % x[:5] for x in f],
                [s // 60 * 60 for s in secs], 0)
    if kind == "str_date":
        return ["%04d-%02d-%02d" % x[:3] for x in f], [s // cal.DAY * cal.DAY for s in secs], 0
    if kind == "str_month":
        return ["%04d-%02d" % x[:2] for x in f], [cal.seconds(x[0], x[1]) for x in f], 0
    if kind == "str_monthname":
        return (["%s %04d" % (MONTHS[x[1] - 1], x[0]) for x in f],
                [cal.seconds(x[0], x[1]) for x in f], 0)
    if kind == "str_daymonthname":
        return (["%d %s %04d" % (x[2], MONTHS[x[1] - 1], x[0]) for x in f],
                [s // cal.DAY * cal.DAY for s in secs], 0)
    if kind == "str_year":
        return ["%04d" % x[0] for x in f], [cal.seconds(x[0]) for x in f], 0
    if kind == "str_noyear":
        return (["%s %d %02d:%02d" % (MONTHS[x[1] - 1], x[2], x[3], x[4]) for x in f],
                [cal.seconds(2000, *x[1:3]) + 3600 * x[3] + 60 * x[4] for x in f], 0)
    if kind == "str_time":
        return (["%02d:%02d:%02d" % x[3:6] for x in f],
                [cal.seconds(2000) + s % cal.DAY for s in secs], 0)
    if kind == "str_mixed":
        return (["%04d" % x[0] if i % 2 else "%04d-%02d-%02d" % x[:3] for i, x in enumerate(f)],
                [cal.seconds(x[0]) if i % 2 else cal.seconds(*x[:3])
                 for i, x in enumerate(f)], 0)
    if kind == "str_array":
        return np.array([cal.iso(s) for s in secs]), secs, 0
    if kind == "str_object":
        return np.array([cal.iso(s) for s in secs], dtype=object), secs, 0
    raise KeyError(kind)


def year_inputs(kind, years):
    want = [cal.seconds(y) for y in years]
    if kind == "list":
        return list(years), want
    if kind == "range":
        ys = list(range(years[0], years[0] + len(years)))
        return range(years[0], years[0] + len(years)), [cal.seconds(y) for y in ys]
    if kind == "object":
        return np.array(years, dtype=object), want
    if kind == "index":
        return pd.Index(years), want
    if kind == "series":
        return pd.Series(years), want
    if kind == "tuple":
        return tuple(years), want
    return np.array(years, dtype=kind), want


def verify(tp, want, tol, what):
    vals = tp.values
    require(isinstance(vals, np.ndarray) and vals.dtype == np.dtype("datetime64[s]"),
            "%s: values are %r", what, getattr(vals, "dtype", type(vals)))
    got = [int(v) for v in vals.astype("int64")]
    require(len(got) == len(want), "%s: %d points instead of %d", what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        require(abs(g - w) <= tol, "%s: point %d is %s (%d s), not %s", what, i,
                vals[i], g, cal.iso(int(w)))
    f = [cal.fields(g) for g in got]
    for name, pos in (("years", 0), ("months", 1), ("days", 2), ("hours", 3), ("weekdays", 6)):
        res = [int(x) for x in getattr(tp, name)()]
        require(res == [x[pos] for x in f], "%s: %s() of %s is %s", what, name,
                [cal.iso(g) for g in got], res)
    idx = tp.to_index()
    require(idx.name == "time", "%s: index is named %r", what, idx.name)
    require([x for x in idx] == [dt(g) for g in got] and all(
        type(x) is datetime.datetime for x in idx), "%s: to_index() is %r", what, list(idx))


def check_instants(case, rec):
    secs, kind = case["secs"], case["kind"]
    inp, want, tol = from_seconds(kind, secs)
    rec.label(kind)
    rec.nontrivial(len(set(secs)) > 1 or any(s % cal.DAY for s in secs))
    if any(not cal.seconds(1678) < s < cal.seconds(2262) for s in secs):
        rec.label("outside nanosecond range")
    keep = inp.copy() if hasattr(inp, "copy") else list(inp)
    verify(TimePoints(inp), want, tol, kind)
    if isinstance(inp, np.ndarray):
        require(inp.dtype == keep.dtype and np.array_equal(inp, keep), "input was modified")
        if inp.ndim and inp.dtype.kind == "M":
            # values do not depend on memory layout
            verify(TimePoints(inp[::-1]), want[::-1], tol, kind + " reversed")


def check_years(case, rec):
    years, kind = case["years"], case["kind"]
    inp, want = year_inputs(kind, years)
    rec.label(kind)
    rec.nontrivial(len(set(years)) > 1)
    if any(y < 1970 for y in years):
        rec.label("before 1970")
    verify(TimePoints(inp), want, 0, "years as " + kind)


def check_float(case, rec):
    kind = case["kind"]
    years = [y + F(n, case["den"]) for y, n in case["years"]]
    vals = [float(y) for y in years]
    if kind == "float32":
        vals = [float(np.float32(v)) for v in vals]
    want, tol = [], 1
    for v in vals:
        y = int(v)
        length = cal.seconds(y + 1) - cal.seconds(y)
        want.append(int(cal.seconds(y) + (F(v) - y) * length))
    rec.nontrivial(any(v != int(v) for v in vals))
    rec.label(kind)
    if kind == "list":
        inp = vals
    elif kind == "str":
        inp = [repr(v) for v in vals]
    elif kind == "object":
        inp = np.array(vals, dtype=object)
    elif kind == "index":
        inp = pd.Index(vals)
    elif kind == "float32":
        inp, tol = np.array(vals, dtype="float32"), 10
    else:
        inp = np.array(vals)
    verify(TimePoints(inp), want, tol, "fractional years as " + kind)


def check_bad(case, rec):
    rec.nontrivial()
    try:
        got = TimePoints(case["text"]).values
    except ValueError:
        return
    except TypeError:
        return
    require(False, "%r is taken as %r", case["text"], got)


def check_empty(case, rec):
    rec.nontrivial()
    for inp in ([], np.array([], dtype=case["dtype"]), np.array([], dtype="datetime64[ns]")):
        got = TimePoints(inp).values
        require(len(got) == 0 and got.dtype.kind == "M", "empty input gives %r", got)


SEC = st.one_of(
    st.integers(cal.MIN, cal.MAX),
    st.integers(cal.seconds(1678), cal.seconds(2262)),
    st.integers(1, 9999).map(cal.seconds),
    st.sampled_from([0, -1, 1, cal.seconds(2000, 2, 29), cal.seconds(1900, 3, 1) - 1, cal.MIN,
                     cal.MAX, cal.seconds(2000, 12, 31, 23, 59, 59), cal.seconds(1999, 12, 31)]),
)
NSSEC = st.integers(cal.seconds(1678), cal.seconds(2262))
KINDS = ["datetime", "datetime_array", "datetime_us", "date", "np_Y", "np_M", "np_D", "np_h",
         "np_m", "np_s", "np_ms", "np_us", "nplist", "objectindex", "series", "str_space",
         "str_T", "str_minute", "str_date", "str_month", "str_monthname", "str_daymonthname",
         "str_year", "str_mixed", "str_array", "str_object", "str_noyear", "str_time"]
AMBIGUOUS = ["str_mixed", "str_month", "str_monthname", "str_daymonthname"]
NSKINDS = ["np_ns", "timestamps", "datetimeindex"]


@st.composite
def s_instants(draw):
    kind = draw(st.sampled_from(KINDS + NSKINDS))
    sec = NSSEC if kind in NSKINDS else SEC
    if kind in AMBIGUOUS:
        # "0031-12" reads as month 31 or December: such years need a full date
        sec = sec.filter(lambda s: s >= cal.seconds(100))
    return {"kind": kind, "secs": draw(st.lists(sec, min_size=1, max_size=6))}


INTKINDS = {"int8": (1, 127), "int16": (1, 9999), "int32": (1, 9999), "int64": (1, 9999),
            "uint8": (1, 255), "uint16": (1, 9999), "uint32": (1, 9999), "uint64": (1, 9999),
            "list": (1, 9999), "range": (1, 9900), "object": (1, 9999), "index": (1, 9999),
            "series": (1, 9999), "tuple": (1, 9999)}


@st.composite
def s_years(draw):
    kind = draw(st.sampled_from(sorted(INTKINDS)))
    lo, hi = INTKINDS[kind]
    year = st.one_of(st.integers(lo, hi), st.integers(min(1850, lo), min(2150, hi)))
    return {"kind": kind, "years": draw(st.lists(year, min_size=1, max_size=6))}


@st.composite
def s_float(draw):
    kind = draw(st.sampled_from(["list", "array", "str", "object", "index", "float32"]))
    den = draw(st.sampled_from([2, 4])) if kind == "float32" else draw(
        st.sampled_from([1, 2, 12, 365, 366, 1000, 8784, 31536000]))
    hi = 9999 if kind != "float32" else 2500
    years = draw(st.lists(
        st.tuples(st.one_of(st.integers(1, hi), st.integers(1890, 2110)),
                  st.integers(0, den - 1)).map(list), min_size=1, max_size=5))
    return {"kind": kind, "den": den, "years": years}


SUBS = [
    Sub("instants", check_instants, s_instants, quick=5000, thorough=150000,
        rule="instants as datetimes, dates, numpy datetimes, pandas types or strings; "
             "non-trivial if several instants or a time of day"),
    Sub("years", check_years, s_years, quick=2500, thorough=60000,
        rule="integer years in every integer type and container; non-trivial if several years"),
    Sub("float", check_float, s_float, quick=2500, thorough=60000,
        rule="fractional years; non-trivial if some fraction is not zero"),
    Sub("bad", check_bad, lambda: st.fixed_dictionaries({"text": st.lists(
        st.sampled_from(["not a date", "2005-13-01", "2005-02-30", "x", "2001-01-01 25:00:00"]),
        min_size=1, max_size=2)}), quick=50, thorough=100,
        rule="texts that are no dates"),
    Sub("empty", check_empty, cases=lambda tier: [
        {"dtype": d} for d in ("float", "int", "object", "datetime64[s]", "str")],
        rule="empty input of any type"),
]
ASSUMPTIONS = [
    "fractional years are compared to the second with a tolerance of one second",
    "missing parts of a date string default to those of the first of January 2000",
]
