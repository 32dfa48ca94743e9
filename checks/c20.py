"""C20: time filters select exactly the matching time points."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf import cal, framemodel as fm, frames as fr
from vf.core import Sub, require

MONTH_BOUNDS, DAY_BOUNDS = (1, 12), (0, 6)


def spell(draw, name):
    """A name in full or abbreviated, in some case."""
    name = name if draw(st.booleans()) else name[:3]
    return draw(st.sampled_from([str.title, str.title, str.lower, str.upper]))(name)


@st.composite
def s_names(draw, names, near):
    """A name, a range of names, or a list mixing both."""
    def one():
        i = draw(st.sampled_from(near)) if draw(st.booleans()) else draw(
            st.integers(0, len(names) - 1))
        if draw(st.integers(0, 2)):
            return spell(draw, names[i])
        j = draw(st.integers(i, len(names) - 1))
        return spell(draw, names[i]) + "-" + spell(draw, names[j])

    if draw(st.integers(0, 2)) == 0:
        return one()
    return [one() for _ in range(draw(st.integers(1, 4)))]


@st.composite
def s_numbers(draw, near, lo, hi):
    one = st.one_of(st.sampled_from(near), st.integers(lo, hi))
    if draw(st.integers(0, 19)) == 0:
        return []
    return draw(st.one_of(one, st.lists(one, min_size=1, max_size=4)))


@st.composite
def s_time_filters(draw, times):
    """Filters on time near the given times."""
    kinds = draw(st.lists(st.sampled_from(["year", "month", "month", "day", "day", "hour",
                                           "time"]), min_size=1, max_size=3, unique=True))
    f = [cal.fields(t) for t in times]
    res = {}
    for kind in kinds:
        if kind == "year":
            near = [x[0] for x in f]
            if max(near) - min(near) in range(3, 60) and draw(st.booleans()):
                # a long list with gaps
                step, off = draw(st.integers(2, 4)), draw(st.integers(0, 3))
                res[kind] = list(range(min(near) - 20 + off, max(near) + 20, step))
                continue
            res[kind] = draw(s_numbers(near, min(near) - 1, max(near) + 1))
        elif kind == "hour":
            res[kind] = draw(s_numbers([x[3] for x in f], -1, 25))
        elif kind == "month":
            res[kind] = draw(s_names(fm.MONTHS, [x[1] - 1 for x in f])) if draw(
                st.booleans()) else draw(s_numbers([x[1] for x in f], 0, 13))
        elif kind == "day":
            res[kind] = draw(s_names(fm.DAYS, [x[6] for x in f])) if draw(
                st.booleans()) else draw(s_numbers([x[2] for x in f], 0, 32))
        else:
            res[kind] = draw(s_numbers(times, max(times[0] - 2, cal.seconds(1)),
                                       min(times[-1] + 2, cal.seconds(10000) - 1)))
    return res


GRIDS = ["months", "days", "hours", "any", "any", "far", "years", "mixed"]


@st.composite
def s_times(draw):
    kind = draw(st.sampled_from(GRIDS))
    if kind != "mixed":
        return draw(fr.times(1, 8, [kind]))
    y = draw(st.sampled_from([1, 4, 99, 100, 1582, 1600, 1700, 1900, 1970, 2000, 2020, 2261,
                              2263, 9998]))
    return sorted(draw(st.lists(
        st.builds(cal.seconds, st.integers(y, y + 1), st.sampled_from([1, 2, 3, 11, 12]),
                  st.sampled_from([1, 2, 28]), st.sampled_from([0, 1, 23]),
                  st.sampled_from([0, 59]), st.sampled_from([0, 59])),
        min_size=1, max_size=8, unique=True)))


@st.composite
def s_case(draw):
    f = draw(fr.frame(hi=3, time_strategy=s_times(), words=["a", "b", "c"],
                      nan_values=draw(st.booleans())))
    steps = []
    for _ in range(draw(st.integers(1, 2))):
        filters = draw(s_time_filters(f["times"]))
        if draw(st.integers(0, 2)) == 0:
            filters[draw(st.sampled_from(["scenario", "model", "region"]))] = draw(
                st.sampled_from(["a", "b", "*", "World*", ["a", "c"], "World"]))
        names = draw(st.permutations(list(filters)))
        steps.append({"filters": {k: filters[k] for k in names}, "keep": draw(st.booleans()),
                      "inplace": draw(st.booleans())})
    return {"frame": f, "steps": steps,
            "many": draw(st.sampled_from(["list", "list", "tuple", "array", "series", "set"])),
            "dt": draw(st.sampled_from(["datetime", "datetime", "numpy", "pandas"]))}


def as_time(sec, dt):
    """A time as it may be written in a filter."""
    if dt == "numpy":
        return np.datetime64(sec, "s")
    if dt == "pandas" and 1700 < cal.fields(sec)[0] < 2250:
        return pd.Timestamp(fr.to_dt(sec))
    return fr.to_dt(sec)


MANY = {"list": list, "tuple": tuple, "array": np.array, "set": set,
        "series": lambda v: pd.Series(v, index=range(5, 5 + len(v)))}


def arguments(filters, case):
    """Filter values as they are passed."""
    res = {}
    for k, v in filters.items():
        if k == "time":
            # numpy datetimes can only be given in lists
            v = [as_time(x, case["dt"]) for x in v] if isinstance(v, list) else as_time(
                v, "datetime" if case["dt"] == "numpy" else case["dt"])
        if isinstance(v, list):
            v = MANY[case["many"] if k in ("month", "day") else
                     "tuple" if case["many"] == "tuple" else "list"](v)
        res[k] = v
    return res


def said(args):
    return {k: repr(sorted(v) if isinstance(v, set) else v) for k, v in args.items()}


def occupied(table):
    """The series which have any value."""
    return {k: v for k, v in table.items() if v}


def check_filter(case, rec):
    f = case["frame"]
    df = fr.build(f)
    want = fr.table(f)
    for step in case["steps"]:
        cells = sum(len(v) for v in want.values())
        want = fm.select(want, step["filters"], step["keep"])
        args = arguments(step["filters"], case)
        kept = copy.deepcopy(args)
        before = fr.snapshot(df)
        for again in (True, False):
            # the same filter values can be used again and again
            if again or not step["inplace"]:
                new = df.filter(keep=step["keep"], **args)
            else:
                require(df.filter(keep=step["keep"], inplace=True, **args) is None,
                        "in-place filter returns something")
                new = df
            require(said(args) == said(kept), "filter values modified: %s becomes %s", kept, args)
            got, secs = fr.observe(new)
            fr.compare(occupied(got), want, "filter %s (keep=%s)" % (
                step["filters"], step["keep"]))
            require(secs == sorted(set(t for v in want.values() for t in v)),
                    "filter %s: times are %s", step, secs)
            if again:
                require(fr.snapshot(df) == before, "filter modifies the dataframe")
        df = new
        left = sum(len(v) for v in want.values())
        rec.nontrivial(0 < left < cells)
        for k in step["filters"]:
            rec.label(k)
        if not want:
            return


# ------------------------------------------------------------- every value of a field at once

CALENDARS = {
    # the first of each month of three years, each day of five weeks, each hour of two days
    "month": [cal.seconds(y, m) for y in (1999, 2000, 2001) for m in range(1, 13)],
    "day": [cal.seconds(2004, 2, 1) + i * cal.DAY for i in range(36)],
    "hour": [cal.seconds(1890, 12, 31) + i * 3600 for i in range(48)],
    "year": [cal.seconds(1840 + 7 * i) for i in range(60)],
}
_FRAMES = {}


@st.composite
def s_ranges(draw, names):
    n = len(names)
    res = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 4]))):
        i, j = sorted([draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))])
        if draw(st.integers(0, 4)) == 0:
            res.append(spell(draw, names[i]))
        else:
            res.append(spell(draw, names[i]) + "-" + spell(draw, names[j]))
    return res if len(res) > 1 or draw(st.booleans()) else res[0]


@st.composite
def s_calendar(draw):
    kind = draw(st.sampled_from(["month", "month", "day", "day", "day of month", "hour", "year"]))
    many = draw(st.sampled_from(["list", "list", "tuple", "array", "series", "set"]))
    if kind == "month" and draw(st.integers(0, 3)):
        value = draw(s_ranges(fm.MONTHS))
    elif kind == "day":
        value = draw(s_ranges(fm.DAYS))
    else:
        lo, hi = {"month": (1, 12), "day of month": (1, 31), "hour": (0, 23),
                  "year": (1840, 2253)}[kind]
        value = draw(st.lists(st.integers(lo, hi), min_size=1, max_size=20))
        if kind == "year":
            value = [1840 + (v - 1840) // 7 * 7 if draw(st.booleans()) else v for v in value]
            many = "tuple" if many == "tuple" else "list"
        elif kind == "hour":
            many = "tuple" if many == "tuple" else "list"
    return {"field": kind.split()[0], "value": value, "many": many, "keep": draw(st.booleans()),
            "dt": "datetime"}


def check_calendar(case, rec):
    """A filter on data which have every value of a field."""
    field = case["field"]
    times = CALENDARS[field]
    if field not in _FRAMES:
        f = {"times": times, "cols": [], "rows": [
            {"meta": {"model": "m", "scenario": "s", "region": "World", "variable": v,
                      "unit": "K"}, "values": [float(i + k) for i in range(len(times))]}
            for k, v in enumerate(["a", "b"])]}
        _FRAMES[field] = fr.build(f), fr.table(f)
    df, table = _FRAMES[field]
    filters = {field: case["value"]}
    want = fm.select(table, filters, case["keep"])
    got, _ = fr.observe(df.filter(keep=case["keep"], **arguments(filters, case)))
    fr.compare(occupied(got), want, "filter %s (keep=%s)" % (filters, case["keep"]))
    left = sum(len(v) for v in want.values())
    rec.nontrivial(0 < left < 2 * len(times))
    rec.label("calendar " + field)


BAD = [("month", "x", ValueError), ("month", "Janua", ValueError), ("month", "Mon", ValueError),
       ("month", ["Jan", "no"], ValueError), ("month", "Jan-no", ValueError),
       ("day", "Jan", ValueError), ("day", ["Mon", "Fr"], ValueError), ("day", "", ValueError),
       ("month", "", ValueError), ("day", "Mo-Fri", ValueError),
       ("month", "Jan-Feb-Nov", ValueError), ("day", ["Wed", "Mon-Tue-Sun"], ValueError),
       ("month", "Jan--Feb", ValueError), ("month", "Jan-", ValueError), ("month", "13", ValueError),
       ("year", "2005", TypeError), ("year", 2005.0, TypeError), ("year", [2005.5], TypeError),
       ("year", ["2005"], TypeError), ("year", [2005, 2006.0], TypeError),
       ("time", 2005, TypeError), ("time", [2005], TypeError),
       ("year", None, TypeError), ("hour", "3", TypeError), ("month", 2.5, TypeError)]


@st.composite
def s_refuse(draw):
    f = draw(fr.frame(hi=2, time_strategy=s_times(), words=["a", "b"]))
    if draw(st.booleans()):
        kind, value, error = draw(st.sampled_from(BAD))
        return {"frame": f, "kind": kind, "value": value, "error": error.__name__}
    kind = draw(st.sampled_from(["month", "day"]))
    names = fm.MONTHS if kind == "month" else fm.DAYS
    i = draw(st.integers(1, len(names) - 1))
    j = draw(st.integers(0, i - 1))
    value = spell(draw, names[i]) + "-" + spell(draw, names[j])
    if draw(st.booleans()):
        value = draw(st.permutations(
            [value] + draw(st.lists(st.sampled_from([n.title() for n in names]), max_size=2))))
    return {"frame": f, "kind": kind, "value": value, "error": "ValueError"}


def check_refuse(case, rec):
    f = case["frame"]
    df = fr.build(f)
    before = fr.snapshot(df)
    rec.nontrivial()
    try:
        got = df.filter(**{case["kind"]: case["value"]})
    except (ValueError, TypeError) as e:
        require(type(e).__name__ == case["error"], "%s=%r is refused with %r", case["kind"],
                case["value"], e)
        require(fr.snapshot(df) == before, "refused filter modifies the dataframe")
        return
    require(False, "%s=%r is accepted and gives times %s", case["kind"], case["value"],
            [str(t) for t in got.time_points][:3])


SUBS = [
    Sub("filter", check_filter, s_case, quick=1500, thorough=60000,
        rule="filters near the calendar fields of the times, combined with each other and "
             "with metadata filters, chained, each applied twice; non-trivial if a part of "
             "the values is selected"),
    Sub("calendar", check_calendar, s_calendar, quick=2000, thorough=60000,
        rule="names, ranges, lists of ranges and numbers on data with all months, days, hours "
             "or many years; non-trivial if a part of the values is selected"),
    Sub("refuse", check_refuse, s_refuse, quick=250, thorough=5000,
        rule="decreasing ranges and unusable values; all non-trivial"),
]
ASSUMPTIONS = [
    "lists hold either numbers, or names and ranges of names",
    "a series without any value at the selected times may be kept or dropped",
]
