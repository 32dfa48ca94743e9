"""C24: resampling grids are exactly the calendar points that span the data."""
import datetime

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf import cal, frames as fr
from vf.core import Sub, require

from openscm.scmdataframe import ScmDataFrame
from openscm.scmdataframe.offsets import generate_range, to_offset

MONTHS = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]
DAYS = ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"]
TICKS = {"D": 86400, "H": 3600, "T": 60, "min": 60, "S": 1}


def parse(rule):
    """(multiple, base, anchor) of a rule."""
    i = 0
    while rule[i].isdigit():
        i += 1
    base, _, anchor = rule[i:].partition("-")
    return int(rule[:i] or 1), base, anchor


def is_rule_day(day, base, anchor):
    """Whether a day (since 1970) is a date of the rule."""
    y, m, d = cal.civil_from_days(day)
    last = d == cal.month_length(y, m)
    if base in ("A", "Y"):
        return last and MONTHS[m - 1] == (anchor or "DEC")
    if base in ("AS", "YS"):
        return d == 1 and MONTHS[m - 1] == (anchor or "JAN")
    if base == "Q":
        return last and (m - 1 - MONTHS.index(anchor or "DEC")) % 3 == 0
    if base == "QS":
        return d == 1 and (m - 1 - MONTHS.index(anchor or "JAN")) % 3 == 0
    if base == "M":
        return last
    if base == "MS":
        return d == 1
    if base == "SM":
        return last or d == int(anchor or 15)
    if base == "SMS":
        return d in (1, int(anchor or 15))
    assert base == "W"
    return DAYS[(day + 3) % 7] == (anchor or "SUN")


def candidates(day, base, step):
    """Days from ``day`` on (or back), skipping those no such rule has."""
    while True:
        if base in ("A", "Y", "AS", "YS", "Q", "QS", "M", "MS"):
            y, m, d = cal.civil_from_days(day)
            if d not in (1, cal.month_length(y, m)):
                day = cal.days_from_civil(y, m, 1 if step < 0 else cal.month_length(y, m))
        yield day
        day += step


def expected(rule, start, end):
    """The dates in seconds."""
    n, base, anchor = parse(rule)
    if base in TICKS:
        step = n * TICKS[base]
        return [start + i * step for i in range(-((start - end) // step) + 1)]
    first, clock = divmod(start, cal.DAY)
    for day in candidates(first, base, -1):
        if is_rule_day(day, base, anchor):
            break
    res, count = [], 0
    for day in candidates(day, base, 1):
        if is_rule_day(day, base, anchor):
            if count % n == 0:
                res.append(day * cal.DAY + clock)
                if res[-1] >= end:
                    return res
            count += 1


def real(rule, start, end, how):
    """What the code generates, in seconds."""
    def arg(t):
        dt = fr.to_dt(t)
        return pd.Timestamp(dt) if how == "stamp" and 1700 < dt.year < 2250 else dt

    offset = to_offset(rule)
    out = []
    for _ in range(2):
        res = list(generate_range(arg(start), arg(end), offset))
        require(all(isinstance(t, datetime.datetime) for t in res), "dates are of types %s",
                {type(t) for t in res})
        out.append([fr.to_sec(t) for t in res])
    require(out[0] == out[1], "the same rule object gives different dates when used again")
    return out[0]


def check_range(case, rec):
    rule, start, end = case["rule"], case["start"], case["end"]
    want = expected(rule, start, end)
    got = real(rule, start, end, case["how"])
    rec.label(parse(rule)[1])
    rec.nontrivial(len(want) > 2)
    if not 1700 < cal.fields(start)[0] < 2250:
        rec.label("outside nanosecond range")
    require(got == want, "%s from %s to %s: %s, not %s", rule, cal.iso(start), cal.iso(end),
            [cal.iso(t) for t in got[:6]] + ["..."] + [cal.iso(t) for t in got[-3:]],
            [cal.iso(t) for t in want[:6]] + ["..."] + [cal.iso(t) for t in want[-3:]])


SPAN = {"A": 60 * 366, "Q": 20 * 366, "M": 10 * 366, "S": 4 * 366, "W": 500, "T": 0}


@st.composite
def s_rule(draw):
    kind = draw(st.sampled_from("AAQQMSWT"))
    month, day = st.sampled_from(MONTHS), st.sampled_from(DAYS)
    if kind == "A":
        rule = draw(st.sampled_from(["A", "AS", "Y", "YS", "A-", "AS-"]))
        rule += draw(month) if rule[-1] == "-" else ""
    elif kind == "Q":
        rule = draw(st.sampled_from(["Q", "QS", "Q-", "QS-"]))
        rule += draw(month) if rule[-1] == "-" else ""
    elif kind == "M":
        rule = draw(st.sampled_from(["M", "MS"]))
    elif kind == "S":
        rule = draw(st.sampled_from(["SM", "SMS", "SM-10", "SMS-20"]))
    elif kind == "W":
        rule = draw(st.sampled_from(["W", "W-"]))
        rule += draw(day) if rule[-1] == "-" else ""
    else:
        rule = draw(st.sampled_from(sorted(TICKS)))
    n = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 10]))
    return kind, (str(n) if n else "") + rule


@st.composite
def s_range(draw):
    kind, rule = draw(s_rule())
    year = draw(st.one_of(
        st.integers(1900, 2100), st.integers(2, 9800),
        st.sampled_from([4, 100, 400, 1582, 1600, 1677, 1678, 1700, 1900, 2000, 2261, 2262, 2263])))
    near = draw(st.integers(0, 2))
    if near:
        # on or next to month ends and starts
        m = draw(st.integers(1, 12))
        d = draw(st.sampled_from([1, 2, 10, 14, 15, 16, 20, 27, cal.month_length(year, m)]))
        start = cal.seconds(year, m, d)
        start += draw(st.sampled_from([0, 0, 1, 43200, 86399])) if near == 2 else 0
    else:
        start = cal.seconds(year) + draw(st.integers(0, 365 * cal.DAY - 1))
    if kind == "T":
        n, base, _ = parse(rule)
        end = start + draw(st.integers(0, 200 * n * TICKS[base]))
        if draw(st.booleans()):
            end = start + draw(st.integers(0, 60)) * n * TICKS[base]
    else:
        days = draw(st.integers(0, SPAN[kind]))
        end = start + days * cal.DAY
        how = draw(st.integers(0, 3))
        if how == 0:
            end += draw(st.integers(0, cal.DAY - 1))
        elif how == 1:
            y, m, d = cal.fields(end)[:3]
            d = draw(st.sampled_from([1, 15, cal.month_length(y, m)]))
            end = max(start, cal.seconds(y, m, d) + draw(st.sampled_from(
                [0, start % cal.DAY, 1, 86399])))
        elif how == 2:
            end += draw(st.integers(-2, 2)) - start % cal.DAY
            end = max(end, start)
    return {"rule": rule, "start": start, "end": end, "how": draw(st.sampled_from(
        ["datetime", "datetime", "stamp"]))}


@st.composite
def s_long(draw):
    """Whole history: spans of millennia."""
    a, b = sorted([draw(st.integers(2, 9880)), draw(st.integers(2, 9880))])
    rule = draw(st.sampled_from(["AS", "A", "10AS", "100AS", "AS-JUL", "A-JUN", "QS"]))
    if "Q" in rule:
        b = min(b, a + 500)
    return {"rule": rule, "start": cal.seconds(a, draw(st.integers(1, 12)), draw(
        st.integers(1, 28))), "end": cal.seconds(b, 12, draw(st.integers(1, 31))),
        "how": "datetime"}


@st.composite
def s_fine(draw):
    """Fine rules over long spans: tens of thousands of dates."""
    rule = draw(st.sampled_from(["D", "H", "T", "S", "6H", "W", "SM", "MS"]))
    n, base, _ = parse(rule)
    step = n * {"W": 7 * 86400, "SM": 14 * 86400, "MS": 28 * 86400}.get(base, TICKS.get(base))
    start = cal.seconds(draw(st.integers(2, 9000 if step < 86400 * 8 else 6000)),
                        draw(st.integers(1, 12)), draw(st.integers(1, 28)))
    end = start + draw(st.integers(9000, 30000)) * step + draw(st.integers(0, 3600))
    return {"rule": rule, "start": start, "end": end, "how": "datetime"}


def check_resample(case, rec):
    """The grid reaches the resampled dataframe."""
    rule, start, end = case["rule"], case["start"], case["end"]
    times = sorted({start, (start + end) // 2, end})
    want = expected(rule, start, end)
    if len(times) < 3 or len(want) < 2:
        rec.label("too short")
        return
    rec.nontrivial()
    df = ScmDataFrame(np.array([[1.0], [2.0], [5.0]]), index=[fr.to_dt(t) for t in times],
                      columns={"model": "a", "scenario": "b", "region": "World",
                               "variable": "v", "unit": "K"})
    got = [fr.to_sec(t) for t in df.resample(rule).time_points]
    require(got == want, "%s from %s to %s: %s, not %s", rule, cal.iso(start), cal.iso(end),
            [cal.iso(t) for t in got[:6]], [cal.iso(t) for t in want[:6]])


BUSINESS = ["B", "C", "BM", "BMS", "CBM", "CBMS", "BQ", "BQS", "BA", "BAS", "BH", "CBH",
            "BA-JUN", "BAS-FEB", "BQ-FEB", "BQS-MAR", "2B", "3BM", "10BAS", "2BQ-MAR"]


def check_business(case, rec):
    rec.nontrivial()
    try:
        to_offset(case["rule"])
    except ValueError:
        return
    require(False, "business rule %s is accepted", case["rule"])


RULE = "; non-trivial if there are three or more dates"
SUBS = [
    Sub("range", check_range, s_range, quick=9000, thorough=150000,
        rule="any supported rule, multiples and anchors included, starts and ends on, next to "
             "and between rule dates, any era" + RULE),
    Sub("long", check_range, s_long, quick=150, thorough=3000,
        rule="annual and quarterly rules over spans of millennia" + RULE),
    Sub("fine", check_range, s_fine, quick=16, thorough=400,
        rule="short rules over spans of 9000 to 30000 dates" + RULE),
    Sub("resample", check_resample, s_range, quick=250, thorough=6000,
        rule="times of a resampled dataframe" + RULE),
    Sub("business", check_business, cases=lambda tier: [{"rule": r} for r in BUSINESS],
        rule="every business rule is refused; enumerated"),
]
ASSUMPTIONS = [
    "rule dates have the time of day of the start; rules shorter than a week start at the start",
    "a multiple of a rule takes every n-th date from the last one not after the start",
]
