"""C31: dataframes exchange data with pyam without loss."""
import datetime

import pandas as pd
import pyam
from hypothesis import strategies as st

from vf import cal, frames as fr
from vf.core import Sub, require

from openscm.scmdataframe import ScmDataFrame
from openscm.scmdataframe.pyam_compat import LongDatetimeIamDataFrame


def records(data, cols, time="time"):
    """Records of a long table as a dict."""
    require(set(data.columns) == set(cols) | {time, "value"}, "columns are %s",
            sorted(data.columns, key=str))
    lists = {c: data[c].tolist() for c in data.columns}
    res = {}
    for i in range(len(data)):
        t = lists[time][i]
        k = (fr.key({c: lists[c][i] for c in cols}),
             cal.seconds(int(t)) if time == "year" else fr.to_sec(t))
        require(k not in res, "two records for %s", k)
        require(lists["value"][i] == lists["value"][i], "record %s without value", k)
        res[k] = float(lists["value"][i])
    return res


def flat(table):
    return {(k, t): v for k, vals in table.items() for t, v in vals.items()}


def check_there(case, rec):
    """To pyam and back."""
    f = case["frame"]
    table = fr.table(f)
    df = fr.build(f)
    cols = fr.REQUIRED + f["cols"]
    if case["drop"] and len(f["rows"]) > 1:
        k = fr.key(fr.meta_rows(df)[0])
        gone = dict(k)
        df = df.filter(keep=False, **{c: gone[c] for c in ("model",)})
        table = {k: v for k, v in table.items() if dict(k)["model"] != gone["model"]}
        if not table:
            rec.label("empty")
            return
    used = sorted({t for v in table.values() for t in v})
    before = fr.snapshot(df)
    iam = df.to_iamdataframe()
    require(fr.snapshot(df) == before, "to_iamdataframe modifies the dataframe")
    require(isinstance(iam, LongDatetimeIamDataFrame) and isinstance(iam, pyam.IamDataFrame),
            "result is of type %s", type(iam))
    got = records(iam.data, cols)
    want = flat(table)
    require(got == want, "records %s, not %s", got, want)
    require(all(isinstance(t, (datetime.datetime, pd.Timestamp)) for t in iam.data["time"]),
            "times are not dates")
    data = fr.snapshot(iam.data)
    back = ScmDataFrame(iam)
    require(fr.snapshot(iam.data) == data, "construction modifies the pyam dataframe")
    res, secs = fr.observe(back)
    fr.compare(res, table, "back from pyam")
    require(secs == used, "times are %s, not %s", secs, used)
    require(list(back.meta.columns) == list(df.meta.columns), "columns %s become %s",
            list(df.meta.columns), list(back.meta.columns))
    # through append, too
    half = df.filter(time=[fr.to_dt(used[0])])
    rest = df.filter(time=[fr.to_dt(used[0])], keep=False)
    if len(used) > 1:
        joint = half.append(rest.to_iamdataframe())
        fr.compare(fr.observe(joint)[0], table, "appended pyam dataframe")
    far = not all(-8e9 < t < 9e9 for t in used)
    rec.nontrivial(far or len(table) > 1)
    rec.label("far" if far else "near")


def check_back(case, rec):
    """From dataframes which pyam made."""
    f = case["frame"]
    table = fr.table(f)
    how = case["how"]
    years = all(cal.fields(t)[1:6] == (1, 1, 0, 0, 0) for t in f["times"])
    if how.startswith("year") and not years:
        how = how.replace("year", "date")
    labels = [cal.fields(t)[0] for t in f["times"]] if how.startswith("year") else [
        fr.to_dt(t) for t in f["times"]]
    src = (fr.wide if how.endswith("wide") else fr.long)(f, labels) if not how.endswith(
        "long") else fr.long(f, labels, "year" if how.startswith("year") else "time")
    order = list(src.index)
    case_order = case["order"]
    order.sort(key=lambda i: (case_order[i % len(case_order)], i))
    src = src.loc[order].reset_index(drop=True)
    iam = pyam.IamDataFrame(src)
    if case["select"]:
        model = f["rows"][0]["meta"]["model"]
        iam = iam.filter(model=model)
        table = {k: v for k, v in table.items() if dict(k)["model"] == model}
    data = fr.snapshot(iam.data)
    want = flat(table)
    time = "year" if "year" in iam.data.columns else "time"
    require(records(iam.data, fr.REQUIRED + f["cols"], time) == want, "generator: pyam differs")
    df = ScmDataFrame(iam)
    require(fr.snapshot(iam.data) == data, "construction modifies the pyam dataframe")
    fr.compare(fr.observe(df)[0], table, "from pyam (%s)" % how)
    again = df.to_iamdataframe()
    require(records(again.data, fr.REQUIRED + f["cols"]) == want, "back to pyam differs")
    rec.label(how)
    rec.nontrivial(len(table) > 1)


def check_text(case, rec):
    """Times of the pyam dataframe given as text, all of them or some."""
    f = case["frame"]
    table = fr.long(f)
    kinds = [case["kinds"][i % len(case["kinds"])] for i in range(len(table))]
    stamps = [fr.to_sec(t) for t in table["time"]]
    times = []
    for kind, t in zip(kinds, stamps):
        text = cal.iso(t)
        times.append({"date": fr.to_dt(t), "space": text.replace("T", " "), "iso": text,
                      "day": text[:10] if t % cal.DAY == 0 else text}[kind])
    bad = case["bad"] if any(k != "date" for k in kinds) else None
    if bad is not None:
        times[-1] = bad
    table["time"] = pd.Series(times, index=table.index, dtype=object)
    rec.label("refused" if bad is not None else "text" if "date" not in kinds else
              "mixed" if set(kinds) != {"date"} else "dates")
    rec.nontrivial(len(table) > 1)
    try:
        iam = LongDatetimeIamDataFrame(table)
    except ValueError as e:
        require(bad is not None, "times %s are refused: %r", times, e)
        return
    require(bad is None, "times %s are accepted", times)
    cols = fr.REQUIRED + f["cols"]
    want = flat(fr.table(f))
    require(records(iam.data, cols) == want, "records of %s: %s, not %s", times,
            records(iam.data, cols), want)
    got = fr.observe(ScmDataFrame(iam))[0]
    fr.compare(got, fr.table(f), "from texts")


def check_pivot(case, rec):
    """A pivot table holds the sums of the records."""
    f = case["frame"]
    df = fr.build(f)
    index, columns = case["index"], case["columns"]
    before = fr.snapshot(df)
    got = df.pivot_table(index, columns, aggfunc="sum")
    require(fr.snapshot(df) == before, "pivot_table modifies the dataframe")
    want = {}
    for k, vals in fr.table(f).items():
        m = dict(k)
        for t, v in vals.items():
            m2 = dict(m, time=t)
            want.setdefault((tuple(m2[c] for c in index), tuple(m2[c] for c in columns)),
                            []).append(v)
    seen = {}
    for i, r in enumerate(got.index):
        for j, c in enumerate(got.columns):
            v = got.iloc[i, j]
            if v == v and v != "":
                a = r if isinstance(r, tuple) else (r,)
                b = c if isinstance(c, tuple) else (c,)
                a = tuple(fr.to_sec(x) if n == "time" else x for x, n in zip(a, index))
                b = tuple(fr.to_sec(x) if n == "time" else x for x, n in zip(b, columns))
                seen[(a, b)] = v
    # cells without a record are empty or zero
    seen = {k: v for k, v in seen.items() if k in want or v != 0}
    require(set(seen) == set(want), "cells %s, not %s", sorted(seen, key=str),
            sorted(want, key=str))
    for k, v in want.items():
        require(abs(seen[k] - sum(v)) <= 1e-12 * sum(abs(x) for x in v), "cell %s is %r, not %r",
                k, seen[k], sum(v))
    rec.nontrivial(len(want) > 1)


WORDS = ["a", "b", "x|y", "x y", "é", "a,b", 'q"r', "(c)", "A"]
EXTRA = ["climate_model", "ensemble", "note", "weight", "run"]


@st.composite
def s_there(draw):
    f = draw(fr.frame(lo=1, hi=5, words=WORDS, wild=True, extra=EXTRA, nan_meta=False))
    if draw(st.integers(0, 3)) == 0:
        # a column with the same entry everywhere
        entry = draw(st.sampled_from(["", " ", "same", 0, 0.0, 1.5]))
        f["cols"] = f["cols"] + ["constant"]
        for r in f["rows"]:
            r["meta"]["constant"] = entry
    return {"frame": f,
            "drop": draw(st.sampled_from([False, False, True]))}


@st.composite
def s_back(draw):
    kinds = ["years", "years", "decades", "months", "days", "any"]
    f = draw(fr.frame(lo=1, hi=5, time_strategy=fr.times(kinds=kinds, ns=True),
                      words=WORDS, extra=EXTRA, nan_meta=False))
    if draw(st.integers(0, 3)) == 0:
        entry = draw(st.sampled_from(["", " ", "same", 0, 1.5]))
        f["cols"] = f["cols"] + ["constant"]
        for r in f["rows"]:
            r["meta"]["constant"] = entry
    return {"frame": f,
            "how": draw(st.sampled_from(["year wide", "year long", "date wide", "date long"])),
            "order": draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)),
            "select": draw(st.sampled_from([False, False, True]))}


@st.composite
def s_text(draw):
    # years of four digits are read for sure
    f = draw(fr.frame(lo=1, hi=4, words=WORDS, extra=EXTRA, nan_meta=False,
                      time_strategy=fr.times(ns=True)))
    move = draw(st.sampled_from([0, 0, 600, 7000])) * 146097 // 400 * cal.DAY
    f["times"] = [t + move for t in f["times"]]
    return {"frame": f, "kinds": draw(st.lists(
        st.sampled_from(["date", "space", "iso", "day"]), min_size=1, max_size=5)),
            "bad": draw(st.sampled_from([None] * 5 + ["no time", "x"]))}


@st.composite
def s_pivot(draw):
    names = draw(st.permutations(["model", "scenario", "region", "variable", "unit", "time"]))
    i = draw(st.integers(1, 2))
    j = draw(st.integers(1, 2))
    return {"frame": draw(fr.frame(lo=1, hi=4, words=["a", "b", "c"], extra=["note"],
                                   nan_meta=False)),
            "index": list(names[:i]), "columns": list(names[i:i + j])}


SUBS = [
    Sub("there", check_there, s_there, quick=500, thorough=20000,
        rule="to pyam and back, records compared one by one; non-trivial with several series "
             "or dates far away"),
    Sub("back", check_back, s_back, quick=350, thorough=10000,
        rule="from pyam dataframes made of years or dates, wide or long, in any order; "
             "non-trivial with several series"),
    Sub("text", check_text, s_text, quick=200, thorough=8000,
        rule="pyam dataframes made from times as text, all of them or some, in several "
             "notations; non-trivial with several records"),
    Sub("pivot", check_pivot, s_pivot, quick=100, thorough=4000,
        rule="pivot tables against sums of the records; non-trivial with several cells"),
]
ASSUMPTIONS = [
    "missing metadata are left out (pyam refuses them)",
    "pyam itself is trusted to keep the tables it is given",
]
