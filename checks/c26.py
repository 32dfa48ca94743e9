"""C26: operations leave their inputs alone, and in-place variants do the same."""
import copy
import os
import tempfile
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf import cal, frames as fr
from vf.core import Sub, require

from openscm.core.parameterset import ParameterSet
from openscm.scmdataframe import ScmDataFrame, df_append
from pyam import IamDataFrame

ERRORS = (ValueError, TypeError, KeyError, IndexError, AttributeError, OverflowError)


def picture(obj):
    """Everything observable of an argument or result."""
    if isinstance(obj, (list, tuple)):
        return [type(obj).__name__] + [picture(x) for x in obj]
    if isinstance(obj, dict):
        return [(k, picture(v)) for k, v in obj.items()]
    if isinstance(obj, ScmDataFrame.__mro__[-2]):
        meta = obj.meta
        return ("scm", [str(t) for t in obj.time_points], list(meta.columns), list(meta.index),
                [[repr(x) for x in meta[c].tolist()] for c in meta.columns],
                picture(obj.timeseries()), picture(obj["time"]), picture(obj["year"]))
    if isinstance(obj, IamDataFrame):
        return ("iam", picture(obj.data))
    if isinstance(obj, pd.Index):
        return ("index", list(obj.names), [repr(x) for x in obj.tolist()])
    return fr.snapshot(obj)


# ----------------------------------------------------------------------- mutations


def spoil(obj):
    """Change an object in every way there is."""
    if isinstance(obj, ScmDataFrame.__mro__[-2]):
        obj.values[:] = 13.0
        obj.time_points[:] = np.datetime64("1851-01-01", "s")
        spoil(obj.timeseries())
        spoil(obj.meta)
        spoil(obj["time"])
        spoil(obj["year"])
        n = len(obj)
        if not n:
            return
        obj.set_meta(["spoilt %d" % i for i in range(n)], name="scenario")
        obj["another"] = "spoilt"
        obj.set_meta(pd.Series(["x"], index=obj.meta.index[:1]), name="region")
        obj.rename({"scenario": {"spoilt 0": "renamed"}}, inplace=True)
        obj["time"] = [fr.to_dt(cal.seconds(3000 + i)) for i in range(len(obj["time"]))]
        obj.filter(year=3000, inplace=True)
        other = fr.build({"times": [cal.seconds(3000)], "cols": [], "rows": [{
            "meta": {c: "zz" for c in fr.REQUIRED}, "values": [1.0]}]})
        obj.append(other, inplace=True)
        return
    if isinstance(obj, pd.DataFrame):
        if obj.size:
            for j in range(obj.shape[1]):
                obj.iloc[0, j] = obj.iloc[-1, j] if obj.dtypes.iloc[j] == object else 99
            obj.values.flat[0] = 98
        obj["extra"] = "q"
        obj.index = pd.RangeIndex(len(obj))
        obj.drop(obj.index[:1], inplace=True)
    elif isinstance(obj, pd.Series):
        if len(obj):
            obj.iloc[0] = "x" if obj.dtype == object else 97
    elif isinstance(obj, np.ndarray):
        if obj.size and obj.flags.writeable:
            obj.flat[0] = np.datetime64("1852-01-01", "s") if obj.dtype.kind == "M" else (
                "x" if obj.dtype.kind in "OU" else 96)
    elif isinstance(obj, list):
        if obj:
            spoil(obj[0])
            obj[0] = obj[-1]
            obj.append(obj[0])
    elif isinstance(obj, dict):
        for v in list(obj.values()):
            spoil(v)
        obj.clear()
    elif isinstance(obj, IamDataFrame):
        spoil(obj.data)


# ------------------------------------------------------------------------ operations


def row_value(f, col, i):
    return f["rows"][i % len(f["rows"])]["meta"].get(col)


def filters_of(f, case, wide=True):
    """Filters in several spellings."""
    i = case["pick"]
    res = {}
    for c in case["fcols"]:
        v = row_value(f, c, i)
        if not isinstance(v, str) or not v or any(
                not isinstance(r["meta"].get(c), str) for r in f["rows"]):
            continue
        res[c] = [v, [v, "zz*"], (v, "other"), np.array([v, "y"], dtype=object)][case["how"] % 4]
    t = f["times"][i % len(f["times"])]
    y = cal.fields(t)[0]
    if wide and case["ftime"] == "year":
        res["year"] = [y, [y, y + 1], range(y - 1, y + 1), np.array([y, y + 7])][case["how"] % 4]
    elif wide and case["ftime"] == "time":
        res["time"] = [fr.to_dt(t)] if case["how"] % 2 else fr.to_dt(t)
    elif wide and case["ftime"] == "month":
        res["month"] = [cal.fields(t)[1], 7] if case["how"] % 2 else ["Jan-Mar", "May"]
    if case["fault"] == "filter":
        res["no such column"] = ["x"]
    return res


def o_filter(df, f, case):
    kw = filters_of(f, case)
    return [kw], lambda d, **more: d.filter(keep=case["keep"], **more, **kw), True


def o_rename(df, f, case):
    mapping = {}
    for c in case["fcols"]:
        v, w = row_value(f, c, case["pick"]), row_value(f, c, case["pick"] + 1)
        mapping[c] = {v: w if case["how"] % 2 else "renamed"}
    if case["fault"] == "filter":
        mapping["no such column"] = {"a": "b"}
    elif case["fault"] == "other":
        # everything the same in the end
        mapping = dict(mapping)
        for c in fr.REQUIRED:
            mapping[c] = {x: "same" for x in {r["meta"][c] for r in f["rows"]}}
    return [mapping], lambda d, **more: d.rename(mapping, **more), True


def o_convert(df, f, case):
    kw = filters_of(f, case, wide=False)
    kw.pop("unit", None)
    unit = {"other": "nonsense unit", None: "mK", "filter": "mK"}[case["fault"]]
    if case["how"] == 3:
        unit = "kg"  # not all units go there
    return [kw], lambda d, **more: d.convert_unit(unit, **more, **kw), True


def second(f, case):
    """Another frame to append, as one of the possible things."""
    g = copy.deepcopy(f)
    for i, r in enumerate(g["rows"]):
        if case["how"] % 2 or i % 2:
            r["meta"]["model"] = "%s other" % r["meta"]["model"]
        if case["keep"]:
            r["meta"]["further"] = "entry"
    if case["keep"]:
        g["cols"] = sorted(g["cols"] + ["further"])
    kind = case["form"]
    if kind == "scm":
        return fr.build(g)
    if kind == "wide":
        return fr.wide(g)
    if kind == "long":
        return fr.long(g)
    lg = fr.long(g)
    return lg.set_index([c for c in lg.columns if c != "value"])["value"]


def o_append(df, f, case):
    other = second(f, case)
    msg = {"other": "unknown", "filter": "unknown"}.get(case["fault"], False)
    return [other], lambda d, **more: d.append(other, duplicate_msg=msg, **more), True


def o_df_append(df, f, case):
    others = [second(f, case), second(f, dict(case, keep=False, how=case["how"] * 2))]
    msg = {"other": "unknown", "filter": "unknown"}.get(case["fault"], False)

    def run(d, **more):
        items = [d] + others
        kept = list(items)
        try:
            return df_append(items, duplicate_msg=msg, **more)
        finally:
            require(len(items) == len(kept) and all(x is y for x, y in zip(items, kept)),
                    "df_append replaces items of the list it is given")
    return [others], run, True


def o_interpolate(df, f, case):
    lo, hi = f["times"][0], f["times"][-1]
    ts = sorted({lo, lo + (hi - lo) // 2, hi})
    if case["fault"]:
        ts = [lo - 86400, hi + 86400]
    arg = [fr.to_dt(t) for t in ts]
    if case["how"] == 1:
        arg = np.array(ts).astype("datetime64[s]")
    elif case["how"] == 2:
        arg = np.array(arg, dtype=object)
    ext = "none" if case["fault"] else "constant"
    return [arg], lambda d: d.interpolate(arg, extrapolation_type=ext), False


def simple(fn):
    def op(df, f, case):
        return [], fn, False
    return op


def o_reference(df, f, case):
    years = [cal.fields(f["times"][case["pick"] % len(f["times"])])[0]]
    if case["fault"]:
        return [years], lambda d: d.relative_to_ref_period_mean(nothing=years), False
    return [years], lambda d: d.relative_to_ref_period_mean(year=years), False


def o_process(df, f, case):
    cols = [c for c in case["fcols"]]
    if case["fault"]:
        return [cols], lambda d: d.process_over(cols, "sum of all"), False
    return [cols], lambda d: d.process_over(cols, ["mean", "median"][case["how"] % 2]), False


def o_meta_columns(df, f, case):
    cols = ["model", "scenario", "variable", "unit", "region"][:2 + case["how"]]
    return [cols], lambda d: d.timeseries(cols), False


def o_item(df, f, case):
    key = [["model", "unit"], "model", "time", "year"][case["how"]]
    if case["fault"]:
        key = "nothing"
    return [key], lambda d: d[key], False


def o_construct(df, f, case):
    return [], [ScmDataFrame, lambda d: d.copy(), copy.copy, copy.deepcopy][
        case["how"] if case["how"] != 2 else 0], False


def o_csv(df, f, case):
    def run(d):
        fd, path = tempfile.mkstemp(prefix="vf-c26-", suffix=".csv")
        os.close(fd)
        try:
            d.to_csv(path)
        finally:
            os.unlink(path)
    return [], run, False


def o_parameterset(df, f, case):
    def run(d):
        ps = d.to_parameterset()
        # writing to it is not to reach the dataframe
        for r in f["rows"]:
            m = r["meta"]
            view = ps.timeseries(m["variable"], m["unit"], d.time_points, region=tuple(
                m["region"].split("|")), timeseries_type="point")
            arr = view.values
            view.values = np.zeros(len(arr))
    return [], run, False


def o_pivot(df, f, case):
    return [], lambda d: d.pivot_table("scenario", "variable", aggfunc="sum"), False


OPS = {
    "filter": o_filter, "rename": o_rename, "convert": o_convert, "append": o_append,
    "df_append": o_df_append, "interpolate": o_interpolate,
    "resample": simple(lambda d: d.resample("AS")), "reference": o_reference,
    "process": o_process, "timeseries": simple(lambda d: d.timeseries()),
    "columns": o_meta_columns, "item": o_item, "values": simple(lambda d: d.values),
    "meta": simple(lambda d: d.meta), "time_points": simple(lambda d: d.time_points),
    "head": simple(lambda d: d.head(2)), "tail": simple(lambda d: d.tail(1)),
    "construct": o_construct, "pyam": simple(lambda d: d.to_iamdataframe()), "csv": o_csv,
    "parameterset": o_parameterset, "pivot": o_pivot,
}
INPLACE = ["filter", "rename", "convert", "append", "df_append"]


def prepare(case):
    """The dataframe, perhaps after a selection that leaves gaps in the row labels."""
    f = copy.deepcopy(case["frame"])
    df = fr.build(f)
    if case["prior"] and len(f["rows"]) > 1:
        drop = f["rows"].pop(case["prior"] % len(f["rows"]))
        df = df.filter(keep=False, **{c: drop["meta"][c] for c in fr.REQUIRED})
    return df, f


def run(fn, *args, **kw):
    """(result, error)"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return fn(*args, **kw), None
        except ERRORS as e:
            return None, e
        except Exception as e:  # pylint: disable=broad-except
            # errors of the code under test have their own types
            if type(e).__module__.startswith(("openscm", "pint")):
                return None, e
            raise


def check_pure(case, rec):
    df, f = prepare(case)
    op = case["op"]
    args, fn, _ = OPS[op](df, f, case)
    before, given = picture(df), picture(args)
    res, err = run(fn, df)
    what = "%s%s" % (op, " (fails: %r)" % err if err else "")
    require(picture(df) == before, "%s modifies the dataframe", what)
    require(picture(args) == given, "%s modifies its arguments", what)
    rec.label(op)
    if err:
        rec.label("fails")
        rec.nontrivial()
        return
    rec.nontrivial()
    require(res is not df, "%s returns the dataframe itself", what)
    again, _ = run(fn, df)
    seen = picture(again)
    require(picture(res) == seen, "%s is not repeatable", what)
    # what happens to the result stays with the result
    spoil(res)
    require(picture(df) == before, "changing the result of %s changes the dataframe", what)
    require(picture(args) == given, "changing the result of %s changes its arguments", what)
    require(picture(again) == seen, "results of %s share data", what)
    # and the other way round
    spoil(args)
    require(picture(df) == before, "changing an argument of %s changes the dataframe", what)
    require(picture(again) == seen, "changing an argument of %s changes the result", what)
    spoil(df)
    require(picture(again) == seen, "changing the dataframe changes the result of %s", what)


def check_inplace(case, rec):
    df, f = prepare(case)
    op = case["op"]
    twin = prepare(case)[0]
    held = df.copy()
    args, fn, _ = OPS[op](df, f, case)
    before, given = picture(df), picture(args)
    want, err = run(fn, twin)
    res, err2 = run(fn, df, inplace=True)
    what = "%s%s" % (op, " (fails: %r)" % err if err else "")
    rec.label(op)
    require((err is None) == (err2 is None) and type(err) is type(err2),
            "%s: returning variant gives %r, in-place variant gives %r", what, err, err2)
    require(picture(held) == before, "in-place %s reaches a copy", what)
    require(picture(args) == given, "in-place %s modifies its arguments", what)
    require(res is None, "in-place %s returns %s", what, type(res))
    if err:
        rec.label("fails")
        rec.nontrivial()
        require(picture(df) == before, "failing in-place %s changes the dataframe", what)
        return
    rec.nontrivial(picture(df) != before)
    require(picture(df) == picture(want), "in-place %s leaves %s, returning variant gives %s",
            what, picture(df), picture(want))
    # arguments stay apart
    spoil(args)
    require(picture(df) == picture(want), "changing an argument of %s reaches the dataframe",
            what)


def check_assign(case, rec):
    """Assignments do not tie the dataframe to what was assigned."""
    df, f = prepare(case)
    n, how = len(df), case["how"]
    kind = case["kind"]
    held = df.copy()
    before = picture(df)
    rec.label(kind)
    rec.nontrivial()
    m = len(f["times"])
    times = [fr.to_dt(cal.seconds(1990 + i)) for i in range(m)]
    if kind == "times":
        arg = [times, np.array(times, dtype="datetime64[s]"), np.array(times, dtype=object),
               pd.Series(times)][how]
        given = picture(arg)
        df["time"] = arg
        extra = []
    else:
        vals = ["v%d" % i for i in range(n)]
        arg = [vals, np.array(vals, dtype=object), pd.Series(vals, index=df.meta.index),
               pd.Series(vals, index=df.meta.index)][how]
        extra = []
        given = picture(arg)
        if how == 3:
            index = df.meta[["model", "scenario", "region", "variable", "unit"]]
            extra = [index]
            arg = vals
            given = picture(arg)
            df.set_meta(arg, name=case["name"], index=index)
        elif kind == "item":
            df[case["name"]] = arg
        else:
            df.set_meta(arg, name=case["name"])
    require(picture(arg) == given, "assignment modifies its argument")
    require(picture(held) == before, "assignment reaches a copy")
    seen = picture(df)
    spoil(arg)
    for e in extra:
        spoil(e)
    require(picture(df) == seen, "changing what was assigned (%s, %d) changes the dataframe",
            kind, how)


def check_assign_bad(case, rec):
    """Assignments that fail change nothing."""
    df, f = prepare(case)
    before = picture(df)
    m, n = len(f["times"]), len(df)
    kind = case["kind"]
    fn = {
        "few times": lambda: df.__setitem__("time", list(range(2000, 2000 + m + 1))),
        "bad times": lambda: df.__setitem__("time", ["nonsense"] * m),
        "long list": lambda: df.set_meta(["a"] * (n + 1), name="scenario"),
        "unknown label": lambda: df.set_meta(pd.Series(["a"], index=[n + 50]), name="scenario"),
        "unknown entry": lambda: df.set_meta(pd.Series(["a"], index=pd.Index(
            ["nobody"], name="model")), name="scenario"),
        "repeated": lambda: df.set_meta(pd.Series(["a", "b"], index=pd.Index(
            [f["rows"][0]["meta"]["model"]] * 2, name="model")), name="scenario"),
        "unknown level": lambda: df.set_meta(pd.Series(["a"], index=pd.Index(
            ["x"], name="nothing")), name="scenario"),
    }[kind]
    _, err = run(fn)
    rec.label(kind)
    rec.nontrivial()
    require(err is not None, "%s is accepted", kind)
    require(picture(df) == before, "failing assignment (%s) changes the dataframe", kind)


BAD = ["few times", "bad times", "long list", "unknown label", "unknown entry", "repeated",
       "unknown level"]


@st.composite
def s_frame(draw):
    f = draw(fr.frame(lo=1, hi=4, time_strategy=fr.times(2, 4, kinds=[
        "years", "months", "days", "any", "decades"], ns=True), words=["a", "b", "x|y"],
        extra=["ensemble", "note", "weight"], units=["K", "mK", "kg"], nan_meta=False,
        nan_values=False, variables=["T", "T|a", "Emissions|CO2", "x"]))
    for i, r in enumerate(f["rows"]):
        # unique whatever happens to the other columns
        r["meta"]["model"] += str(i)
    if draw(st.integers(0, 3)) == 0:
        # types which are given for some series, or all
        f["cols"] = sorted(f["cols"] + ["parameter_type"])
        for r in f["rows"]:
            r["meta"]["parameter_type"] = draw(st.sampled_from(["point", "average", None]))
    return f


@st.composite
def s_case(draw, ops):
    prior = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return {"frame": draw(s_frame()), "op": draw(st.sampled_from(ops)), "prior": prior,
            "pick": draw(st.integers(0, 3)), "how": draw(st.integers(0, 3)),
            "fcols": draw(st.lists(st.sampled_from(["model", "scenario", "region", "variable",
                                                    "unit"]), min_size=1, max_size=2,
                                   unique=True)),
            "ftime": draw(st.sampled_from(["none", "year", "time", "month"])),
            "keep": draw(st.booleans()), "form": draw(st.sampled_from(
                ["scm", "wide", "long", "series"])),
            "fault": draw(st.sampled_from([None, None, None, "filter", "other"]))}


@st.composite
def s_assign(draw):
    return {"frame": draw(s_frame()), "prior": draw(st.integers(0, 3)),
            "kind": draw(st.sampled_from(["times", "item", "set"])),
            "how": draw(st.integers(0, 3)),
            "name": draw(st.sampled_from(["scenario", "note", "further"]))}


@st.composite
def s_assign_bad(draw):
    return {"frame": draw(s_frame()), "prior": draw(st.integers(0, 3)),
            "kind": draw(st.sampled_from(BAD))}


SUBS = [
    Sub("pure", check_pure, lambda: s_case(sorted(OPS)), quick=1200, thorough=30000,
        rule="every operation, failing ones included, whose dataframe, arguments and results "
             "are then changed in all ways; all non-trivial"),
    Sub("inplace", check_inplace, lambda: s_case(INPLACE), quick=600, thorough=20000,
        rule="non-trivial if the operation changes something or fails"),
    Sub("assign", check_assign, s_assign, quick=200, thorough=3000,
        rule="assigned data changed afterwards; all non-trivial"),
    Sub("assign-failing", check_assign_bad, s_assign_bad, quick=200, thorough=3000,
        rule="assignments which fail; all non-trivial"),
]
ASSUMPTIONS = [
    "private attributes are not touched",
    "duplicate_msg='return' is not an append and is left out",
]
