"""C34: operations treat every series alike, whatever its place, names, company and century."""
import copy
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf import cal, frames as fr
from vf.core import Sub, require

CYCLE = 400  # years after which the calendar, weekdays included, repeats
SECONDS = 146097 * cal.DAY
REL = 1e-9


def failure(e):
    """Whether an exception is one the code under test may raise."""
    return isinstance(e, (ValueError, TypeError, KeyError, IndexError)) or type(e).__module__.startswith(
        ("openscm", "pint"))


def argument(times, how):
    ts = [fr.to_dt(t) for t in times]
    return [ts, np.array(times).astype("datetime64[s]"), np.array(ts, dtype=object)][how % 3]


def apply(df, f, step, shift):
    """One step on a dataframe; ``shift`` years have been added to its times."""
    op = step["op"]
    lo, hi = f["times"][0], f["times"][-1]
    if op == "filter":
        kw = dict(step["cols"])
        for k, v in step["when"].items():
            if k == "year":
                kw[k] = [y + shift for y in v]
            elif k == "time":
                kw[k] = [fr.to_dt(t + shift // CYCLE * SECONDS) for t in v]
            else:
                kw[k] = v
        return df.filter(keep=step["keep"], **kw)
    if op == "convert":
        return df.convert_unit(step["unit"], **step["cols"])
    if op == "rename":
        return df.rename({"scenario": dict(step["names"])})
    if op == "set":
        df = df.copy()
        df.set_meta(step["value"], name=step["name"])
        return df
    if op == "interpolate":
        ts = sorted({lo + (hi - lo) * k // 12 for k in step["points"]})
        return df.interpolate(argument(ts, step["how"]), extrapolation_type=step["ext"])
    if op == "resample":
        return df.resample(step["rule"])
    if op == "reference":
        kw = dict(step["when"])
        if "year" in kw:
            kw["year"] = [y + shift for y in kw["year"]]
        return df.relative_to_ref_period_mean(**kw)
    if op == "append":
        other = copy.deepcopy(f)
        other["rows"] = [r for i, r in enumerate(other["rows"]) if i % 2 == step["odd"] or
                         len(other["rows"]) == 1]
        for r in other["rows"]:
            if step["form"] == "other":
                r["meta"]["scenario"] += " other"
            elif step["form"] == "column":
                r["meta"]["further"] = "entry"
            r["values"] = [None if v is None else v * 0.5 for v in r["values"]]
        if step["form"] == "column":
            other["cols"] = other["cols"] + ["further"]
        elif step["form"] == "later":
            other["times"] = [t + hi - lo for t in other["times"]]
        return df.append(fr.build(other), duplicate_msg=False)
    assert False, op


def history(f, steps, shift=0):
    """(table, error) after the steps; stops when nothing is left."""
    df = fr.build(f)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for step in steps:
            try:
                df = apply(df, f, step, shift)
            except Exception as e:  # pylint: disable=broad-except
                if not failure(e):
                    raise
                return None, e
            if isinstance(df, pd.DataFrame) or not len(df) or not len(df.time_points):
                break
        if isinstance(df, pd.DataFrame):
            # anomalies come as plain tables
            rows = [dict(zip(df.index.names, k)) for k in df.index]
            times = [fr.to_sec(t) for t in df.columns]
            values = df.values
        else:
            rows = fr.meta_rows(df)
            try:
                values = df.values
            except ValueError as e:
                # series have become the same (appended, then changed)
                return None, e
            times = df.time_points.astype("datetime64[s]").astype("int64").tolist()
        table = {}
        for row, vals in zip(rows, values):
            # (the reference period is part of the name)
            k = fr.key(dict(row, variable=row["variable"].split(" (ref. period")[0]))
            require(k not in table, "series %s appears twice", k)
            table[k] = {t: float(v) for t, v in zip(times, vals) if v == v}
        return table, None


# ------------------------------------------------------------------------ transformations


def permuted(f, case):
    g = copy.deepcopy(f)
    order = sorted(range(len(g["rows"])), key=lambda i: (case["order"][i % 6], i))
    g["rows"] = [g["rows"][i] for i in order]
    if case["order"][0] % 2:
        g["cols"] = g["cols"][::-1]
    return g, order != sorted(order)


def other_name(name, way):
    """Names for names, one to one, that sort in another order or look like something else."""
    if way == 0:
        return "".join(chr(0x17F - ord(c)) if ord(c) < 0x100 else c for c in name)
    if way == 1:
        return "(%s) x|y*" % name
    if way == 2:
        return " ".join(str(ord(c)) for c in name)
    return {"a": "b", "b": "a", "World": "c", "c": "World"}.get(name, name)


def relabelled(f, way):
    g = copy.deepcopy(f)
    for r in g["rows"]:
        for c in ("model", "note"):
            if isinstance(r["meta"].get(c), str):
                r["meta"][c] = other_name(r["meta"][c], way)
    return g


def rename_keys(table, way):
    return {fr.key({c: other_name(v, way) if c in ("model", "note") and isinstance(v, str)
                    else v for c, v in k}): vals for k, vals in table.items()}


def same(a, b, what, scale):
    """Outcomes agree."""
    (x, e), (y, g) = a, b
    require((e is None) == (g is None), "%s: outcome is %r, not %r", what,
            y if g is None else g, x if e is None else e)
    if e is None:
        fr.compare(y, x, what, rel=REL, scale=scale)


def check(case, rec):
    f, steps, kind = case["frame"], case["steps"], case["kind"]
    base = history(f, steps)
    rec.label(kind)
    for s in steps:
        rec.label(s["op"])
    if base[1] is not None:
        rec.label("fails")
    scale = max([abs(v) for r in f["rows"] for v in r["values"] if v is not None] + [0.0])
    scale *= 1000.0  # to the smaller unit
    rec.nontrivial(base[1] is None and bool(base[0]) and len(f["rows"]) > 1)
    if kind == "order":
        g, _ = permuted(f, case)
        if any(s["op"] == "append" for s in steps):
            # what is appended is picked by place
            g["rows"] = f["rows"]
        same(base, history(g, steps), "in another order", scale)
    elif kind == "names":
        way = case["order"][1] % 4
        got = history(relabelled(f, way), steps)
        want = base if base[1] is not None else (rename_keys(base[0], way), None)
        same(want, got, "with other names", scale)
    elif kind == "century":
        k = case["order"][2] % 4 - 1
        k = 2 if k == 0 else k
        g = copy.deepcopy(f)
        g["times"] = [t + k * SECONDS for t in g["times"]]
        x, e = history(g, steps, shift=k * CYCLE)
        if e is None:
            x = {key: {t - k * SECONDS: v for t, v in vals.items()} for key, vals in x.items()}
        same(base, (x, e), "%d years away" % (k * CYCLE), scale)
    elif kind == "values":
        m = [2.0, 0.5, -1.0, 1024.0][case["order"][3] % 4]
        g = copy.deepcopy(f)
        for r in g["rows"]:
            r["values"] = [None if v is None else v * m for v in r["values"]]
        x, e = history(g, steps)
        if e is None:
            x = {key: {t: v / m for t, v in vals.items()} for key, vals in x.items()}
        same(base, (x, e), "values times %g" % m, scale)
    else:
        # the results of every series alone are the results of all together
        union, errors = {}, []
        for r in f["rows"]:
            x, e = history(dict(f, rows=[r]), steps)
            if e is not None:
                errors.append(e)
            else:
                for k, v in x.items():
                    require(k not in union, "harness: %s twice", k)
                    union[k] = v
        if errors:
            require(base[1] is not None, "alone a series fails with %r, together %r", errors[0],
                    base[0])
        else:
            same((union, None), base, "together", scale)


# ----------------------------------------------------------------------------- generation

OPS = ["filter", "filter", "convert", "rename", "set", "interpolate", "resample", "reference",
       "append"]
RULES = ["AS", "A", "MS", "M", "QS", "D", "5AS", "2MS"]


@st.composite
def s_when(draw, f):
    t = draw(st.sampled_from(f["times"]))
    y, m, d, h = cal.fields(t)[:4]
    kind = draw(st.sampled_from(["none", "year", "year", "month", "day", "weekday", "hour",
                                 "time"]))
    if kind == "year":
        return {"year": sorted({y, y + draw(st.integers(-2, 2))})}
    if kind == "month":
        return {"month": [m, draw(st.integers(1, 12))]}
    if kind == "day":
        return {"day": [d]}
    if kind == "weekday":
        return {"day": [draw(st.sampled_from(["Mon", "Tue-Thu", "Fri", "Sat-Sun"]))]}
    if kind == "hour":
        return {"hour": [h]}
    if kind == "time":
        return {"time": draw(st.lists(st.sampled_from(f["times"]), min_size=1, max_size=3,
                                      unique=True))}
    return {}


@st.composite
def s_step(draw, f, ops):
    op = draw(st.sampled_from(ops))
    row = draw(st.sampled_from(f["rows"]))["meta"]
    pick = draw(st.sampled_from(["scenario", "region", "variable", "unit"]))
    value = row[pick]
    pattern = draw(st.sampled_from([value, value[:1] + "*", "*" + value[-1:], [value, "b"]]))
    cols = draw(st.sampled_from([{}, {pick: pattern}, {pick: pattern}]))
    if op == "filter":
        if draw(st.integers(0, 4)) == 0:
            cols = dict(cols, level=draw(st.sampled_from([0, 1, "0+", "1-"])))
        return {"op": op, "cols": cols, "when": draw(s_when(f)), "keep": draw(st.booleans())}
    if op == "convert":
        cols.pop("unit", None)
        return {"op": op, "cols": cols, "unit": draw(st.sampled_from(
            ["mK", "K", "kg", "GtC/yr", "Mt C / yr"]))}
    if op == "rename":
        names = sorted({r["meta"]["scenario"] for r in f["rows"]})
        return {"op": op, "names": {n: draw(st.sampled_from(["z %d" % i, "%d" % i]))
                                    for i, n in enumerate(names)}}
    if op == "set":
        return {"op": op, "name": draw(st.sampled_from(["mark", "tag"])),
                "value": draw(st.sampled_from(["constant", 1, 2.5]))}
    if op == "interpolate":
        return {"op": op, "points": draw(st.lists(st.integers(-3, 15), min_size=2, max_size=6,
                                                  unique=True)),
                "how": draw(st.integers(0, 2)),
                "ext": draw(st.sampled_from(["none", "constant", "linear"]))}
    if op == "resample":
        span = f["times"][-1] - f["times"][0]
        return {"op": op, "rule": draw(st.sampled_from(
            RULES if span < 400 * cal.DAY else [r for r in RULES if r[-1] != "D"]
            if span < 4000 * cal.DAY else ["AS", "A", "5AS"]))}
    if op == "reference":
        when = draw(s_when(f))
        if "time" in when or "hour" in when:
            when = {"month": [1, 6]}
        return {"op": op, "when": when}
    return {"op": op, "odd": draw(st.integers(0, 1)),
            "form": draw(st.sampled_from(["same", "other", "column", "later"]))}


@st.composite
def s_case(draw, kind):
    alone = kind == "alone"
    f = draw(fr.frame(lo=2, hi=5, time_strategy=st.one_of(
        fr.times(3, 6, kinds=["months", "days", "dates", "years", "decades", "any"], ns=True),
        fr.times(3, 6, kinds=["years", "years", "months", "dates"], ns=True)),
        words=["a", "b", "World", "c", "a b"], extra=["note", "weight", "ensemble"],
        units=draw(st.sampled_from([["K", "mK", "K", "GtC/yr"], ["wibbles", "wibbles", "K"]])),
        nan_values=not alone, nan_meta=not alone,
        variables=["T", "T|a", "Emissions|CO2", "x|y|z"]))
    seen = set()
    for i, r in enumerate(f["rows"]):
        # series stay different in any unit and with any note
        k = tuple(r["meta"][c] for c in fr.REQUIRED if c != "unit")
        if k in seen:
            r["meta"]["scenario"] += " %d." % i
        seen.add(k)
    ops = [o for o in OPS if not (alone and o == "append")]
    n = draw(st.integers(1, 3))
    steps = []
    for _ in range(n):
        step = draw(s_step(f, ops))
        if alone and step["op"] == "filter" and not step["keep"] and step["cols"]:
            # (which would leave holes in some series)
            step["when"] = {}
        steps.append(step)
        if step["op"] == "reference":
            break
        if step["op"] == "append":
            ops = [o for o in ops if o not in ("append", "rename")]
    return {"frame": f, "kind": kind, "steps": steps,
            "order": draw(st.lists(st.integers(0, 99), min_size=6, max_size=6))}


def sub(kind, quick, thorough, rule):
    return Sub(kind, check, lambda: s_case(kind), quick=quick, thorough=thorough, rule=rule)


SUBS = [
    sub("order", 300, 10000, "series and columns in another order; non-trivial if several "
        "series and something is left"),
    sub("names", 300, 10000, "other values in columns the operations do not use"),
    sub("century", 300, 10000, "400, 800 years away (the calendar repeats)"),
    sub("values", 300, 10000, "values multiplied by a constant"),
    sub("alone", 300, 10000, "every series alone against all together"),
]
ASSUMPTIONS = [
    "which of several errors is raised is not compared",
    "rows of a dataframe are a set; their order is not compared",
]
