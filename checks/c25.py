"""C25: group statistics and reference-period anomalies are computed per series group."""
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from checks import c20
from vf import cal, framemodel as fm, frames as fr
from vf.core import Sub, require


def mean(vals, _q):
    return float(sum(F(v) for v in vals) / len(vals))


def quantile(vals, q):
    """Linear interpolation between the sorted values."""
    vals = sorted(vals)
    pos = F(q) * (len(vals) - 1)
    i = int(pos)
    if i >= len(vals) - 1:
        return vals[-1]
    return float(F(vals[i]) + (F(vals[i + 1]) - F(vals[i])) * (pos - i))


def median(vals, _q):
    return quantile(vals, 0.5)


OPS = {"mean": mean, "median": median, "quantile": quantile}


def table_of(df):
    """(index names, {key: {seconds: value}}) of a result table."""
    names = list(df.index.names)
    res = {}
    for label, row in zip(df.index, df.values):
        label = label if isinstance(label, tuple) else (label,)
        k = fr.key(dict(zip(names, label)))
        require(k not in res, "group %s occurs twice", k)
        res[k] = {fr.to_sec(t): float(v) for t, v in zip(df.columns, row)
                  if not math.isnan(v)}
    return names, res


def check_process(case, rec):
    f = case["frame"]
    df = fr.build(f)
    first = f["rows"][0]["meta"]["model"]
    others = [r for r in f["rows"] if r["meta"]["model"] != first]
    if case["drop"] and others and "*" not in first:
        df = df.filter(model=first, keep=False)
        f = dict(f, rows=others)
    cols = case["cols"]
    before = fr.snapshot(df)
    rest = [c for c in fr.REQUIRED + f["cols"] if c not in cols]
    groups = {}
    for r in f["rows"]:
        g = groups.setdefault(fr.key({c: r["meta"].get(c) for c in rest}), {})
        for t, v in zip(f["times"], r["values"]):
            if v is not None:
                g.setdefault(t, []).append(float(v))
    kw = {"q": case["q"]} if case["op"] == "quantile" and case["q"] is not None else {}
    q = case["q"] if case["q"] is not None else 0.5
    arg = cols[0] if len(cols) == 1 and case["single"] else (
        tuple(cols) if case["single"] else list(cols))
    kept = repr(arg)
    res = df.process_over(arg, case["op"], **kw)
    require(repr(arg) == kept, "column list modified")
    require(fr.snapshot(df) == before, "process_over modifies the dataframe")
    what = "%s over %s" % (case["op"], cols)
    names, got = table_of(res)
    require(sorted(names) == sorted(rest), "%s: grouped by %s, not %s", what, names, rest)
    require(set(got) == set(groups), "%s: unexpected groups %s, missing groups %s", what,
            [k for k in got if k not in groups][:3], [k for k in groups if k not in got][:3])
    sizes = [len(v) for g in groups.values() for v in g.values()]
    rec.nontrivial(max(sizes) > 1 and len(groups) > 1)
    rec.label(case["op"])
    if any(v is None for k in groups for _, v in k):
        rec.label("missing metadata")
    times = {fr.to_sec(t) for t in res.columns}
    require({t for g in groups.values() for t in g} <= times, "%s: times are %s", what, times)
    for k, g in groups.items():
        require(set(got[k]) == set(g), "%s: %s has values at %s, not %s", what, k,
                sorted(got[k]), sorted(g))
        for t, vals in g.items():
            want = OPS[case["op"]](vals, q)
            tol = 1e-12 * max(map(abs, vals))
            require(abs(got[k][t] - want) <= tol, "%s: %s at %s is %r, not %r of %s", what, k,
                    cal.iso(t), got[k][t], want, vals)


def check_unknown(case, rec):
    df = fr.build(case["frame"])
    before = fr.snapshot(df)
    rec.nontrivial()
    try:
        df.process_over("scenario", case["op"])
    except ValueError:
        require(fr.snapshot(df) == before, "process_over modifies the dataframe")
        return
    require(False, "operation %r accepted", case["op"])


@st.composite
def s_process(draw):
    n = draw(st.integers(2, 10))
    words = draw(st.lists(st.sampled_from(fr.WORDS), min_size=1, max_size=2, unique=True))
    f = draw(fr.frame(lo=n, hi=n, time_strategy=fr.times(hi=4), words=words,
                      variables=["v", "w", "v|x"], units=["K", "kg"]))
    for i, r in enumerate(f["rows"]):
        r["meta"]["run"] = i % draw(st.sampled_from([3, 100]))
        r["meta"]["scenario"] = draw(st.sampled_from(words))
    f["cols"] = sorted(set(f["cols"]) | {"run"})
    # metadata stay unique
    rows, seen = [], set()
    for r in f["rows"]:
        k = fr.key({c: r["meta"].get(c) for c in fr.REQUIRED + f["cols"]})
        if k not in seen:
            seen.add(k)
            rows.append(r)
    f["rows"] = rows
    used = [j for j in range(len(f["times"])) if any(r["values"][j] is not None for r in rows)]
    f["times"] = [f["times"][j] for j in used]
    for r in rows:
        r["values"] = [r["values"][j] for j in used]
    pool = fr.REQUIRED + f["cols"] + ["no such column"]
    cols = draw(st.lists(st.sampled_from(pool), min_size=0, max_size=len(pool) - 2,
                         unique=True))
    if draw(st.booleans()) and "run" not in cols:
        cols = ["run"] + cols[:draw(st.integers(0, 3))]
    if not cols:
        cols = ["run"]
    if draw(st.integers(0, 3)) == 0:
        # names which are part of other names
        cols = [draw(st.sampled_from([c for c in pool if any(
            o != c and o in c for o in pool)] or ["model", "unit"]))]
    return {"frame": f, "cols": cols, "op": draw(st.sampled_from(sorted(OPS))),
            "q": draw(st.none() | st.sampled_from([0, 0.05, 0.17, 0.25, 0.5, 0.9, 1.0, 1])
                      | st.floats(0, 1)),
            "single": draw(st.booleans()), "drop": draw(st.integers(0, 5)) == 0}


def check_reference(case, rec):
    f = case["frame"]
    df = fr.build(f)
    before = fr.snapshot(df)
    args = c20.arguments(case["filters"], {"many": case["form"], "dt": case["dt"]})
    if case["ranges"]:
        # as people write it
        args = {k: range(v[0], v[-1] + 1) if k in ("year", "month", "day", "hour") and isinstance(
            v, (list, tuple)) and v and all(isinstance(x, int) for x in v)
            and list(v) == list(range(v[0], v[-1] + 1)) else v for k, v in args.items()}
    kept = repr(args)
    text = case["append"]
    res = df.relative_to_ref_period_mean(**dict(args, **(
        {"append_str": text} if text is not None else {})))
    require(repr(args) == kept, "filter values modified")
    require(fr.snapshot(df) == before, "relative_to_ref_period_mean modifies the dataframe")
    if text is None:
        text = "(ref. period %s)" % ";".join(
            "%s: %s - %s" % ((k, v[0], v[-1]) if isinstance(v, (list, tuple, range)) else
                             (k, v, v)) for k, v in args.items())
    table = fr.table(f)
    chosen = fm.select(table, case["filters"])
    names, got = table_of(res)
    what = "relative to %s" % (args,)
    require(names == fr.REQUIRED + f["cols"], "%s: index names are %s", what, names)
    want = {}
    for k, vals in table.items():
        meta = dict(k)
        meta["variable"] = "%s %s" % (meta["variable"], text)
        want[fr.key(meta)] = (vals, chosen.get(k))
    require(set(got) == set(want), "%s: unexpected series %s, missing %s", what,
            [k for k in got if k not in want][:2], [k for k in want if k not in got][:2])
    for k, (vals, ref) in want.items():
        if not ref:
            rec.label("no reference")
            require(not got[k], "%s: %s has values %s without any reference", what, k, got[k])
            continue
        rec.label("partial reference" if len(ref) < len(vals) else "all are reference")
        rec.nontrivial(len(ref) < len(vals) or len(vals) > 1)
        base = float(sum(F(v) for v in ref.values()) / len(ref))
        tol = 1e-12 * max(map(abs, list(vals.values())))
        require(set(got[k]) == set(vals), "%s: %s has values at %s", what, k, sorted(got[k]))
        for t, v in vals.items():
            require(abs(got[k][t] - (v - base)) <= tol, "%s: %s at %s is %r, not %r", what, k,
                    cal.iso(t), got[k][t], v - base)
        zero = sum(F(got[k][t]) for t in ref) / len(ref)
        require(abs(zero) <= tol, "%s: %s averages to %r over the period", what, k, float(zero))


@st.composite
def s_reference(draw):
    f = draw(fr.frame(hi=5, time_strategy=c20.s_times(), words=["a", "b", "x y"]))
    filters = draw(c20.s_time_filters(f["times"]))
    text = draw(st.sampled_from([None, None, "rel. to x", "", "a|b"]))
    for k, v in filters.items():
        if text is None and v == []:
            # the automatic text needs something with a first and last entry
            filters[k] = {"year": 2000, "hour": 0, "time": f["times"][0]}.get(k, 1)
    if "year" in filters and draw(st.booleans()):
        ys = [cal.fields(t)[0] for t in f["times"]]
        a = draw(st.sampled_from(ys))
        filters["year"] = list(range(a, min(max(ys), a + 50) + 1))
    return {"frame": f, "filters": filters, "append": text,
            "form": draw(st.sampled_from(["list", "tuple"])),
            "dt": draw(st.sampled_from(["datetime", "numpy"])), "ranges": draw(st.booleans())}


@st.composite
def s_unknown(draw):
    return {"frame": draw(fr.frame(hi=2)), "op": draw(st.sampled_from(
        ["junk", "sum", "Mean", "std", "", "max", "quantiles"]))}


SUBS = [
    Sub("process_over", check_process, s_process, quick=1200, thorough=40000,
        rule="up to 10 series, missing metadata and values included, over any columns; "
             "non-trivial with several groups of which one has several series"),
    Sub("reference", check_reference, s_reference, quick=700, thorough=25000,
        rule="any combination of time filters as reference period; non-trivial if a "
             "reference exists and the series has several values"),
    Sub("unknown-operation", check_unknown, s_unknown, quick=30, thorough=300,
        rule="other operations are refused; all non-trivial"),
]
ASSUMPTIONS = [
    "results are compared to 1e-12 of the largest value involved",
    "quantiles interpolate linearly, as documented by pandas",
]
