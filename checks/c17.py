"""C17: a dataframe holds the same data whichever way it was constructed."""
import os
import random
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf import cal, framemodel as fm, frames as fr
from vf.core import Sub, require

from openscm.scmdataframe import ScmDataFrame


def labels(times, how):
    """Time labels in some representation, or None if it cannot express them."""
    f = [cal.fields(t) for t in times]
    years = all(x[1:6] == (1, 1, 0, 0, 0) for x in f)
    if how == "datetime":
        return [fr.to_dt(t) for t in times]
    if how == "timestamp":
        if not all(1700 < x[0] < 2250 for x in f):
            return None
        return [pd.Timestamp(fr.to_dt(t)) for t in times]
    if how == "text":
        return ["%04d-%02d-%02d %02d:%02d:%02d" % x[:6] for x in f]
    if how == "iso":
        return [cal.iso(t) for t in times]
    if how == "date":
        if any(x[3:6] != (0, 0, 0) for x in f):
            return None
        return ["%04d-%02d-%02d" % x[:3] for x in f]
    if how == "slash":
        if any(x[3:6] != (0, 0, 0) or x[0] < 1000 for x in f):
            return None
        return ["%04d/%02d/%02d" % x[:3] for x in f]
    if how in ("short", "words", "named"):
        if any(x[3:6] != (0, 0, 0) or x[0] < 1000 for x in f):
            return None
        if how == "short":
            return ["%d-%d-%d" % x[:3] for x in f]
        name = [fm.MONTHS[x[1] - 1].title() for x in f]
        if how == "named":
            return ["%s %d, %d" % (n, x[2], x[0]) for x, n in zip(f, name)]
        return ["%d %s %d" % (x[2], n[:3], x[0]) for x, n in zip(f, name)]
    if not years or f[0][0] < 100:
        return None
    if how == "year":
        return [x[0] for x in f]
    if how == "npyear":
        return [np.int64(x[0]) for x in f]
    if how == "float":
        return [float(x[0]) for x in f]
    if how == "yeartext":
        return ["%d" % x[0] for x in f]
    raise AssertionError(how)


HOWS = ["datetime", "timestamp", "text", "iso", "date", "slash", "year", "npyear", "float",
        "yeartext", "yeartext", "short", "words", "named"]
CASES = {"same": lambda c: c, "upper": str.upper, "title": str.title}


def respell(df, how, skip=()):
    """Column names in another case."""
    return df.rename(columns={c: CASES[how](c) for c in df.columns
                              if isinstance(c, str) and c not in skip})


def make(f, ctor, case, rec):
    """(arguments, function) of a way to construct the frame, or None."""
    rng = random.Random(case["shuffle"])
    labs = labels(f["times"], case["label"])
    if labs is None:
        labs = labels(f["times"], "datetime")
    else:
        rec.label(case["label"])
    order = list(range(len(f["times"])))
    if case["shuffle"]:
        rng.shuffle(order)
    g = {"cols": f["cols"], "times": [f["times"][i] for i in order],
         "rows": [{"meta": r["meta"], "values": [r["values"][i] for i in order]}
                  for r in f["rows"]]}
    labs = [labs[i] for i in order]
    if case["shuffle"]:
        rng.shuffle(g["rows"])
    cols = fr.REQUIRED + f["cols"]

    def mixed(df):
        if case["shuffle"]:
            df = df.sample(frac=1.0, random_state=case["shuffle"] % 1000)
            names = list(df.columns)
            rng.shuffle(names)
            df = df[names]
        if case["reindex"]:
            # row labels, also several rows of one label
            df.index = ["r%d" % (i * 7 % 101) for i in range(len(df))] if rng.random() < 0.5 \
                else [i // 2 for i in range(len(df))]
        return df

    lower = not any(c != c.lower() for c in f["cols"])
    if ctor == "array":
        data = np.array([[np.nan if v is None else v for v in r["values"]]
                         for r in f["rows"]]).T
        data = data[order]
        meta = {c: [r["meta"].get(c) for r in f["rows"]] for c in cols}
        for c in list(meta):
            if len(set(map(fr.canon, meta[c]))) == 1 and case["single"]:
                meta[c] = meta[c][0] if case["single"] == 1 else [meta[c][0]]
        if case["how"] == 0:
            args = [data, labs, meta]
        elif case["how"] == 1:
            args = [pd.DataFrame(data), labs, meta]
        elif case["how"] == 3:
            # the times come with the data
            args = [pd.DataFrame(data, index=labs), None, meta]
        else:
            args = [data.tolist(), np.array(labs) if not isinstance(labs[0], str) else labs,
                    meta]
        return args, lambda d, i, c: ScmDataFrame(d, index=i, columns=c)
    if ctor == "wide":
        df = mixed(fr.wide(g, labs))
        if lower:
            df = respell(df, case["case"], labs)
        return [df], ScmDataFrame
    if ctor == "wide index":
        df = fr.wide(g, labs).set_index(cols)
        if case["shuffle"]:
            names = list(cols)
            rng.shuffle(names)
            df = df.reorder_levels(names)
        return [df], ScmDataFrame
    if ctor in ("long", "series"):
        tname = "time" if case["how"] or not isinstance(labs[0], int) else "year"
        df = mixed(fr.long(g, labs, tname))
        if ctor == "long":
            if lower:
                df = respell(df, case["case"])
            return [df], ScmDataFrame
        names = [c for c in df.columns if c != "value"]
        return [df.set_index(names)["value"]], ScmDataFrame
    if ctor == "frame":
        return [fr.build(f)], ScmDataFrame
    if ctor == "pyam":
        from pyam import IamDataFrame

        if any(v is None for r in f["rows"] for v in r["meta"].values()) or not all(
                1700 < cal.fields(t)[0] < 2250 for t in f["times"]):
            return None
        if not lower:
            return None
        return [IamDataFrame(fr.long(f, None, "time"))], ScmDataFrame
    assert ctor in ("csv", "csv long", "excel")
    if not f["cols"] == [c for c in f["cols"] if c == c.lower()]:
        return None
    df = mixed(fr.long(g, labs, "time") if ctor == "csv long" else fr.wide(g, labs))
    df = respell(df, case["case"], labs)
    folder = tempfile.mkdtemp(prefix="vf-c17-")
    if ctor == "excel":
        path = os.path.join(folder, "x.xlsx")
        if any(hasattr(x, "year") for x in labs):
            df.columns = [str(c) for c in df.columns]
        with pd.ExcelWriter(path, engine="xlsxwriter",
                            options={"strings_to_numbers": False,
                                     "strings_to_formulas": False,
                                     "strings_to_urls": False}) as w:
            sheets = case.get("sheets", 0)
            if sheets:
                # other sheets hold other numbers
                decoy = df.copy()
                for c in decoy.columns:
                    if decoy[c].dtype == float:
                        decoy[c] = decoy[c] + 1.0
                names = [["first", "data"], ["data", "other"], ["a", "data", "c"],
                         ["data", "Data 2"], ["only"], ["x", "y"]][sheets - 1]
                real = ["data", "other", "data", "data", "only", "y"][sheets - 1]
                for name in names:
                    (df if name == real else decoy).to_excel(
                        w, name, index=False, startrow=2 if sheets == 6 else 0)
                read = [{}, {"sheet_name": "other"}, {}, {"sheet_name": 0}, {},
                        {"sheet_name": "y", "skiprows": 2}][sheets - 1]
                rec.label("sheets %s, %s" % (names, read))
                return [path], lambda p: ScmDataFrame(p, **read)
            if case["how"] == 2:
                pd.DataFrame({"other": [1]}).to_excel(w, "first", index=False)
                df.to_excel(w, "data", index=False)
            else:
                df.to_excel(w, "data", index=False)
    else:
        path = os.path.join(folder, "x.csv")
        if case["how"] == 3:
            # with options for the reader
            with open(path, "w", newline="") as fh:
                fh.write("# a comment; or two\n")
                df.to_csv(fh, index=False, sep=";")
            return [path], lambda p: ScmDataFrame(p, sep=";", skiprows=1)
        df.to_csv(path, index=False)
    return [path], ScmDataFrame


CTORS = ["array", "wide", "wide index", "long", "series", "frame", "pyam", "csv", "csv long"]


def build_one(f, ctor, case, rec):
    """Construct, checking that the arguments stay as they are."""
    made = make(f, ctor, case, rec)
    if made is None:
        return None
    args, fn = made
    before = [fr.snapshot(a) if not hasattr(a, "data") or isinstance(a, np.ndarray)
              else fr.snapshot(a.data) for a in args]
    try:
        df = fn(*args)
    finally:
        if isinstance(args[0], str):
            os.unlink(args[0])
            os.rmdir(os.path.dirname(args[0]))
    after = [fr.snapshot(a) if not hasattr(a, "data") or isinstance(a, np.ndarray)
             else fr.snapshot(a.data) for a in args]
    for x, y in zip(before, after):
        require(x == y, "constructing from %s modifies its argument: %s becomes %s", ctor,
                str(x)[:300], str(y)[:300])
    rec.label(ctor)
    return df


def lowered(f):
    """What construction from tables makes of the column names."""
    low = {c: c.lower() for c in f["cols"]}
    return dict(f, cols=[low[c] for c in f["cols"]], rows=[
        {"meta": {low.get(k, k): v for k, v in r["meta"].items()}, "values": r["values"]}
        for r in f["rows"]])


def check_construct(case, rec):
    f = case["frame"]
    for ctor in case["ctors"]:
        g = f
        if ctor in ("wide", "long"):
            g = lowered(f)
        df = build_one(f, ctor, case, rec)
        if df is None:
            rec.label("not expressible " + ctor)
            continue
        got, secs = fr.observe(df)
        want = fr.table(g)
        fr.compare(got, want, "from " + ctor, rel=1e-13 if ctor in (
            "csv", "csv long", "excel") else 0.0)
        require(secs == sorted(f["times"]), "from %s: times are %s, not %s", ctor, secs,
                f["times"])
        rec.nontrivial(len(f["rows"]) > 1 and len(f["times"]) > 1)
        # data and metadata are also linked for what uses the object
        pick = {c: f["rows"][0]["meta"][c] for c in fr.REQUIRED}
        if not any("*" in v for v in pick.values()):
            some, _ = fr.observe(df.filter(**pick))
            fr.compare(some, {k: v for k, v in want.items() if v and all(
                dict(k)[c] == fr.canon(x) for c, x in pick.items())},
                "selection from what was constructed from " + ctor, rel=1e-13)
        # the new object does not depend on the argument
    if case["again"]:
        again, _ = fr.observe(ScmDataFrame(df)) if df is not None else (None, None)
        if again is not None:
            fr.compare(again, got, "copy constructor")


def check_missing(case, rec):
    f = case["frame"]
    drop = case["drop"]
    rec.nontrivial(True)
    for ctor in ("wide", "long", "array", "wide index"):
        args, fn = make(f, ctor, case, rec)
        if ctor == "array":
            args[2] = {k: v for k, v in args[2].items() if k not in drop}
        elif ctor == "wide index":
            args[0].index = args[0].index.droplevel(
                [x for x in drop]) if len(drop) < 5 else pd.RangeIndex(len(args[0]))
        else:
            args[0] = args[0].drop(
                [c for c in args[0].columns if isinstance(c, str) and c.lower() in drop],
                axis=1)
        try:
            fn(*args)
        except ValueError as e:
            require("missing required columns" in str(e), "wrong error for missing %s: %r",
                    drop, e)
            continue
        require(False, "missing columns %s are accepted from %s", drop, ctor)


def check_refused(case, rec):
    """What is not a dataframe of timeseries is refused."""
    f, what = case["frame"], case["what"]
    k = case["k"]
    rec.nontrivial()
    rec.label(what)
    cols = fr.REQUIRED + f["cols"]
    errors = (ValueError,)
    if what in ("no times", "no values"):
        df = fr.wide(f, labels(f["times"], "datetime"))
        df = df[cols]
        if what == "no values":
            df = df.assign(time=labels(f["times"][:1] * len(df), "text"))
        args = [df.set_index(cols) if what == "no times" and k % 2 else df]
    elif what in ("two times", "long without time"):
        df = fr.long(f, labels(f["times"], "datetime"), "time")
        if what == "two times":
            df["year"] = [t.year for t in df["time"]]
        else:
            df = df.drop("time", axis=1)
        args = [df]
    elif what in ("length", "index"):
        data = np.array([[0.0 if v is None else v for v in r["values"]] for r in f["rows"]]).T
        meta = {c: [r["meta"].get(c) for r in f["rows"]] for c in cols}
        index = [fr.to_dt(t) for t in f["times"]]
        n = len(f["rows"])
        if what == "length":
            m = [x for x in (0, n + 1, n + 2, n - 1, 2 * n) if x not in (1, n)][k % 3]
            meta[cols[k % len(cols)]] = ["x%d" % i for i in range(m)]
        else:
            index = index + [fr.to_dt(max(f["times"]) + 86400)] if k % 2 or len(index) < 2 \
                else index[:-1]
        args = [data, index, meta]
    elif what == "files":
        args = [["a.csv", "b.csv"][: 1 + k % 2]]
    elif what == "type":
        args = [[None, 7, 1.5, {"a": 1}, np.array([[1.0, 2.0]]), (1, 2)][k % 6]]
        errors = (TypeError,)
    else:
        args = [["/nonexistent/x.csv", "/nonexistent/x.xlsx", "not a file", ""][k % 4]]
        errors = (OSError,)
    before = [fr.snapshot(a) if not isinstance(a, dict) else fr.snapshot(list(a.items()))
              for a in args if a is not None]
    try:
        res = ScmDataFrame(*args[:1], **dict(zip(("index", "columns"), args[1:])))
    except errors:
        after = [fr.snapshot(a) if not isinstance(a, dict) else fr.snapshot(list(a.items()))
                 for a in args if a is not None]
        require(before == after, "%s: the input is modified", what)
        return
    require(False, "%s (%s) is accepted: %s", what, str(args)[:200], fr.observe(res)[0])


@st.composite
def s_refused(draw):
    return {"frame": draw(fr.frame(lo=1, hi=4)), "k": draw(st.integers(0, 11)),
            "what": draw(st.sampled_from(["no times", "no values", "two times",
                                          "long without time", "length", "index", "files",
                                          "type", "path"]))}


# names that pandas' readers would turn into missing values are not text any more
@st.composite
def s_any(draw, ctors, words=None, wild=False, nan_meta=True):
    f = draw(fr.frame(words=words, wild=wild, nan_meta=nan_meta))
    return {"frame": f, "ctors": [draw(st.sampled_from(ctors))
                                  for _ in range(draw(st.integers(1, 2)))],
            "label": draw(st.sampled_from(
                [h for h in HOWS if labels(f["times"], h) is not None])),
            "case": draw(st.sampled_from(sorted(CASES))),
            "shuffle": draw(st.integers(0, 10**6)), "reindex": draw(st.booleans()),
            "single": draw(st.integers(0, 2)), "how": draw(st.integers(0, 3)),
            "again": draw(st.booleans())}


@st.composite
def s_sheets(draw):
    case = draw(s_any(["excel"], fr.SAFE))
    case["sheets"] = draw(st.integers(1, 6))
    return case


@st.composite
def s_missing(draw):
    case = draw(s_any(["wide"], nan_meta=False))
    case["drop"] = sorted(draw(st.sets(st.sampled_from(fr.REQUIRED), min_size=1, max_size=4)))
    return case


RULE = "; non-trivial if there are several series and times"
SUBS = [
    Sub("memory", check_construct, lambda: s_any(CTORS[:7], wild=True),
        quick=2500, thorough=60000,
        rule="a random frame through in-memory constructors, in any time representation, "
             "order of rows and columns, case of names" + RULE),
    Sub("files", check_construct, lambda: s_any(["csv", "csv", "csv long", "excel"], fr.SAFE),
        quick=700, thorough=15000, rule="a random frame through CSV and Excel files" + RULE),
    Sub("sheets", check_construct, s_sheets, quick=150, thorough=4000,
        rule="a random frame in an Excel file of several sheets, the others of which hold other "
             "numbers" + RULE),
    Sub("missing", check_missing, s_missing, quick=100, thorough=2000,
        rule="required columns removed; all non-trivial"),
    Sub("refused", check_refused, s_refused, quick=250, thorough=4000,
        rule="inputs without times, with two kinds of them, of wrong lengths, types or paths "
             "are refused; all non-trivial"),
]
ASSUMPTIONS = [
    "texts in files are such that pandas' reader leaves them texts",
    "values read from files are compared to 1e-13 relative",
]
