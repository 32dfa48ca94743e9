"""C21: appending unions series and averages true duplicates only."""
import os
import tempfile
import warnings

from hypothesis import strategies as st

from vf import frames as fr
from vf.core import Sub, require

from openscm.scmdataframe import ScmDataFrame, df_append

EXTRA = ["climate_model", "ensemble", "note", "run", "weight"]
WORDS = ["a", "b", "World", "-999", "999", "a*", "é", "x y"]
TEXTS = ["a", "b", "World", "a*", "é", "x y"]


@st.composite
def s_frames(draw, lo=2, hi=4, disjoint=False):
    """Frames drawn from a common pool of times and metadata."""
    pool = draw(fr.times(1, 6))
    forms = [draw(st.sampled_from(["scm", "scm", "scm", "wide", "long", "series", "csv"]))
             for _ in range(draw(st.integers(lo, hi)))]
    words = draw(st.lists(st.sampled_from(TEXTS if "csv" in forms else WORDS), min_size=1,
                          max_size=2, unique=True))
    nums = draw(st.lists(fr.NUMBERS["int"], min_size=1, max_size=2))
    names = draw(st.lists(st.sampled_from(EXTRA), max_size=3, unique=True))
    variables = draw(st.sampled_from([["v"], ["v", "w"], ["v", "w", "v|x"]]))
    taken = set()
    res = []
    for form in forms:
        cols = sorted(c for c in names if draw(st.integers(0, 3)))
        ts = sorted(draw(st.sets(st.sampled_from(pool), min_size=1, max_size=len(pool))))
        rows, seen = [], set()
        for _ in range(draw(st.integers(1, 4))):
            meta = {"model": draw(st.sampled_from(words)), "scenario": "s", "region": "World",
                    "variable": draw(st.sampled_from(variables)),
                    "unit": draw(st.sampled_from(["K", "K", "kg"]))}
            for c in cols:
                v = draw(st.sampled_from(words if fr.EXTRA[c] == "text" else nums))
                meta[c] = None if draw(st.integers(0, 2)) == 0 else v
            full = fr.key({c: meta.get(c) for c in fr.REQUIRED + names})
            if full in seen:
                continue
            seen.add(full)
            vals = [draw(fr.VALUE) if draw(st.integers(0, 4)) else None for _ in ts]
            if disjoint:
                vals = [None if (full, t) in taken else v for t, v in zip(ts, vals)]
            if all(v is None for v in vals):
                continue
            taken.update((full, t) for t, v in zip(ts, vals) if v is not None)
            rows.append({"meta": meta, "values": vals})
        used = [i for i in range(len(ts)) if any(r["values"][i] is not None for r in rows)]
        if not rows:
            continue
        for r in rows:
            r["values"] = [r["values"][i] for i in used]
        res.append({"form": form, "frame": {"times": [ts[i] for i in used], "cols": cols,
                                            "rows": rows}})
    if not res:
        res.append({"form": "scm", "frame": draw(fr.frame(hi=2, extra=[]))})
    return res


def union(items, cols):
    """Reference: every value any input gives, by series and time."""
    res = {}
    for it in items:
        f = it["frame"]
        for r in f["rows"]:
            series = res.setdefault(fr.key({c: r["meta"].get(c) for c in cols}), {})
            for t, v in zip(f["times"], r["values"]):
                if v is not None:
                    series.setdefault(t, []).append(v)
    return res


def mean_table(u):
    return {k: {t: sum(v) / len(v) for t, v in s.items()} for k, s in u.items()}


def magnitude(u):
    return max([abs(x) for s in u.values() for v in s.values() for x in v] + [0.0])


def make(item):
    """The real input."""
    f, form = item["frame"], item["form"]
    if form == "scm":
        return fr.build(f)
    if form == "wide":
        return fr.wide(f)
    df = fr.long(f)
    if form == "long":
        return df
    if form == "series":
        return df.set_index([c for c in df.columns if c != "value"])["value"]
    fd, path = tempfile.mkstemp(prefix="vf-c21-", suffix=".csv")
    os.close(fd)
    df.to_csv(path, index=False)
    return path


def all_columns(items):
    return fr.REQUIRED + sorted({c for it in items for c in it["frame"]["cols"]})


def judge(df, u, cols, what, rel=0.0):
    """Compare a result with the reference."""
    got, secs = fr.observe(df)
    require(list(df.meta.columns) == cols, "%s: columns are %s, not %s", what,
            list(df.meta.columns), cols)
    single = all(len(v) == 1 for s in u.values() for v in s.values())
    fr.compare(got, mean_table(u), what, rel=rel if single else 1e-12, scale=magnitude(u))
    require(secs == sorted({t for s in u.values() for t in s}), "%s: times are %s", what, secs)


def same(a, b):
    """Equal values, up to what reading from a file does."""
    return set(a) == set(b) and all(abs(a[t] - b[t]) <= 1e-13 * abs(b[t]) for t in b)


def joint_table(res, items, cols, what):
    """The table returned on request holds every input series."""
    want, got = [], []
    for it in items:
        f = it["frame"]
        for r in f["rows"]:
            meta = {c: fr.canon(r["meta"].get(c)) for c in cols}
            missing = tuple(c for c in cols if meta[c] is None)
            vals = {t: v for t, v in zip(f["times"], r["values"])
                    if v is not None}
            want.append((meta, missing, vals))
    require(sorted(res.index.names) == sorted(cols), "%s: levels are %s", what, res.index.names)
    for label, row in zip(res.index, res.values):
        got.append((dict(zip(res.index.names, map(fr.canon, label))),
                    {fr.to_sec(t): float(v) for t, v in zip(res.columns, row) if v == v}))
    require(len(got) == len(want), "%s: joint table has %d rows, not %d", what, len(got),
            len(want))
    rest = list(got)
    for meta, missing, vals in want:
        hits = [g for g in rest if same(g[1], vals) and all(
            g[0][c] == meta[c] for c in cols if c not in missing)]
        require(hits, "%s: joint table lacks %s with %s", what, meta, vals)
        rest.remove(hits[0])


def check_append(case, rec):
    items = case["frames"]
    real = [make(it) for it in items]
    paths = [p for p in real if isinstance(p, str)]
    try:
        run_append(case, rec, items, real)
    finally:
        for p in paths:
            os.unlink(p)


def run_append(case, rec, items, real):
    if case["own"] and isinstance(real[0], ScmDataFrame):
        # the same object twice
        items, real = items + [items[0]], real + [real[0]]
    cols = all_columns(items)
    u = union(items, cols)
    dup = any(len(v) > 1 for s in u.values() for v in s.values())
    rec.label("duplicates" if dup else "no duplicates")
    rec.nontrivial(len(items) > 1)
    msg = case["msg"]
    inplace = case["inplace"] and isinstance(real[0], ScmDataFrame)
    before = [fr.snapshot(r) for r in real]

    def call():
        if case["method"] and len(real) == 2 and isinstance(real[0], ScmDataFrame):
            rec.label("method")
            return real[0].append(real[1], inplace=inplace, duplicate_msg=msg)
        return df_append(real, inplace=inplace, duplicate_msg=msg)

    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            res = call()
            error = None
        except ValueError as e:
            error = e
    told = [w for w in caught if "Duplicate time points" in str(w.message)]
    what = "append %s" % [it["form"] for it in items]
    rec.label("mode %s" % msg)
    changed = 0 if inplace and error is None and not (dup and msg == "return") else None
    for i, r in enumerate(real):
        if i != changed and r is not (real[0] if changed == 0 else None):
            require(fr.snapshot(r) == before[i], "%s modifies input %d", what, i)
    if dup and msg not in ("warn", "return", False):
        require(error is not None, "%s: duplicate_msg=%r accepted", what, msg)
        return
    require(error is None, "%s: %r", what, error)
    require(bool(told) == (dup and msg == "warn"), "%s with %s: %d duplicate warnings", what,
            "duplicates" if dup else "no duplicates", len(told))
    if dup and msg == "return":
        joint_table(res, items, cols, what)
        return
    if inplace:
        require(res is None, "in-place append returns something")
        res = real[0]
    # pandas reads some numbers from files with a small error
    rel = 1e-13 if any(it["form"] == "csv" for it in items) else 0.0
    judge(res, u, cols, what, rel)
    if case["then"] is not None and len(items) > 1:
        # the result can be appended to like any other
        more = items[case["then"] % len(items)]
        again = df_append([res, make(dict(more, form="scm"))], duplicate_msg=False)
        flat = {k: {t: [v] for t, v in s.items()} for k, s in mean_table(u).items()}
        for k, s in union([more], cols).items():
            for t, v in s.items():
                flat[k].setdefault(t, []).extend(v)
        judge(again, flat, cols, what + ", appended to again", rel)


@st.composite
def s_append(draw, disjoint=False):
    return {"frames": draw(s_frames(disjoint=disjoint, lo=draw(st.integers(1, 2)))),
            "inplace": draw(st.booleans()),
            "msg": draw(st.sampled_from(["warn", False, "return", "warn", False, "other"])),
            "method": draw(st.booleans()), "own": draw(st.integers(0, 9)) == 0,
            "then": draw(st.none() | st.integers(0, 3))}


def check_laws(case, rec):
    """Without duplicates, neither order nor grouping matters."""
    items = case["frames"]
    cols = all_columns(items)
    u = union(items, cols)
    require(all(len(v) == 1 for s in u.values() for v in s.values()), "generator")
    rec.nontrivial(len(items) > 2)

    def put(tree):
        if isinstance(tree, int):
            return make(items[tree])
        parts = [put(x) for x in tree]
        if case["method"] and isinstance(parts[0], ScmDataFrame):
            res = parts[0]
            for p in parts[1:]:
                res = res.append(p)
            return res
        return df_append(parts)

    for tree in case["trees"]:
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            warnings.filterwarnings("ignore", category=DeprecationWarning)
            warnings.filterwarnings("ignore", category=FutureWarning)
            judge(put(tree), u, cols, "append grouped as %s" % (tree,))


@st.composite
def s_tree(draw, items):
    """A bracketing of items."""
    if len(items) == 1:
        return items[0] if draw(st.booleans()) else [items[0]]
    k = draw(st.integers(1, len(items) - 1))
    if draw(st.booleans()):
        return [draw(s_tree(items[:k])), draw(s_tree(items[k:]))]
    return list(items)


@st.composite
def s_laws(draw):
    items = draw(s_frames(lo=3, disjoint=True))
    for it in items:
        if it["form"] == "csv":
            it["form"] = "scm"
    trees = []
    for _ in range(2):
        order = draw(st.permutations(list(range(len(items)))))
        tree = draw(s_tree(order))
        trees.append(tree if isinstance(tree, list) else [tree])
    return {"frames": items, "trees": trees, "method": draw(st.booleans())}


SUBS = [
    Sub("append", check_append, s_append, quick=550, thorough=30000,
        rule="frames with overlapping metadata, times and columns, appended by function or "
             "method, in place or not, in every duplicate mode, from several forms; "
             "non-trivial with two or more inputs"),
    Sub("laws", check_laws, s_laws, quick=200, thorough=10000,
        rule="frames without duplicate values, appended in random orders and groupings; "
             "non-trivial with three or more inputs"),
]
ASSUMPTIONS = [
    "averages are compared to 1e-12 of the largest value",
    "in the joint table returned on request, missing metadata may be shown by any value",
]
