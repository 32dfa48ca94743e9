"""C29: metadata assignment reaches exactly the addressed series."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf import frames as fr
from vf.core import Sub, require

COLS = ["climate_model", "note", "ensemble", "weight", "aaa", "zzz", "Mixed Case"]
VALUES = ["a", "b", "x|y", 1, 2, 0.5, None, True, "", -999]


def rows_of(df):
    """Observed series, in order: (metadata, {time: value}), and their labels."""
    table, _ = fr.observe(df)
    return [[{c: fr.canon(v) for c, v in m.items()}, table[fr.key(m)]]
            for m in fr.meta_rows(df)], list(df.meta.index)


def as_table(rows):
    res = {}
    for m, v in rows:
        k = fr.key(m)
        require(k not in res, "generator: duplicate series")
        res[k] = v
    return res


def judge(df, rows, what):
    got, _ = fr.observe(df)
    fr.compare(got, as_table(rows), what)


def nan(v):
    return np.nan if v is None else v


def apply_assign(df, rows, labels, act, rec):
    """Expected rows, and a function that does the assignment."""
    name, how = act["name"], act["how"]
    values = act["values"]
    n = len(rows)

    def take(i):
        return values[i % len(values)]

    def put(assigned):
        res = []
        for i, (m, v) in enumerate(rows):
            new = dict(m)
            if i in assigned:
                new[name] = fr.canon(assigned[i])
            elif name not in m:
                new[name] = None
            res.append([new, v])
        return res

    if how == "constant":
        return put({i: values[0] for i in range(n)}), lambda: df.set_meta(nan(values[0]), name)
    if how == "item":
        def run():
            df[name] = nan(values[0])
        return put({i: values[0] for i in range(n)}), run
    each = {i: take(i) for i in range(n)}
    if how == "list":
        return put(each), lambda: df.set_meta([nan(take(i)) for i in range(n)], name=name)
    if how == "item list":
        def run():
            df[name] = [nan(take(i)) for i in range(n)]
        return put(each), run
    if how == "array":
        return put(each), lambda: df.set_meta(
            np.array([nan(take(i)) for i in range(n)], dtype=object), name)
    # indexed data: some of the rows, in any order
    order = sorted(range(n), key=lambda i: act["order"][i % len(act["order"])] * 1000 + i)
    order = order[:max(1, n - act["leave"])]
    if how in ("labels", "positions", "item series"):
        if how == "labels" or all(i in labels for i in order):
            # positions which are also labels are labels
            index = [labels[i] for i in order] if how != "positions" else list(order)
            where = {lab: labels.index(lab) for lab in index}
        elif n and how == "positions":
            index = list(order)
            where = {i: i for i in index}
        else:
            index = [labels[i] for i in order]
            where = {lab: labels.index(lab) for lab in index}
        got = {where[lab]: take(j) for j, lab in enumerate(index)}
        # the name asked for counts, not the one the data may have
        data = pd.Series([nan(take(j)) for j in range(len(index))], index=index, dtype=object,
                         name=act.get("own"))
        rec.label("partial" if len(got) < n else "full")
        if how == "item series":
            def run():
                df[name] = data
            return put(got), run
        return put(got), lambda: df.set_meta(data, name=name)
    # by metadata
    cols = [c for c in act["by"] if c in rows[0][0] and c != name] or ["model"]
    seen = []
    for i in order:
        lab = tuple(rows[i][0][c] for c in cols)
        if lab not in seen:
            seen.append(lab)
    given = {lab: take(j) for j, lab in enumerate(seen)}
    got = {i: given[lab] for i, lab in ((i, tuple(rows[i][0][c] for c in cols))
                                        for i in range(n)) if lab in given}
    rec.label("partial" if len(got) < n else "full")
    if any(x is None for lab in seen for x in lab):
        rec.label("missing label")
    if act["fault"] == "unknown":
        seen = seen + [tuple("nobody" if k == len(cols) - 1 else x
                             for k, x in enumerate(seen[0]))]
    elif act["fault"] == "twice":
        seen = seen + [seen[0]]
    tuples = [tuple(nan(x) for x in lab) for lab in seen]
    if len(cols) == 1:
        index = pd.Index([t[0] for t in tuples], name=cols[0], dtype=object)
    else:
        index = pd.MultiIndex.from_tuples(tuples, names=cols)
    vals = [nan(take(j)) for j in range(len(seen))]
    if how == "indexed const":
        got = {i: values[0] for i in got}
        meta = nan(values[0])
        fn = (lambda: df.set_meta(meta, name, index))
    elif how == "indexed list":
        fn = (lambda: df.set_meta(vals, name=name, index=index))
    elif how == "indexed frame":
        table = pd.DataFrame([list(t) for t in tuples], columns=cols)
        table["unrelated"] = range(len(tuples))
        fn = (lambda: df.set_meta(vals, name=name, index=table))
    elif how == "named series":
        fn = (lambda: df.set_meta(pd.Series(vals, index=index, name=name, dtype=object)))
    else:
        assert how == "indexed series"
        fn = (lambda: df.set_meta(pd.Series(vals, index=index, dtype=object, name=act.get("own")),
                                   name=name))
    return (None if act["fault"] else put(got)), fn


def apply_rename(df, rows, act, rec):
    """Expected rows (None if refused) and the mapping."""
    mapping = {c: dict((a, b) for a, b in m) for c, m in act["mapping"].items()}
    res = []
    known = all(c in rows[0][0] for c in mapping)
    changed = 0
    for m, v in rows:
        new = dict(m)
        for c, mp in mapping.items():
            if c in new:
                for a, b in mp.items():
                    if fr.canon(a) == m[c] and m[c] is not None:
                        new[c] = fr.canon(b)
        changed += new != m
        res.append([new, v])
    if not known:
        rec.label("unknown column")
        return None, mapping
    if len({fr.key(m) for m, _ in res}) < len(res):
        rec.label("not unique")
        return None, mapping
    rec.label("renames %s" % ("some" if 0 < changed < len(rows) else
                              "all" if changed else "nothing"))
    return res, mapping


def text_in_numbers(rows, mapping):
    """Whether text is to be renamed in a column of numbers, which pandas refuses."""
    return any(any(isinstance(k, str) for k in mp) and c in rows[0][0]
               and not any(isinstance(m[c], str) for m, _ in rows) for c, mp in mapping.items())


def check_meta(case, rec):
    f = case["frame"]
    df = fr.build(f)
    fr.compare(fr.observe(df)[0], fr.table(f), "construction")
    for number, act in enumerate(case["actions"]):
        rows, labels = rows_of(df)
        if not rows:
            rec.label("empty")
            return
        before = fr.snapshot(df)
        what = "%s of %d series" % (act, len(rows))
        if act["op"] == "filter":
            # leaves row labels with gaps
            model = rows[act["pick"] % len(rows)][0]["model"]
            df = df.filter(model=model, keep=act["keep"])
            rows = [r for r in rows if (r[0]["model"] == model) == act["keep"]]
            judge(df, rows, what)
            continue
        if act["op"] == "append":
            end = " appended %d" % number
            other = df.rename({"model": {m: m + end for m in {r[0]["model"] for r in rows}}})
            df = df.append(other)
            rows = rows + [[dict(m, model=m["model"] + end), v] for m, v in rows]
            judge(df, rows, what)
            continue
        if act["op"] == "rename":
            want, mapping = apply_rename(df, rows, act, rec)
            kept = repr(mapping)
            rec.nontrivial(want is None or want != rows)
            try:
                if act["inplace"]:
                    require(df.rename(mapping, inplace=True) is None,
                            "in-place rename returns something")
                    new = df
                else:
                    new = df.rename(mapping)
                    require(fr.snapshot(df) == before, "%s modifies the dataframe", what)
            except (ValueError, TypeError) as e:
                require((want is None and isinstance(e, ValueError)) or
                        (isinstance(e, TypeError) and text_in_numbers(rows, mapping)),
                        "%s is refused: %r", what, e)
                require(fr.snapshot(df) == before, "%s fails and modifies the dataframe", what)
                continue
            require(want is not None, "%s is accepted", what)
            require(repr(mapping) == kept, "%s modifies the mapping", what)
            df = new
            judge(df, want, what)
            continue
        rec.label(act["how"])
        want, fn = apply_assign(df, rows, labels, act, rec)
        rec.nontrivial(len(rows) > 1)
        if want is not None and len({fr.key(m) for m, _ in want}) < len(want):
            rec.label("indistinguishable")
            return
        try:
            fn()
        except ValueError as e:
            require(want is None, "%s is refused: %r", what, e)
            require(fr.snapshot(df) == before, "%s fails and modifies the dataframe", what)
            rec.label("refused")
            continue
        require(want is not None, "%s is accepted", what)
        judge(df, want, what)
        col = df[act["name"]]
        require([fr.canon(x) for x in col.tolist()] == [
            fr.canon(r[0][act["name"]]) for r in rows_of(df)[0]], "%s: column reads %s", what,
            col.tolist())
        names = ["model", act["name"]]
        require(list(df[names].columns) == names and len(df[names]) == len(df),
                "%s: reading two columns gives %s", what, list(df[names].columns))


HOWS = ["constant", "item", "list", "item list", "array", "labels", "positions", "item series",
        "indexed series", "indexed series", "named series", "indexed const", "indexed list",
        "indexed frame"]


@st.composite
def s_assign(draw):
    by = draw(st.lists(st.sampled_from(
        ["model", "scenario", "region", "variable", "unit"] + COLS), min_size=1, max_size=4,
        unique=True))
    how = draw(st.sampled_from(HOWS))
    fault = draw(st.sampled_from([None] * 6 + ["unknown", "twice"])) if "indexed" in how or \
        how == "named series" else None
    return {"op": "assign", "name": draw(st.sampled_from(COLS)), "how": how,
            "values": draw(st.lists(st.sampled_from(VALUES), min_size=1, max_size=5)),
            "order": draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)),
            "leave": draw(st.sampled_from([0, 0, 1, 2, 3])), "by": by, "fault": fault,
            "own": draw(st.sampled_from([None, None, "other", "model", "unit"]))}


@st.composite
def s_rename(draw, words):
    names = draw(st.lists(st.sampled_from(
        ["model", "scenario", "region", "variable", "unit", "climate_model", "note",
         "ensemble", "nothing"]), min_size=1, max_size=2, unique=True))
    if "nothing" in names and draw(st.integers(0, 3)):
        names = [n for n in names if n != "nothing"] or ["scenario"]
    mapping = {}
    for c in names:
        pool = list(words) + ["World", "World|R", "Emissions|CO2", "K", "kg", "new", "x 1"]
        if c == "ensemble":
            pool = [-3, -2, -1, 0, 1, 2, 3, -999, 7]
        elif c == "region":
            pool = ["World", "World|R", "World|R|S", "new"]
        elif c in ("unit",):
            pool = fr.UNITS + ["new"]
        elif c == "variable":
            pool = ["Emissions|CO2", "Surface Temperature", "Emissions|CO2|Energy", "new"] + words
        keys = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
        kind = draw(st.integers(0, 2))
        if kind == 0 and len(keys) > 1:
            # a cycle: every entry becomes the next one
            mapping[c] = [[k, keys[(i + 1) % len(keys)]] for i, k in enumerate(keys)]
        else:
            mapping[c] = [[k, draw(st.sampled_from(pool + ["fresh %d" % i if c != "ensemble"
                                                           else 100 + i]))]
                          for i, k in enumerate(keys)]
    return {"op": "rename", "mapping": mapping, "inplace": draw(st.booleans())}


@st.composite
def s_case(draw, main):
    words = draw(st.lists(st.sampled_from(fr.WORDS), min_size=1, max_size=3, unique=True))
    words = [w for w in words if "*" not in w] or ["w"]
    f = draw(fr.frame(lo=2, hi=6, time_strategy=fr.times(hi=3), words=words,
                      extra=["climate_model", "ensemble", "note", "weight"]))
    actions = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.integers(0, 9))
        if kind < 2:
            actions.append({"op": "filter", "pick": draw(st.integers(0, 5)),
                            "keep": draw(st.integers(0, 2)) == 0})
        elif kind < 3 and len(actions) < 2:
            actions.append({"op": "append"})
        elif kind < 4:
            actions.append(draw(s_rename(words) if main == "assign" else s_assign()))
        else:
            actions.append(draw(s_assign() if main == "assign" else s_rename(words)))
    return {"frame": f, "actions": actions}


def check_bad(case, rec):
    """Assignments which cannot be understood."""
    df = fr.build(case["frame"])
    n = len(case["frame"]["rows"])
    before = fr.snapshot(df)
    kind = case["kind"]
    rec.nontrivial()
    rec.label(kind)
    try:
        if kind == "no name":
            df.set_meta(["a"] * n)
        elif kind == "unnamed series":
            df.set_meta(pd.Series(["a"] * n))
        elif kind == "long list":
            df.set_meta(["a"] * (n + 1), "note")
        elif kind == "short list":
            df.set_meta(["a"] * (n + 2), "note", index=df.meta.index)
        elif kind == "array index":
            df.set_meta("a", "note", np.arange(n))
        elif kind == "unknown label":
            df.set_meta(pd.Series(["a"], index=[n + 77]), "note")
        elif kind == "unknown column":
            df["time and space"]  # pylint: disable=pointless-statement
        else:
            df.set_meta(pd.Series(["a"], index=pd.Index(["x"], name="no column")), "note")
    except (ValueError, KeyError):
        require(fr.snapshot(df) == before, "%s: fails and modifies the dataframe", kind)
        return
    require(False, "%s is accepted", kind)


BAD = ["no name", "unnamed series", "long list", "short list", "array index", "unknown label",
       "unknown column", "unknown level"]


@st.composite
def s_bad(draw):
    return {"frame": draw(fr.frame(hi=4, time_strategy=fr.times(hi=2))),
            "kind": draw(st.sampled_from(BAD))}


SUBS = [
    Sub("assign", check_meta, lambda: s_case("assign"), quick=1000, thorough=40000,
        rule="constants, lists, arrays and indexed data (any order, partial, with unknown, "
             "repeated or missing labels) assigned after selections and appends; non-trivial "
             "with several series"),
    Sub("rename", check_meta, lambda: s_case("rename"), quick=1000, thorough=40000,
        rule="mappings on one or two columns, cycles included; non-trivial if something "
             "is renamed or refused"),
    Sub("bad", check_bad, s_bad, quick=150, thorough=2000,
        rule="assignments which cannot be understood; all non-trivial"),
]
ASSUMPTIONS = [
    "data labelled by position is only understood as such if it does not fit the row labels",
    "assigning to a part of the series leaves what the others had",
    "metadata stay unique",
]
