"""C19: metadata filters select exactly the matching series."""
import re

import numpy as np
from hypothesis import strategies as st

from vf import framemodel as fm, frames as fr
from vf.core import Sub, require

# pieces of names: everything that means something to regular expressions, and line breaks
PIECES = ["a", "b", "|", "*", ".", "+", "?", "(", ")", "[", "]", "{", "}", "^", "$", "\\", "-",
          "\n", " ", "A", "é", "ß", "\\d", "a|b", "Emissions", "#", "&", "~", "1", "\r", "\t"]
PARTS = ["Emissions", "CO2", "a", "b", "Energy", "a.b", "(x)", "", "Emissions"]
SEPARATORS = ["|", "|", "|", "|", "/", ".", "-", "_", "+", "__", "~", "::", "$", "\\"]


@st.composite
def s_word(draw):
    return "".join(draw(st.lists(st.sampled_from(PIECES), max_size=4)))


@st.composite
def s_variable(draw):
    return "|".join(draw(st.lists(st.sampled_from(PARTS), min_size=1, max_size=4)))


@st.composite
def s_deep(draw):
    """Names of up to fourteen levels."""
    n = draw(st.integers(1, 14))
    return "|".join((draw(st.lists(st.sampled_from(PARTS[:5]), min_size=1, max_size=3)) * n)[:n])


@st.composite
def s_pattern(draw, texts):
    """A pattern near one of the texts."""
    t = draw(st.sampled_from(texts)) if texts and draw(st.integers(0, 7)) else draw(s_word())
    kind = draw(st.integers(0, 9))
    if kind <= 2 or not t:
        return t if kind else draw(st.sampled_from(["", "*", "**"]))
    if kind == 3:
        return t[:draw(st.integers(0, len(t)))] + "*"
    if kind == 4:
        return "*" + t[draw(st.integers(0, len(t))):]
    if kind == 5:
        i, j = draw(st.integers(0, len(t))), draw(st.integers(0, len(t)))
        return t[:min(i, j)] + "*" + t[max(i, j):]
    if kind == 6:
        i, j = draw(st.integers(0, len(t))), draw(st.integers(0, len(t)))
        return "*" + t[min(i, j):max(i, j)] + "*"
    i = draw(st.integers(0, len(t) - 1))
    if kind == 7:
        return t[:i] + t[i + 1:]
    if kind == 8:
        return t[:i] + draw(st.sampled_from(PIECES)) + t[i + 1:]
    return t.swapcase()


@st.composite
def s_regex(draw, texts):
    """A regular expression near one of the texts."""
    t = draw(st.sampled_from(texts)) if texts else "a"
    i = draw(st.integers(0, len(t)))
    j = draw(st.integers(i, len(t)))
    return draw(st.sampled_from([
        re.escape(t), re.escape(t) + "$", "^" + re.escape(t[:i]), re.escape(t[:i]) + ".*",
        ".*" + re.escape(t[i:]) + "$", "[ab]", "[^a]+$", "a|b", "(a|Em).*", "[A-Z]", "$", "",
        "^$", ".", "\\w+$", "\\d", ".{%d}$" % len(t), re.escape(t[i:j]), "(?!%s)" % re.escape(
            t[:i]), "(?i)" + re.escape(t.swapcase())]))


def plain_pattern(draw, texts):
    """A pattern for level filters: a name, or the start of one and a star."""
    t = draw(st.sampled_from(texts))
    kind = draw(st.integers(0, 4))
    if kind == 0 and "*" not in t:
        return t
    cut = t.split("*")[0]
    if kind <= 3:
        parts = cut.split("|")
        n = draw(st.integers(0, len(parts)))
        cut = "|".join(parts[:n])
        if n and draw(st.booleans()):
            cut += "|"
        return cut + "*"
    return cut[:draw(st.integers(0, len(cut)))] + "*"


@st.composite
def s_filter(draw, f, regexp, level):
    """Filters on some columns of a frame."""
    filters = {}
    cols = fr.REQUIRED + f["cols"]
    n = draw(st.integers(1, 3))
    chosen = draw(st.lists(st.sampled_from(cols), min_size=1, max_size=n, unique=True))
    if level:
        regexp, lone = False, regexp
        deep = max(str(r["meta"]["variable"]).count("|") for r in f["rows"])
        num = st.one_of(st.integers(0, 3), st.integers(0, max(deep, 3)))
        filters["level"] = draw(st.one_of(
            num, num.map("%d-".__mod__), num.map("%d+".__mod__)))
        if lone:
            # patterns are regular expressions, no pattern for the variable
            chosen = [c for c in chosen if c != "variable"][:1]
            regexp = True
        elif draw(st.integers(0, 3)):
            chosen = ["variable"] + [c for c in chosen if c != "variable"][:1]
        else:
            chosen = [c for c in chosen if c != "variable"][:1]
    for c in chosen:
        vals = [r["meta"].get(c) for r in f["rows"]]
        texts = [v for v in vals if isinstance(v, str)]
        numeric = fr.EXTRA.get(c, "text") != "text"
        if numeric:
            near = [v for v in vals if v is not None] + [0, 7.5, -999]
            one = st.sampled_from(near)
            if all(v is None for v in vals):
                one = st.one_of(one, st.sampled_from(
                    ["", ".*", "a"] if regexp else ["", "*", "a"]))
        elif regexp:
            one = s_regex(texts)
        elif level and c == "variable":
            one = st.composite(lambda d: plain_pattern(d, texts))()
        else:
            one = s_pattern(texts)
            if draw(st.integers(0, 9)) == 0:
                one = st.one_of(one, st.sampled_from([0, 1, 2.5]))
        values = draw(st.one_of(one, st.lists(one, min_size=1, max_size=3)))
        filters[c] = values
    names = list(filters)
    names = draw(st.permutations(names)) if len(names) > 1 else names
    return {k: filters[k] for k in names}


@st.composite
def s_case(draw, mode="glob", has_nan=True):
    words = draw(st.lists(s_word(), min_size=1, max_size=4))
    names = st.one_of(s_variable(), s_word())
    if mode == "level":
        names = s_variable() if draw(st.booleans()) else st.one_of(s_variable(), s_deep())
    names = draw(st.lists(names, min_size=1, max_size=4))
    f = draw(fr.frame(lo=2, hi=6, time_strategy=fr.times(hi=3), words=words, variables=names))
    if draw(st.integers(0, 3)) == 0:
        # two series that differ in nothing but the case of some letters
        a = draw(st.sampled_from(f["rows"]))
        c = draw(st.sampled_from([c for c in a["meta"] if isinstance(a["meta"][c], str)]))
        other = dict(a["meta"], **{c: getattr(a["meta"][c], draw(st.sampled_from(
            ["swapcase", "upper", "lower"])))()})
        if fr.key(other) not in [fr.key(r["meta"]) for r in f["rows"]]:
            f["rows"].append({"meta": other, "values": [v if v is None else v + 1.0
                                                        for v in a["values"]]})
    steps = []
    regexp = mode == "regexp" or mode == "level" and draw(st.integers(0, 5)) == 0
    for _ in range(draw(st.integers(1, 2))):
        steps.append({"filters": draw(s_filter(f, regexp, mode == "level")),
                      "keep": draw(st.booleans()), "inplace": draw(st.booleans())})
    return {"frame": f, "steps": steps, "regexp": regexp, "has_nan": has_nan,
            "form": draw(st.integers(0, 3)),
            "separator": draw(st.sampled_from(SEPARATORS)) if mode == "level" else "|"}


def as_argument(values, form):
    """Filter values in several container types."""
    if not isinstance(values, list) or form == 0:
        return values
    if form == 1:
        return tuple(values)
    if form == 2 and all(isinstance(v, str) for v in values):
        return np.array(values, dtype=object)
    if form == 3 and len({type(v) for v in values}) == 1:
        return set(values)
    return values


def run_filter(df, step, case):
    """Apply a filter to the real frame, in place or not."""
    kwargs = {c: as_argument(v, case["form"]) for c, v in step["filters"].items()}
    before = {c: fr.snapshot(v) for c, v in kwargs.items()}
    args = dict(kwargs)
    if case["regexp"]:
        args["regexp"] = True
    if not case["has_nan"]:
        args["has_nan"] = False
    if not step["keep"]:
        args["keep"] = False
    if step["inplace"]:
        require(df.filter(inplace=True, **args) is None, "in-place filter returns something")
    else:
        df = df.filter(**args)
    require({c: fr.snapshot(v) for c, v in kwargs.items()} == before, "filter values modified")
    return df


def with_separator(case):
    """The case with the levels of variables separated by something else."""
    sep = case.get("separator", "|")
    if sep == "|":
        return case

    def change(v):
        if isinstance(v, list):
            return [change(i) for i in v]
        return v.replace("|", sep) if isinstance(v, str) else v

    rows = [dict(r, meta=dict(r["meta"], variable=change(r["meta"]["variable"])))
            for r in case["frame"]["rows"]]
    steps = [dict(s, filters={c: change(v) if c == "variable" else v
                              for c, v in s["filters"].items()}) for s in case["steps"]]
    return dict(case, frame=dict(case["frame"], rows=rows), steps=steps)


def check_filter(case, rec):
    case = with_separator(case)
    f = case["frame"]
    if len({fr.key(r["meta"]) for r in f["rows"]}) < len(f["rows"]):
        return  # names that only differ in the separator
    df = fr.build(f)
    sep = case.get("separator", "|")
    if sep != "|":
        df.data_hierarchy_separator = sep
        rec.label("other separator")
    want = fr.table(f)
    for n, step in enumerate(case["steps"]):
        if any(len(str(v).strip("+-")) > 1 for c, v in step["filters"].items()
               if c == "level"):
            rec.label("level of two digits")
        before = want
        size = len(want)
        try:
            want = fm.select(want, step["filters"], step["keep"], case["regexp"],
                             case["has_nan"], sep)
        except fm.Refused as refused:
            rec.label("refused")
            rec.nontrivial()
            try:
                run_filter(df, step, case)
            except refused.kinds:
                fr.compare(fr.observe(df)[0], before, "after refused filter %s" % step)
                return
            require(False, "filter %s on missing entries is accepted", step)
        df = run_filter(df, step, case)
        got, secs = fr.observe(df)
        fr.compare(got, want, "filter %d %s" % (n, step))
        require(secs == sorted(set(t for v in want.values() for t in v)),
                "filter %s: times are %s", step, secs)
        rec.nontrivial(0 < len(want) < size)
        rec.label("some" if 0 < len(want) < size else "all" if want else "none")
        if not want:
            return


def check_bad_level(case, rec):
    f = case["frame"]
    df = fr.build(f)
    args = {"level": case["level"]}
    if case["variable"]:
        args["variable"] = case["variable"]
    before = fr.observe(df)
    rec.nontrivial()
    try:
        df.filter(**args)
    except ValueError:
        fr.compare(fr.observe(df)[0], before[0], "after a refused level")
        return
    require(False, "level %r accepted", case["level"])


@st.composite
def s_bad_level(draw):
    return {"frame": draw(fr.frame(hi=2)), "variable": draw(st.sampled_from([None, "*"])),
            "level": draw(st.sampled_from(["1", "0", "+1", "-1", "1/", "a", "+", "-", "a+", "b-",
                                           "1.5+", "12", " ", "1 ", "2*", "level"]))}


def check_unknown(case, rec):
    f = case["frame"]
    df = fr.build(f)
    rec.nontrivial()
    try:
        df.filter(**{case["name"]: case["value"]})
    except ValueError:
        return
    require(False, "filter on unknown column %r accepted", case["name"])


@st.composite
def s_unknown(draw):
    f = draw(fr.frame(hi=2))
    name = draw(st.sampled_from(["nothing", "Model", "units", "climate model", "second",
                                 "minute", "weight ", "values"]))
    return {"frame": f, "name": name, "value": draw(st.sampled_from(["a", "*", 1, ["a"]]))}


RULE = "; non-trivial if a part of the series is selected"
SUBS = [
    Sub("glob", check_filter, s_case, quick=2200, thorough=100000,
        rule="patterns near metadata texts of special characters, on several columns, chained"
             + RULE),
    Sub("level", check_filter, lambda: s_case("level"), quick=1200, thorough=50000,
        rule="level filters with and without a variable pattern" + RULE),
    Sub("regexp", check_filter, lambda: s_case("regexp"), quick=700, thorough=30000,
        rule="regular expressions" + RULE),
    Sub("has_nan-off", check_filter, lambda: s_case("glob", False), quick=400, thorough=15000,
        rule="has_nan=False: refused where missing entries meet text patterns" + RULE),
    Sub("bad-level", check_bad_level, s_bad_level, quick=80, thorough=800,
        rule="levels which cannot be understood are refused; all non-trivial"),
    Sub("unknown", check_unknown, s_unknown, quick=60, thorough=600,
        rule="unknown columns are refused; all non-trivial"),
]
ASSUMPTIONS = [
    "level filters are used with a full variable name or a name start and a trailing star",
    "text patterns are not applied to columns holding numbers",
    "regular expressions are matched as re.match does",
]
