"""C27: writing to CSV and reading back restores the dataframe."""
import csv
import os
import shutil
import tempfile

from dateutil import parser
from hypothesis import strategies as st

from vf import frames as fr
from vf.core import Sub, require

from openscm.scmdataframe import ScmDataFrame

REL = 1e-13  # what pandas' reader loses
TEXTS = ["a", "World", "x y", 'q"r', "q'r", "x,y", "x;y", "x\ty", "#1", " lead", "trail ", "é",
         "日本", "a|b", "\\n", "a\\", '"', "'", '""', "a=b", "=1+1", "@x", "-x", "N/A.", "nan.",
         "None?", "True?", "1.2.3", "1e", "e1", "--", "x\nz", "x\rz", "x\r\nz", "model", "a/b", "%d", "{}", "[1]",
         "50%", "CO$_2$", "\u2028x", "\xa0x"]


def special(t):
    """Whether a text means something else in a CSV file."""
    if t.strip().lower() in ("", "na", "n/a", "nan", "null", "none", "true", "false", "inf",
                             "-inf", "+inf", "infinity", "-infinity", "+infinity", "-nan",
                             "#n/a", "#na", "<na>", "1.#ind", "1.#qnan", "-1.#ind",
                             "-1.#qnan", "#n/a n/a"):
        return True
    try:
        float(t.strip())
        return True
    except ValueError:
        return False


@st.composite
def s_text(draw):
    kind = draw(st.integers(0, 3))
    if kind < 2:
        return draw(st.sampled_from(TEXTS))
    if kind == 2:
        return draw(st.text(st.sampled_from("ab ,;\"'|\\\t\n#%é."), min_size=1, max_size=6).filter(
            lambda t: not special(t)))
    return draw(st.text(st.characters(blacklist_categories=("Cs", "Cc")), min_size=1,
                        max_size=5).filter(lambda t: not special(t)))


@st.composite
def s_case(draw):
    f = draw(fr.frame(lo=1, hi=5, words=["a"], extra=["climate_model", "ensemble", "note",
                                                      "weight", "run"], nan_meta=False))
    texts = draw(st.lists(s_text(), min_size=1, max_size=5, unique=True))
    one = st.sampled_from(texts)
    seen = set()
    rows = []
    for r in f["rows"]:
        m = r["meta"]
        for c in ("model", "scenario", "region", "variable", "unit", "climate_model", "note"):
            if c in m and draw(st.integers(0, 2)):
                m[c] = draw(one)
        if fr.key(m) not in seen:
            seen.add(fr.key(m))
            rows.append(r)
    f["rows"] = rows
    for j in range(len(f["times"])):
        if all(r["values"][j] is None for r in rows):
            rows[0]["values"][j] = 1.0
    for r in rows:
        r["values"] = [v if draw(st.integers(0, 3)) or v is None else draw(
            st.floats(-1e300, 1e300).map(lambda x: x if abs(x) > 1e-290 else 0.0))
            for v in r["values"]]
    return {"frame": f, "exists": draw(st.booleans()), "prior": draw(st.booleans())}


def compare(got, want, what):
    fr.compare(got, want, what, rel=REL)


def check_csv(case, rec):
    f = case["frame"]
    df = fr.build(f)
    table = fr.table(f)
    before = fr.snapshot(df)
    folder = tempfile.mkdtemp(prefix="vf-c27-")
    try:
        path = os.path.join(folder, "file.csv")
        if case["exists"]:
            with open(path, "w") as h:
                h.write("something,else\n" * 500)
        df.to_csv(path)
        require(fr.snapshot(df) == before, "to_csv modifies the dataframe")
        judge_file(path, f)
        back = ScmDataFrame(path)
        got, secs = fr.observe(back)
        compare(got, table, "reading back")
        require(secs == f["times"], "reading back: times are %s, not %s", secs, f["times"])
        require(sorted(back.meta.columns) == sorted(df.meta.columns), "columns %s become %s",
                list(df.meta.columns), list(back.meta.columns))
        if case["prior"]:
            # once more, from what was read
            back.to_csv(path)
            compare(fr.observe(ScmDataFrame(path))[0], table, "second round")
    finally:
        shutil.rmtree(folder)
    odd = any(not t.isalnum() for r in f["rows"] for t in r["meta"].values()
              if isinstance(t, str))
    far = not all(-8e9 < t < 9e9 for t in f["times"])
    rec.nontrivial(odd or far)
    rec.label("far" if far else "near")


def judge_file(path, f):
    """The file, read without the code under test, holds every value."""
    with open(path, newline="", encoding="utf-8") as h:
        lines = list(csv.reader(h))
    head = [c.lower() for c in lines[0]]
    cols = fr.REQUIRED + f["cols"]
    require(sorted(head[:len(cols)]) == sorted(cols), "file has columns %s", head)
    times = [fr.to_sec(parser.parse(x, default=fr.to_dt(0))) for x in head[len(cols):]]
    require(sorted(times) == f["times"], "file has times %s", head[len(cols):])
    want = fr.table(f)
    seen = set()
    for line in lines[1:]:
        meta = dict(zip(head, line[:len(cols)]))
        k = tuple(sorted((c, meta[c]) for c in cols))
        match = [w for w in want if all(same(dict(w)[c], meta[c]) for c in cols)]
        require(len(match) == 1 and match[0] not in seen, "file has the row %s", k)
        seen.add(match[0])
        vals = {t: float(x) for t, x in zip(times, line[len(cols):]) if x != ""}
        require(vals == want[match[0]], "file row %s has values %s, not %s", k, vals,
                want[match[0]])
    require(len(seen) == len(want), "file has %d rows, not %d", len(seen), len(want))


def same(value, text):
    """Whether a text of the file stands for an entry."""
    if isinstance(value, str):
        return value == text
    try:
        return float(text) == value
    except ValueError:
        return False


SUBS = [
    Sub("csv", check_csv, s_case, quick=700, thorough=30000,
        rule="frames written and read, the file also with an independent reader; non-trivial "
             "with special characters or dates far away"),
]
ASSUMPTIONS = [
    "texts which a CSV file cannot tell from a number, truth value or missing entry are left "
    "out, and so are missing metadata (pyam refuses them) and column names with capitals",
    "values survive pandas' reader to 1e-13",
]
