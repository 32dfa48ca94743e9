"""C32: bundled scenarios contain exactly the bundled data."""
import csv
import glob
import hashlib
import json
import os

import openscm.scenarios
from hypothesis import strategies as st
from openscm.scenarios import rcps

from vf import boot, framemodel as fm, frames as fr
from vf.core import Sub, require

REL = 1e-13  # what pandas' reader loses
FOLDER = os.path.dirname(os.path.abspath(openscm.scenarios.__file__))
FILES = ["rcp26_emissions.csv", "rcp45_emissions.csv", "rcp60_emissions.csv",
         "rcp85_emissions.csv"]
REFERENCE = os.path.join(boot.VERIF, "data", "rcps.json")


def read_file(path):
    """Series of a shipped file: {key: {year: value}}."""
    with open(path, newline="", encoding="utf-8") as h:
        lines = list(csv.reader(h))
    head = lines[0]
    cols = [c for c in head if not c[:4].isdigit()]
    res = {}
    for line in lines[1:]:
        row = dict(zip(head, line))
        k = fr.key({c: row[c] for c in cols})
        require(k not in res, "%s has the series %s twice", path, k)
        res[k] = {int(h[:4]): float(x) for h, x in row.items() if h not in cols and x != ""}
    return res


_CACHE = {}


def shipped():
    """All series of the shipped files by year."""
    if not _CACHE:
        for name in FILES:
            for k, v in read_file(os.path.join(FOLDER, name)).items():
                require(k not in _CACHE, "series %s is in two files", k)
                _CACHE[k] = v
    return _CACHE


def by_year(table):
    """Observed table by year; every time is the start of a year."""
    res = {}
    for k, v in table.items():
        new = {}
        for t, x in v.items():
            d = fr.to_dt(t)
            require((d.month, d.day, d.hour, d.minute, d.second) == (1, 1, 0, 0, 0),
                    "there is a value at %s", d)
            new[d.year] = x
        res[k] = new
    return res


def compare(got, want, what):
    require(set(got) == set(want), "%s: unexpected series %s, missing series %s", what,
            [k for k in got if k not in want][:3], [k for k in want if k not in got][:3])
    for k, w in want.items():
        require(set(got[k]) == set(w), "%s: %s has values in %s, not in %s", what, k,
                sorted(set(got[k]) - set(w))[:5], sorted(set(w) - set(got[k]))[:5])
        for y, x in w.items():
            require(abs(got[k][y] - x) <= REL * abs(x), "%s: %s in %d is %r, not %r", what, k, y,
                    got[k][y], x)


def digest(series):
    """Fingerprint of the values of a series, to 12 digits."""
    text = ";".join("%d:%.11e" % (y, series[y] + 0.0) for y in sorted(series))
    return hashlib.sha256(text.encode()).hexdigest()[:16]


def fingerprints(table):
    return {"/".join("%s=%s" % x for x in k): [len(v), digest(v)] for k, v in table.items()}


def check_files(case, rec):
    """Everything at once: files against dataframe, and both against the published data."""
    name = case["file"]
    rec.nontrivial()
    want = {k: v for k, v in shipped().items()}
    got = by_year(fr.observe(rcps)[0])
    if name == "published":
        with open(REFERENCE) as h:
            ref = json.load(h)
        compare(got, want, "dataframe")
        have = fingerprints(want)
        require(set(have) == set(ref), "unexpected series %s, missing series %s",
                sorted(set(have) - set(ref))[:3], sorted(set(ref) - set(have))[:3])
        for k, v in ref.items():
            require(have[k] == v, "%s: values are not those published", k)
        return
    part = read_file(os.path.join(FOLDER, name))
    require(part, "%s is empty", name)
    compare({k: v for k, v in got.items() if k in part}, part, name)
    require(len(got) == len(want), "there are %d series, not %d", len(got), len(want))
    # one scenario per file
    scen = {dict(k)["scenario"] for k in part}
    require(len(scen) == 1, "%s has scenarios %s", name, scen)
    one = rcps.filter(scenario=scen.pop())
    compare(by_year(fr.observe(one)[0]), part, "scenario of " + name)


def cases_files(tier):
    return [{"file": f} for f in FILES + ["published"]]


def check_query(case, rec):
    filters = dict(case["filters"])
    want = {}
    years = filters.pop("year", None)
    if isinstance(years, int):
        years = [years]
    for k, v in shipped().items():
        m = dict(k)
        if all(fm.entry_matches(m[c], p) for c, p in filters.items()):
            vals = {y: x for y, x in v.items() if years is None or y in years}
            if vals:
                want[k] = vals
    arg = dict(case["filters"])
    if case["as_range"] and years is not None:
        lo, hi = min(years), max(years)
        if sorted(years) == list(range(lo, hi + 1)):
            arg["year"] = range(lo, hi + 1)
    res = rcps.filter(**arg)
    rec.label("empty" if not want else "some")
    rec.nontrivial(bool(want))
    got = by_year(fr.observe(res, deep=False)[0]) if want else {}
    require(bool(want) or len(res) == 0, "filter(%s) is not empty", arg)
    compare(got, want, "filter(%s)" % arg)
    if len(want) == 1 and years is not None and len(years) == 1:
        (v,) = want.values()
        require(res.values.shape == (1, 1) and abs(res.values[0, 0] - v[years[0]]) <= REL * abs(
            v[years[0]]), "values are %s", res.values)
        rec.label("one cell")


@st.composite
def s_query(draw):
    keys = sorted(shipped(), key=str)
    one = dict(draw(st.sampled_from(keys)))
    names = draw(st.lists(st.sampled_from(["scenario", "region", "variable", "unit", "model"]),
                          min_size=1, max_size=4, unique=True))
    filters = {}
    for c in names:
        v = one[c]
        parts = v.split("|")
        opts = [v, v, v, [v, dict(draw(st.sampled_from(keys)))[c]], v[:4] + "*",
                "*" + v[-3:], "|".join(parts[:-1] + ["*"]), "*" + parts[-1]]
        filters[c] = draw(st.sampled_from(opts))
    kind = draw(st.integers(0, 4))
    if kind:
        y = draw(st.one_of(st.integers(1760, 2505), st.sampled_from(
            [1765, 2005, 2006, 2010, 2100, 2500])))
        filters["year"] = y if kind < 3 else (
            list(range(y, y + draw(st.integers(1, 40)))) if kind == 3 else
            sorted(draw(st.sets(st.integers(1764, 2501), min_size=1, max_size=4))))
    return {"filters": filters, "as_range": draw(st.booleans())}


SUBS = [
    Sub("files", check_files, cases=cases_files,
        rule="each shipped file against the dataframe, and all series against fingerprints of "
             "the published data; all non-trivial"),
    Sub("query", check_query, s_query, quick=600, thorough=8000,
        rule="selections by metadata and years against the cells of the files; non-trivial if "
             "something is selected"),
]
ASSUMPTIONS = [
    "the RCP scenarios are published data, which do not change (data/rcps.json holds "
    "fingerprints of the values to 12 digits)",
]
