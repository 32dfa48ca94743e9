"""C03: metric contexts convert every species with exactly the tabulated factor."""
import math
import warnings

from hypothesis import strategies as st

from vf import unitmodel as um
from vf.core import Sub, require
from vf.ctxhistory import DATA as _DATA, METRICS, check_history, gwp_of, s_history

from openscm.core.units import DimensionalityError, UnitConverter

FORMS = ["bare", "mass", "time", "flux"]
MASSES = [["k", "g"], ["M", "t"], ["G", "g"], ["", "t"], ["", "lb"]]
TIMES = [["", "yr"], ["", "s"], ["", "day"], ["", "month"]]


def expr(form, species, mass, time, joint=False):
    """Unit expression of the species."""
    parts = []
    if form in ("mass", "flux"):
        if joint and species in um.JOINT and mass[1] in ("g", "t"):
            parts.append([[mass[0], mass[1], species], 1])
        else:
            parts += [[mass, 1], [["", species], 1]]
    else:
        parts.append([["", species], 1])
    if form in ("time", "flux"):
        parts.append([time, -1])
    return {"p": parts, "s": 0}


def rest(u):
    """Factor of the parts that are not the species."""
    res = 1
    for t, e in u["p"]:
        if len(t) == 3:
            res *= um.PREFIX[t[0]] * um.ATOMS[t[1]][0]
        elif t[1] not in um.SPECIES:
            res *= um.token_value(t)[0] ** e
    return float(res)


def species(u):
    for t, _ in u["p"]:
        if t[-1] in um.SPECIES:
            return t[-1]
    raise KeyError


def check_metric(case, rec):
    metric, a, b = case["metric"], case["a"], case["b"]
    ga, gb = gwp_of(metric, species(a)), gwp_of(metric, species(b))
    src, dst = um.text(a), um.text(b)
    if a["s"] == 0 and um.SPECIES[species(a)][1] != um.SPECIES[species(b)][1]:
        rec.nontrivial()
    if "unlisted" in (ga, gb):
        if um.SPECIES[species(a)][1] == um.SPECIES[species(b)][1]:
            return
        rec.label("unlisted")
        try:
            got = UnitConverter(src, dst, metric).convert_from(1.0)
        except DimensionalityError:
            return
        require(False, "%s -> %s in %s gives %r, the species is not in the table", src, dst,
                metric, got)
    for k in range(2):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            c = UnitConverter(src, dst, metric)
        warned = [str(x.message) for x in w if "No conversion" in str(x.message)]
        same = um.SPECIES[species(a)][1] == um.SPECIES[species(b)][1]
        if (ga is None or gb is None) and not same:
            rec.label("missing")
            require(bool(warned), "no warning for %s -> %s in %s (try %d)", src, dst, metric, k)
            for v in (1.0, 0.0, -3.0):
                require(math.isnan(c.convert_from(v)) and math.isnan(c.convert_to(v)),
                        "%s -> %s in %s gives a number", src, dst, metric)
            continue
        require(not warned, "unexpected warning for %s -> %s in %s", src, dst, metric)
        if same:
            rec.label("same species")
            want = float(um.factor(a) / um.factor(b))
        else:
            rec.label("converted")
            want = ga * rest(a) / (gb * rest(b))
        for v in (1.0, 1000.0, -2.5, 0.0, 7.0):
            got = c.convert_from(v)
            require(abs(got - v * want) <= 1e-9 * abs(v * want) + 1e-12 * want,
                    "%r %s is %r %s in %s, not %r", v, src, got, dst, metric, v * want)
            got = c.convert_to(v)
            require(abs(got - v / want) <= 1e-9 * abs(v / want) + 1e-12 / want,
                    "%r %s is %r %s in %s, not %r", v, dst, got, src, metric, v / want)


def table_cases(tier):
    res = []
    for metric in METRICS:
        for i, s in enumerate(sorted(_DATA["table"])):
            for j, form in enumerate(FORMS):
                m, t = MASSES[(i + j) % 5], TIMES[(i + 2 * j) % 4]
                a = expr(form, s, m, t, joint=(i + j) % 2 == 0)
                b = expr(form, "CO2", ["M", "t"], ["", "a"], joint=True)
                res.append({"metric": metric, "a": a, "b": b})
                res.append({"metric": metric, "a": b, "b": a})
    return res


@st.composite
def s_metric(draw):
    metric = draw(st.sampled_from(METRICS))
    form = draw(st.sampled_from(FORMS))
    listed = st.sampled_from(sorted(_DATA["table"]))
    anysp = st.sampled_from(sorted(um.SPECIES))
    carbon = st.sampled_from(um.FAMILIES["C"])

    def one(s):
        sp = draw(s)
        if sp.upper() in um.SPECIES and draw(st.integers(0, 3)) == 0:
            sp = sp.upper()
        return expr(form, sp, draw(st.sampled_from(MASSES)), draw(st.sampled_from(TIMES)),
                    draw(st.booleans()))

    kind = draw(st.sampled_from(["to", "from", "cross", "any"]))
    if kind == "to":
        return {"metric": metric, "a": one(listed), "b": one(carbon)}
    if kind == "from":
        return {"metric": metric, "a": one(carbon), "b": one(listed)}
    if kind == "cross":
        return {"metric": metric, "a": one(listed), "b": one(listed)}
    return {"metric": metric, "a": one(anysp), "b": one(carbon)}


SUBS = [
    Sub("table", check_metric, cases=table_cases,
        rule="every (metric, species, form) of the table to and from CO2; non-trivial if the "
             "two species differ"),
    Sub("random", check_metric, s_metric, quick=1500, thorough=60000,
        rule="random spellings, scalings, species pairs and forms; non-trivial as above"),
    Sub("history", check_history, s_history, quick=800, thorough=30000,
        rule="2 to 10 conversions mixing contexts and none; non-trivial if both occur"),
]
ASSUMPTIONS = ["data/metrics.json is a pinned copy of the bundled metric table"]
