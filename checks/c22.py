"""C22: unit conversion touches exactly the selected series and all of them."""
from fractions import Fraction as F

from hypothesis import strategies as st

from checks import c03
from vf import framemodel as fm, frames as fr, unitgen, unitmodel as um
from vf.core import Sub, require

from openscm.core.units import DimensionalityError, UndefinedUnitError

GASES = ["CO2", "CH4", "N2O", "SF6", "HFC134a", "CF4", "C"]
BAD_UNITS = ["nothing", "CO3", "GtXYZ", "parrots / yr"]


@st.composite
def s_gas_unit(draw, form):
    return c03.expr(form, draw(st.sampled_from(GASES)), draw(st.sampled_from(c03.MASSES)),
                    draw(st.sampled_from(c03.TIMES)), draw(st.booleans()))


@st.composite
def s_case(draw, fault=False):
    n = draw(st.integers(1, 6))
    metric = draw(st.sampled_from([None, None, "AR4GWP100", "SARGWP100", "AR5GWP100"]))
    if metric and metric not in c03.METRICS:
        metric = draw(st.sampled_from(c03.METRICS))
    if metric:
        form = draw(st.sampled_from(["mass", "flux", "flux"]))
        units = [draw(s_gas_unit(form)) for _ in range(n + 2)]
    else:
        units = draw(unitgen.compatible(n + 2))
        # several series often share a unit
        units = [draw(st.sampled_from(units[:max(1, n - 1)])) for _ in range(n)] + units[-2:]
    targets = units[n:]
    back = draw(st.integers(0, n - 1))
    groups = [draw(st.sampled_from(["x", "y"])) for _ in range(n)]
    other = draw(st.sampled_from(["m", "K", "J", "ppt", "g", "kg CO2"]))
    odd = [draw(st.integers(0, 3)) == 0 for _ in range(n)]
    f = draw(fr.frame(lo=n, hi=n, time_strategy=fr.times(hi=4), words=["a", "b|c", "é"],
                      units=["K"], variables=["Emissions|CO2", "Emissions|CH4", "T"]))
    for i, r in enumerate(f["rows"]):
        r["meta"]["model"] = "%s%d" % (groups[i], i)
        r["unit"] = {"p": [[["", other], 1]], "s": 0, "text": other} if odd[i] else units[i]
    prior = draw(st.integers(0, 3)) == 0
    if prior:
        f["cols"] = f["cols"] + ["unit_context"]
        for r in f["rows"]:
            r["meta"]["unit_context"] = draw(st.sampled_from([None, "AR4GWP100", "old"]))
    steps = []
    for t in targets[:draw(st.integers(1, 2))]:
        filters = {}
        kind = draw(st.integers(0, 9))
        if kind < 6:
            filters["model"] = draw(st.sampled_from(
                ["x*", "y*", ["x*", "y1"], "*0", ["x0", "y1", "x2"], "zz"]))
        if kind in (4, 5, 6):
            filters["variable"] = draw(st.sampled_from(["Emissions*", "T", "*|CO2"]))
        if kind == 7:
            filters["region"] = draw(st.sampled_from(["World", "World*"]))
        if kind == 8:
            filters["level"] = draw(st.sampled_from([0, 1, "1+"]))
        unit = {"text": draw(st.sampled_from(BAD_UNITS))} if draw(
            st.integers(0, 19)) == 0 or (fault and draw(st.booleans())) else t
        steps.append({"unit": unit, "context": metric, "filters": filters,
                      "keep": draw(st.integers(0, 4)) > 0, "inplace": draw(st.booleans())})
    if fault:
        # at least one series cannot be converted
        r = f["rows"][back]
        r["unit"] = {"text": draw(st.sampled_from(BAD_UNITS + ["m^3", "kg^2"]))}
    for r in f["rows"]:
        r["meta"]["unit"] = unit_text(r["unit"])
    return {"frame": f, "steps": steps, "drop": draw(st.integers(0, 5)) == 0}


def unit_text(u):
    return u["text"] if "text" in u else um.text(u)


def factor(src, dst, context):
    """(scale, offset), or the expected error."""
    for u in (src, dst):
        if "p" not in u and u["text"] in BAD_UNITS:
            return UndefinedUnitError
    if src.get("text") and dst.get("text") and src["text"] == dst["text"]:
        return F(1), F(0)
    known = {"m^3": {"length": 3}, "kg^2": {"mass": 2}}
    if "p" not in src or "p" not in dst:
        assert src.get("text") in known or dst.get("text") in known
        return DimensionalityError

    def clean(u):
        # texts like "kg CO2" written out
        return {"kg CO2": um.simple(("k", "g", 1), ("", "CO2", 1)),
                "kg": um.simple(("k", "g", 1))}.get(u.get("text"), u)

    a, b = clean(src), clean(dst)
    if um.dims(a) == um.dims(b):
        return um.affine(a, b)
    if context:
        def other(u):
            return {k: v for k, v in um.dims(u).items() if not k.startswith("[")}

        def gas(u):
            return any(t[-1] in um.SPECIES for t, _ in u["p"])

        if gas(a) and gas(b) and other(a) == other(b):
            ga = c03.gwp_of(context, c03.species(a))
            gb = c03.gwp_of(context, c03.species(b))
            return F(ga * c03.rest(a) / (gb * c03.rest(b))), F(0)
    return DimensionalityError


def tables(rows, times, cols):
    """Reference table of the rows, without missing contexts."""
    res = {}
    for r in rows:
        meta = {c: r["meta"].get(c) for c in cols}
        if meta.get("unit_context") is None:
            meta.pop("unit_context", None)
        res[fr.key(meta)] = r
    return res


def observe(df):
    """Observed table, without missing contexts."""
    got, secs = fr.observe(df)
    return {tuple(x for x in k if x != ("unit_context", None)): v for k, v in got.items()}, secs


def check_convert(case, rec):
    f = case["frame"]
    times = f["times"]
    df = fr.build(f)
    rows = [{"meta": dict(r["meta"]), "unit": r["unit"], "exact": True,
             "values": {t: v for t, v in zip(times, r["values"]) if v is not None}}
            for r in f["rows"]]
    cols = fr.REQUIRED + f["cols"]
    if case["drop"] and len(rows) > 1:
        # conversion after a selection
        df = df.filter(model=rows[0]["meta"]["model"], keep=False)
        rows = rows[1:]
        times = sorted({t for r in rows for t in r["values"]})
    for step in case["steps"]:
        if "unit_context" not in cols:
            cols = cols + ["unit_context"]
        keyed = tables(rows, times, cols)
        chosen = fm.select({k: {t: 0.0 for t in r["values"]} for k, r in keyed.items()},
                           step["filters"], step["keep"])
        target = unit_text(step["unit"])
        facs = {k: factor(keyed[k]["unit"], step["unit"], step["context"]) for k in chosen}
        errors = [x for x in facs.values() if isinstance(x, type)]
        before = fr.snapshot(df)
        args = dict(step["filters"])
        if not step["keep"]:
            args["keep"] = False
        what = "convert %s to %s (%s)" % (args, target, step["context"])
        rec.label("%d of %d" % (len(chosen), len(rows)) if len(rows) < 4 else "larger")
        new = None
        try:
            if step["inplace"]:
                require(df.convert_unit(target, context=step["context"], inplace=True,
                                        **args) is None, "in-place returns something")
                new = df
            else:
                new = df.convert_unit(target, context=step["context"], **args)
        except (DimensionalityError, UndefinedUnitError) as e:
            rec.label("refused")
            rec.nontrivial(len(rows) > 1)
            require(any(isinstance(e, x) for x in errors), "%s is refused: %r", what, e)
            require(fr.snapshot(df) == before, "%s fails and modifies the dataframe", what)
            continue
        require(not errors, "%s is accepted although some series cannot be converted", what)
        if not step["inplace"]:
            require(fr.snapshot(df) == before, "%s modifies the dataframe", what)
        rec.nontrivial(0 < len(chosen) < len(rows) or len(
            {unit_text(keyed[k]["unit"]) for k in chosen}) > 1)
        old = {id(r): dict(r) for r in rows}
        for k, r in keyed.items():
            if k not in chosen:
                continue
            scale, offset = facs[k]
            r["tol"] = {}
            vals = {}
            for t, v in r["values"].items():
                vals[t] = float(offset + scale * F(v))
                r["tol"][t] = 1e-9 * abs(vals[t]) + 1e-9 * abs(float(offset)) + 1e-11 * float(
                    abs(scale)) * abs(v) + float(abs(scale)) * old[id(r)].get("tol", {}).get(t, 0.0)
            r["values"] = vals
            r["unit"] = step["unit"]
            r["meta"] = dict(r["meta"], unit=target, unit_context=step["context"])
        df = new
        judge(df, rows, times, cols, what)
        # each value is what converting it on its own gives
    if rec.is_nontrivial and new is not None:
        undo(case, df, rows, times, cols, rec)


def judge(df, rows, times, cols, what):
    got, secs = observe(df)
    require(secs == times, "%s: times are %s", what, secs)
    want = tables(rows, times, cols)
    require(set(got) == set(want), "%s: unexpected series %s, missing %s", what,
            [k for k in got if k not in want][:3], [k for k in want if k not in got][:3])
    for k, r in want.items():
        g = got[k]
        require(set(g) == set(r["values"]), "%s: %s has values at %s", what, k, sorted(g))
        for t, v in r["values"].items():
            tol = r.get("tol", {}).get(t, 0.0)
            require(abs(g[t] - v) <= tol, "%s: %s at %s is %r, not %r%s", what, k, t, g[t], v,
                    "" if tol else " (not selected)")


def undo(case, df, rows, times, cols, rec):
    """Converting every series back on its own restores the original values."""
    start = {r["meta"]["model"]: r for r in case["frame"]["rows"]}
    for r in rows:
        was = start[r["meta"]["model"]]
        back = factor(r["unit"], was["unit"], r["meta"].get("unit_context"))
        if "tol" not in r or isinstance(back, type):
            continue
        scale, offset = back
        df.convert_unit(was["meta"]["unit"], context=r["meta"].get("unit_context"),
                        inplace=True, model=r["meta"]["model"])
        tol = {t: float(abs(scale)) * r["tol"][t] + 1e-9 * (
            abs(float(offset)) + abs(float(scale) * v)) for t, v in r["values"].items()}
        r["values"] = {t: v for t, v in zip(case["frame"]["times"], was["values"])
                       if v is not None and t in times}
        r["tol"] = tol
        r["unit"] = was["unit"]
        r["meta"] = dict(r["meta"], unit=was["meta"]["unit"])
        rec.label("converted back")
        judge(df, rows, times, cols, "converted back")


RULE = "; non-trivial if a part of the series or several units are converted"
SUBS = [
    Sub("convert", check_convert, s_case, quick=700, thorough=25000,
        rule="frames with mixed units, selections, targets and contexts, converted once or "
             "twice and back" + RULE),
    Sub("fail", check_convert, lambda: s_case(True), quick=350, thorough=10000,
        rule="the same with a unit that cannot be converted among the series" + RULE),
]
ASSUMPTIONS = [
    "whether an unset conversion context is a missing entry or a missing column is not judged",
    "values are compared to 1e-9 relative; series which are not selected exactly",
]
