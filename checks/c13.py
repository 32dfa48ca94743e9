"""C13: conversion through parameter sets equals direct conversion."""
import numpy as np
from hypothesis import strategies as st

from vf import cal, psgen, tsgen, tsmodel, unitgen, unitmodel as um
from vf.core import Sub, require
from vf.tscheck import ETYPE, PTYPE

from openscm.core.parameterset import ParameterSet
from openscm.core.time import InterpolationType
from openscm.errors import InsufficientDataError

REL = 1e-9


def check_scalar(case, rec):
    texts = [um.text(u) for u in case["units"]]
    v = case["value"]
    ps = ParameterSet()
    views = [ps.scalar("X|Y", t) for t in texts]
    writer, others = case["writer"], range(len(texts))
    views[writer].value = v
    rec.nontrivial(len(set(texts)) > 1 and v != 0)
    # storage is the unit of the first view
    s0, o0 = um.affine(case["units"][writer], case["units"][0])
    stored = float(s0) * v + float(o0)
    for i in others:
        s, o = um.affine(case["units"][writer], case["units"][i])
        s2, o2 = um.affine(case["units"][0], case["units"][i])
        want = float(s * um.F(v) + o) if isinstance(v, int) else float(s) * v + float(o)
        scale = (abs(want) + abs(float(o)) + abs(float(o2))
                 + abs(float(s2)) * (abs(stored) + abs(float(o0))))
        got = views[i].value
        require(abs(float(got) - want) <= REL * scale + 1e-300, "written %r %s, read %r %s, not %r "
                "(stored in %s)", v, texts[writer], got, texts[i], want, texts[0])


def spell(what, kind, how):
    """The ways to name a type or mode."""
    if how == "enum":
        return (PTYPE if kind == "type" else ETYPE)[what]
    return {"lower": what, "upper": what.upper(), "title": what.title()}[how]


def times(secs, res):
    """Time points in a resolution that can hold them."""
    arr = np.array(secs, dtype="int64").astype("datetime64[s]")
    if res == "D" and all(s % cal.DAY == 0 for s in secs):
        return arr.astype("datetime64[D]")
    if res in ("ms", "us"):
        return arr.astype("datetime64[%s]" % res)
    if res == "readonly":
        arr.setflags(write=False)
    return arr


def convert(ptype, vals, scale, a, b, ext):
    """(values, scale) from view ``a`` to view ``b``; raises Refused."""
    s, o = um.affine(a["u"], b["u"])
    vals = [float(s) * x + float(o) for x in vals]
    scale = float(abs(s)) * scale + float(abs(o))
    fn = tsmodel.convert_average if ptype == "average" else tsmodel.convert_point
    if len(vals) < 3:
        raise tsmodel.Refused
    res = fn(a["g"], vals, b["g"], ext)
    m = tsmodel.magnitude(ptype, a["g"], vals, b["g"], ext)
    # errors already in the data are amplified too, whatever the data
    scale *= max(1.0, 0.25 * tsmodel.amplification(ptype, a["g"], b["g"], ext))
    return [float(x) for x in res], max(scale, m)


def check_timeseries(case, rec):
    ptype = case["type"]
    views, order = case["views"], case["order"]
    ps = ParameterSet()
    first = views[order[0]]
    real = {}
    for i in order:
        w = views[i]
        kw = {"extrapolation": spell(w["ext"], "ext", case["how"])}
        if not (ptype == "point" and case["how"] == "lower"):  # the default type
            kw["timeseries_type"] = spell(ptype, "type", case["how"])
        if case["how"] == "upper":
            kw["interpolation"] = "Linear"
        elif case["how"] == "enum":
            kw["interpolation"] = InterpolationType.LINEAR
        late = first["g"][0] > w["g"][1]
        points = times(w["g"], case["res"])
        try:
            real[i] = ps.timeseries(("A", "B"), um.text(w["u"]), points,
                                    region=("World", "R"), **kw)
            if points.flags.writeable:
                points += points[1] - points[0]  # the caller's array is the caller's
        except InsufficientDataError:
            require(late, "view %d is refused", i)
            rec.label("view refused")
            return
        require(not late, "view %d is not refused", i)
    writer = views[0]
    if writer["g"][0] > first["g"][1]:
        rec.label("starts late")
        return
    vals = case["values"]
    m = max(abs(float(v)) for v in vals)
    try:
        stored = convert(ptype, vals, m, writer, first, writer["ext"])
    except tsmodel.Refused:
        stored = None
    data = np.array(vals) if case["as"] == "array" else list(vals)
    try:
        real[0].values = data
        refused = False
        for k in range(len(data)):
            data[k] = -999
    except InsufficientDataError:
        refused = True
    if stored is None or refused:
        rec.label("write refused")
        require(stored is None and refused, "writing is %srefused",
                "" if refused else "not ")
        return
    rec.nontrivial(len(set(vals)) > 1 and writer["g"] != views[-1]["g"])
    rec.label("storage %s" % {0: "writer", len(views) - 1: "reader"}.get(order[0], "third"))
    back = np.asarray(real[0].values)
    require(back.shape == (len(vals),) and all(
        abs(float(b) - float(v)) <= REL * m for b, v in zip(back, vals)),
        "the writer reads %s, not %s", back, vals)
    for i in order:
        if i == 0:
            continue
        v = views[i]
        try:
            want = (convert(ptype, stored[0], stored[1], first, v, v["ext"]))
        except tsmodel.Refused:
            want = None
        try:
            got = np.asarray(real[i].values)
        except InsufficientDataError:
            require(want is None, "reading view %d is refused", i)
            rec.label("read refused")
            continue
        require(want is not None, "reading view %d is not refused: %s", i, got)
        rec.label("read %s" % ("beyond" if v["g"][0] < first["g"][0]
                               or v["g"][-1] > first["g"][-1] else "within"))
        require(got.shape == (len(want[0]),), "view %d has shape %s", i, got.shape)
        for k, (g, x) in enumerate(zip(got, want[0])):
            require(abs(float(g) - x) <= REL * want[1] + 1e-300,
                    "view %d: value %d is %r, not %r", i, k, float(g), x)


@st.composite
def s_scalar(draw):
    n = draw(st.integers(2, 4))
    return {"units": draw(unitgen.compatible(n)), "value": draw(unitgen.VALUES),
            "writer": draw(st.integers(0, n - 1))}


@st.composite
def s_timeseries(draw):
    n = draw(st.sampled_from([2, 2, 2, 3, 4]))
    units = draw(unitgen.compatible(n))
    ptype = draw(st.sampled_from(["point", "average"]))
    base = draw(tsgen.grid(4, 9))
    views = []
    for i in range(n):
        g = base if i == 0 else draw(st.one_of(tsgen.target(base, 4, 9),
                                               st.just(list(base))))
        views.append({"u": units[i], "g": g, "ext": draw(tsgen.EXTRA)})
    return {"type": ptype, "views": views,
            "order": draw(st.permutations(range(n))),
            "values": draw(tsgen.values(len(base) - (ptype == "average"))),
            "how": draw(st.sampled_from(["enum", "lower", "upper", "title"])),
            "res": draw(st.sampled_from(["s", "s", "D", "ms", "us", "readonly"])),
            "as": draw(st.sampled_from(["array", "list"]))}


@st.composite
def s_short(draw):
    case = draw(s_timeseries())
    for v in case["views"]:
        v["g"] = v["g"][:draw(st.integers(2, 5))]
    n = len(case["views"][0]["g"]) - (case["type"] == "average")
    case["values"] = case["values"][:n]
    return case


SUBS = [
    Sub("scalar", check_scalar, s_scalar, quick=2500, thorough=60000,
        rule="2 to 4 views with compatible units, written through any of them, read through "
             "all; non-trivial if the units differ and the value is not zero"),
    Sub("timeseries", check_timeseries, s_timeseries, quick=3000, thorough=100000,
        rule="2 to 4 views with compatible units, related grids and any extrapolation mode, "
             "created in any order, spelled in any way; non-trivial if the write succeeds, "
             "grids differ and data is not constant"),
    Sub("short", check_timeseries, s_short, quick=1000, thorough=30000,
        rule="as timeseries, with grids of 2 to 5 time points, too short ones included"),
]
ASSUMPTIONS = [
    "tolerance 1e-9 of the largest number involved in the conversions",
    "a writer whose grid starts after the second time point of the storage grid is left "
    "unjudged",
]
