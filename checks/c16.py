"""C16: model results do not depend on how the input was expressed."""
import numpy as np
from hypothesis import strategies as st

from vf import dicegen, dicemodel as dm, tsgen, tsmodel
from vf.core import Sub, require

from openscm.adapters import load_adapter
from openscm.errors import InsufficientDataError
from openscm.scmdataframe import ScmDataFrame

REL = 1e-8


def frame(case, edges, vals, unit, scalars):
    """The emissions as a dataframe, with some scalars as metadata."""
    cols = {"model": ["m"], "scenario": ["s"], "region": ["World"],
            "variable": ["Emissions|CO2"], "unit": [unit]}
    if case["declare"]:
        cols["parameter_type"] = ["average"]
    for name, (value, u) in scalars.items():
        cols["%s (%s)" % ("|".join(dm.full_name(name)), u)] = [value]
    data = np.array(vals, dtype=float) / dm.E_UNITS[unit]
    return ScmDataFrame(data, index=dm.times(edges[:-1]), columns=cols)


def check_inputs(case, rec):
    base = case["input"]
    s = dicegen.all_settings(base)
    edges, vals = case["edges"], case["values"]
    e = [float(x) for x in tsmodel.convert_average(edges, vals, dm.grid(s, 1), "none")]
    want, _ = dm.simulate(s, e)
    scale = dm.scales(s, want)
    amount = max(abs(v) for v in vals) * s["period_length"] / dm.YEAR
    units = {n: sorted(dm.DEFAULTS[n][1])[k % len(dm.DEFAULTS[n][1])]
             for n, k in case["units"].items() if n in base["scalars"]}
    via, when = case["via"], case["when"]
    rec.label(via)
    rec.label(when)
    rec.label(case["kind"])
    meta = {}
    if via != "views":
        # scalars as metadata columns
        for n in case["meta"]:
            if n in base["scalars"]:
                u = units.get(n) or next(iter(dm.DEFAULTS[n][1]))
                if u:
                    meta[n] = (base["scalars"][n] / dm.DEFAULTS[n][1][u], u)
    rec.nontrivial(any(vals) and (case["kind"] != "same" or case["e_unit"] != "GtCO2/a"
                                  or units or via != "views"))

    def write(ps):
        dicegen.write_inputs(ps, base, units, skip=meta)
        if via == "views":
            dm.write_emissions(ps, edges, vals, case["e_unit"])
        else:
            frame(case, edges, vals, case["e_unit"], meta).to_parameterset(ps)

    if when == "before":
        if via == "new set":
            ps = frame(case, edges, vals, case["e_unit"], meta).to_parameterset()
            dicegen.write_inputs(ps, base, units, skip=meta)
        else:
            ps = dm.ParameterSet()
            write(ps)
        model = dm.new_model(ps)
    else:
        model = dm.new_model()
        if when == "after reset":
            for n in ("start", "stop", "period_length"):
                if n in base["generics"]:
                    dm.set_generic(model.parameters, n, base["generics"][n])
            dm.write_emissions(model.parameters, dm.grid(s, 1), [1.0] * dm.count(s))
            model.reset_stepping()
        write(model.parameters)
    model.run()
    got = dm.read(model, s)
    for name in got:
        for i, (a, b) in enumerate(zip(got[name], want[name])):
            if name == "forc" and i == 0 and s["forcoth_saturation_time"] <= s["start"]:
                continue
            tol = REL * scale[name] * (1 + amount / max(1.0, scale["mat"]))
            require(abs(a - b) <= tol, "%s[%d] is %r, not %r (%s, %s, %s)", name, i, float(a),
                    b, via, when, case["kind"])


OUT_UNITS = {
    "GtC": {"MtC": 1e3, "GtCO2": 44 / 12, "t CO2": 44 / 12 * 1e9, "PgC": 1.0},
    "delta_degC": {"K": 1.0, "mK": 1e3, "delta_degF": 1.8},
    "W/m^2": {"mW/m^2": 1e3, "kW / m^2": 1e-3},
}


def check_outputs(case, rec):
    base = case["input"]
    s = dicegen.all_settings(base)
    model = dm.new_model()
    dicegen.write_inputs(model.parameters, base)
    dm.write_emissions(model.parameters, dm.grid(s, 1), base["E"])
    model.run()
    own = dm.read(model, s)
    for r in case["reads"]:
        full, unit, kind = dm.OUTPUTS[r["name"]]
        factors = dict(OUT_UNITS[unit], **{unit: 1.0})
        to = sorted(factors)[r["unit"] % len(factors)]
        src, dst = dm.grid(s, kind == "average"), r["grid"]
        data = [float(x) * factors[to] for x in own[r["name"]]]
        try:
            want = tsmodel.convert(kind, src, data, dst, r["ext"])
        except tsmodel.Refused:
            want = None
        try:
            got = np.asarray(model.output.timeseries(
                full, to, dm.times(dst), timeseries_type=kind, extrapolation=r["ext"]).values)
        except InsufficientDataError:
            require(want is None, "reading %s is refused", r)
            rec.label("refused")
            continue
        require(want is not None, "reading %s is not refused", r)
        rec.label("beyond" if dst[0] < src[0] or dst[-1] > src[-1] else "within")
        rec.nontrivial(any(base["E"]))
        tol = 1e-9 * tsmodel.magnitude(kind, src, data, dst, r["ext"]) + 1e-300
        tol *= tsmodel.amplification(kind, src, dst, r["ext"])
        require(got.shape == (len(want),), "%s has shape %s", r, got.shape)
        for i, (a, b) in enumerate(zip(got, want)):
            require(abs(float(a) - float(b)) <= tol, "%s in %s: value %d is %r, not %r",
                    r["name"], to, i, float(a), float(b))


def check_uncovered(case, rec):
    """Emissions that miss a part of the run are refused, not made up."""
    base, edges = case["input"], case["edges"]
    s = dicegen.all_settings(base)
    full = dm.grid(s, 1)
    covered = edges[0] <= full[0] and edges[-1] >= full[-1]
    rec.label(case["via"])
    rec.label("covered" if covered else "lacks the start" if edges[-1] >= full[-1]
              else "lacks the end" if edges[0] <= full[0] else "lacks both")
    rec.nontrivial(not covered and any(case["values"]))
    model = dm.new_model()
    dicegen.write_inputs(model.parameters, base)
    if case["via"] == "views":
        dm.write_emissions(model.parameters, edges, case["values"], case["e_unit"])
    else:
        frame({"declare": True}, edges, case["values"], case["e_unit"], {}).to_parameterset(
            model.parameters)
    try:
        model.run()
    except InsufficientDataError:
        require(not covered, "emissions that cover the run are refused")
        return
    require(covered, "emissions from %s to %s are accepted for a run from %s to %s", edges[0],
            edges[-1], full[0], full[-1])


def check_registry(case, rec):
    name = case["name"]
    rec.nontrivial(bool(name))
    if case.get("loaded"):
        load_adapter("DICE")
    for fn in (load_adapter, dm.OpenSCM):
        try:
            fn(name)
        except KeyError:
            continue
        require(False, "%s accepts the unknown model %r", fn.__name__, name)
    require(load_adapter("DICE") is load_adapter("DICE"), "two adapters of one name")
    require(load_adapter("DICE").__name__ == "DICE", "wrong adapter")
    a, b = dm.new_model(), dm.new_model()
    require(a.model == "DICE" and a.parameters is not b.parameters
            and a.output is not b.output and a.output is not a.parameters,
            "models share parameter sets")
    ps, out = dm.ParameterSet(), dm.ParameterSet()
    c = dm.OpenSCM("DICE", ps, out)
    require(c.parameters is ps and c.output is out, "given parameter sets are not used")


@st.composite
def s_inputs(draw):
    base = draw(dicegen.inputs(most=9))
    s = dicegen.all_settings(base)
    period, n = s["period_length"], dm.count(s)
    edges = dm.grid(s, 1)
    kind = draw(st.sampled_from(["same", "finer", "coarser", "wider", "shifted"]))
    if kind == "finer":
        k = draw(st.sampled_from([k for k in (2, 3, 4, 5, 12) if period % k == 0] or [1]))
        edges = [edges[0] + i * (period // k) for i in range(n * k + 1)]
    elif kind == "coarser":
        k = draw(st.integers(2, 3))
        m = max(3, -(-n // k))
        edges = [edges[0] + i * period * k for i in range(m + 1)]
    elif kind == "wider":
        a, b = draw(st.integers(0, 1)), draw(st.integers(0, 3))
        edges = [edges[0] + i * period for i in range(-a, n + b + 1)]
    elif kind == "shifted":
        off = draw(st.integers(1, period - 1))
        edges = [edges[0] - off + i * period for i in range(n + 2)]
    vals = draw(dicegen.emissions(len(edges) - 1))
    names = sorted(base["scalars"])
    return {"input": base, "kind": kind, "edges": edges, "values": vals,
            "e_unit": draw(st.sampled_from(sorted(dm.E_UNITS))),
            "units": {x: draw(st.integers(0, 4)) for x in names},
            "via": draw(st.sampled_from(["views", "views", "frame", "new set"])),
            "declare": draw(st.booleans()),
            "meta": draw(st.lists(st.sampled_from(names), max_size=3, unique=True))
            if names else [],
            "when": draw(st.sampled_from(["before", "after", "after reset"]))}


@st.composite
def s_uncovered(draw):
    base = draw(dicegen.inputs(most=9))
    s = dicegen.all_settings(base)
    period, n = s["period_length"], dm.count(s)
    full = dm.grid(s, 1)
    part = draw(st.sampled_from([1, 60, period // 2, period, period * 2]))
    kind = draw(st.sampled_from(["start", "end", "end", "both", "none", "shift"]))
    lo, hi = full[0], full[-1]
    if kind in ("start", "both"):
        lo += part
    if kind in ("end", "both"):
        hi -= draw(st.sampled_from([1, 60, period // 2, period, period * 2]))
    if kind == "shift":
        lo, hi = lo + part, hi + part
    hi = max(hi, lo + 60)
    m = draw(st.integers(3, max(4, n)))
    # whole intervals, of one length as dataframes need
    step = (hi - lo) // m
    if kind in ("none", "start") or step == 0:
        step = -(-(hi - lo) // m)
        edges = [lo + i * step for i in range(m + 1)]
    else:
        edges = [hi - i * step for i in range(m, -1, -1)]
    return {"input": base, "edges": edges, "values": draw(dicegen.emissions(m)),
            "via": draw(st.sampled_from(["views", "frame"])),
            "e_unit": draw(st.sampled_from(sorted(dm.E_UNITS)))}


@st.composite
def s_outputs(draw):
    base = draw(dicegen.inputs(most=8))
    s = dicegen.all_settings(base)
    reads = []
    for _ in range(draw(st.integers(1, 4))):
        name = draw(st.sampled_from(sorted(dm.OUTPUTS)))
        src = dm.grid(s, dm.OUTPUTS[name][2] == "average")
        reads.append({"name": name, "unit": draw(st.integers(0, 4)),
                      "grid": draw(st.one_of(tsgen.target(src, 2, 8), st.just(src))),
                      "ext": draw(tsgen.EXTRA)})
    return {"input": base, "reads": reads}


SUBS = [
    Sub("inputs", check_inputs, s_inputs, quick=1500, thorough=40000,
        rule="inputs in random units, emissions on finer, coarser, wider or shifted grids, "
             "through views or dataframes, before or after the model is created or reset; "
             "non-trivial if expressed differently from the model's own way"),
    Sub("outputs", check_outputs, s_outputs, quick=600, thorough=20000,
        rule="outputs read in other units and grids with any extrapolation; non-trivial if "
             "something was emitted and a read succeeded"),
    Sub("uncovered", check_uncovered, s_uncovered, quick=400, thorough=15000,
        rule="emissions that lack the start or the end of the run, or do not; non-trivial if "
             "something is lacking and anything is emitted"),
    Sub("registry", check_registry,
        lambda: st.fixed_dictionaries({"name": st.one_of(
            st.text(max_size=8), st.sampled_from(
                ["", "DICE ", " DICE", "MAGICC6", "DICE2", "Adapter", "DIC", "dice", "Dice",
                 "DICE|", "DICE\n", "openscm.adapters.dice", "ADICE"]),
            st.tuples(st.sampled_from(["", "", "my", "open"]), st.sampled_from(list("-_ .:/|+@,;")),
                      st.sampled_from(["", "2016", "2", "beta", "1.0"])).map(
                lambda t: (t[0] + t[1] if t[0] else "") + "DICE" + (t[1] if not t[0] else "")
                + t[2])
        ).filter(lambda t: t != "DICE"), "loaded": st.booleans()}),
        quick=300, thorough=3000, rule="unknown model names; non-trivial if not empty"),
]
ASSUMPTIONS = ["tolerance 1e-8 of the numbers involved", "at least three time steps"]
