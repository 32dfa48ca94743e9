"""C14: the bundled climate model follows its published equations for every input."""
import numpy as np
from hypothesis import strategies as st

from vf import dicegen, dicemodel as dm
from vf.core import Sub, require

REL = 1e-9


def compare(got, want, s, what, upto=None):
    """Outputs against the reference."""
    scale = dm.scales(s, want)
    for name in got:
        w = want[name][:upto]
        g = got[name][:upto]
        require(len(g) == len(w), "%s: %s has %d values, not %d", what, name, len(g), len(w))
        for i, (a, b) in enumerate(zip(g, w)):
            if name == "forc" and i == 0 and s["forcoth_saturation_time"] <= s["start"]:
                continue  # whether an initial value is saturated is not documented
            require(abs(a - b) <= REL * scale[name], "%s: %s[%d] is %r, not %r", what, name, i,
                    float(a), b)


def check_equations(case, rec):
    s = dicegen.all_settings(case)
    model = dm.new_model()
    dicegen.write_inputs(model.parameters, case)
    dm.write_emissions(model.parameters, dm.grid(s, 1), case["E"])
    want, bounds = dm.simulate(s, case["E"])
    for b in bounds:
        rec.label(b)
    if s["start"] < s["forcoth_saturation_time"] <= s["stop"]:
        rec.label("saturates within")
    rec.label("rounding" if s["original_rounding"] else "exact")
    rec.nontrivial(any(case["E"]) and len(case["scalars"]) > 0)
    model.run()
    compare(dm.read(model, s), want, s, "run")


def check_defaults(case, rec):
    """Unset parameters take the documented defaults, set ones keep their value."""
    model = dm.new_model()
    ps = model.parameters
    dicegen.write_inputs(ps, case)
    s = dicegen.all_settings(case)
    dm.write_emissions(ps, dm.grid(s, 1), case["E"])
    model.reset_stepping()
    rec.nontrivial(len(case["scalars"]) > 2)
    for name, (_, units) in dm.DEFAULTS.items():
        for unit, f in units.items():
            got = ps.scalar(dm.full_name(name), unit).value * f
            require(abs(got - s[name]) <= 1e-12 * abs(s[name]) + 1e-300, "%s is %r (through %s), not %r",
                    name, got, unit, s[name])
    for name, want in (("period_length", dm.td(s["period_length"])),
                       ("forcoth_saturation_time", dm.dt(s["forcoth_saturation_time"])),
                       ("original_rounding", s["original_rounding"])):
        got = ps.generic(("DICE", name)).value
        require(got == want, "%s is %r, not %r", name, got, want)
    first = dm.read(model, s)
    want, _ = dm.simulate(s, case["E"])
    compare(first, want, s, "after reset", upto=1)


def check_long(case, rec):
    """Long runs with the default parameters."""
    n = case["n"]
    s = dm.settings({"start": case["start"], "stop": case["start"] + (n - 1) * dm.YEAR})
    model = dm.new_model()
    for k in ("start", "stop"):
        dm.set_generic(model.parameters, k, s[k])
    e = [case["E"][i % len(case["E"])] for i in range(n)]
    dm.write_emissions(model.parameters, dm.grid(s, 1), e)
    want, bounds = dm.simulate(s, e)
    for b in bounds:
        rec.label(b)
    rec.nontrivial(n > 50)
    model.run()
    compare(dm.read(model, s), want, s, "run")


@st.composite
def s_long(draw):
    return {"n": draw(st.integers(30, 400)),
            "start": draw(dicegen.times())["start"],
            "E": draw(dicegen.emissions(7))}


SUBS = [
    Sub("equations", check_equations, dicegen.inputs, quick=3000, thorough=60000,
        rule="random settings around the defaults with bounds within reach, run times, step "
             "lengths, emissions; non-trivial if there are emissions and a changed parameter"),
    Sub("defaults", check_defaults, dicegen.inputs, quick=250, thorough=5000,
        rule="parameters after a reset with some of them set; non-trivial if more than two "
             "are set"),
    Sub("long", check_long, s_long, quick=60, thorough=1500,
        rule="30 to 400 years; non-trivial above 50 years"),
]
ASSUMPTIONS = [
    "at least three time steps (the documented minimum of the timeseries conversion)",
    "tolerance 1e-9 of the numbers involved",
    "whether the first reported forcing is saturated, when saturation is before the start, is "
    "left unjudged",
]
