"""Strategies for inputs of the DICE climate model."""
import numpy as np
from hypothesis import strategies as st

from . import cal, dicemodel as dm


@st.composite
def times(draw, most=14):
    """Start, stop, period and the step count they imply."""
    unit = draw(st.sampled_from(["y", "y", "d", "h", "s"]))
    if unit == "y":
        period = dm.YEAR * draw(st.sampled_from([1, 1, 1, 2, 5, 10]))
    elif unit == "d":
        period = cal.DAY * draw(st.integers(1, 4000))
    elif unit == "h":
        period = 3600 * draw(st.integers(1, 50000))
    else:
        period = draw(st.integers(100, 10**8))
    start = draw(st.one_of(st.integers(1800, 2150).map(cal.seconds),
                           st.integers(300, 6000).map(cal.seconds),
                           st.integers(cal.seconds(1950), cal.seconds(2100))))
    n = draw(st.integers(3, most))
    rest = draw(st.sampled_from([0, 0, 0, 1, period // 2, period - 1]))
    return {"start": start, "stop": start + (n - 1) * period + rest, "period_length": period}


def near(default, spread=0.5):
    """Values around a default."""
    return st.one_of(st.just(default),
                     st.floats(1 - spread, 1 + spread).map(lambda f: default * f))


@st.composite
def scalars(draw, every=False):
    """Some scalar settings, in reference units."""
    names = draw(st.sets(st.sampled_from(sorted(dm.DEFAULTS)), max_size=23))
    if every:
        names = set(dm.DEFAULTS)
    res = {}
    for n in sorted(names):
        default = dm.DEFAULTS[n][0]
        if n in ("mat_lower", "ml_lower", "mu_lower"):
            base = {"mat_lower": 830.4, "ml_lower": 10010.0, "mu_lower": 1527.0}[n]
            res[n] = draw(st.one_of(near(default), st.floats(0.9, 1.0).map(
                lambda f, b=base: b * f)))
        elif n == "tatm_upper":
            res[n] = draw(st.one_of(near(default), st.floats(0.8, 2.0)))
        elif n == "tocean_upper":
            res[n] = draw(st.one_of(near(default), st.floats(0.0068, 0.05)))
        elif n == "tocean_lower":
            res[n] = draw(st.one_of(near(default), st.floats(-0.05, 0.0068),
                                      st.floats(0.0, 0.1)))
        elif n in ("tatm0", "tocean0", "fex0", "fex1"):
            res[n] = draw(st.one_of(near(default), st.floats(-1, 1)))
        elif n in ("b12", "b23", "c4"):
            res[n] = draw(st.one_of(near(default), st.floats(0, 0.15)))
        elif n == "c1":
            res[n] = draw(st.one_of(near(default), st.floats(0, 0.2)))
        elif n == "c3":
            res[n] = draw(st.one_of(near(default), st.floats(0, 0.5)))
        else:
            res[n] = draw(near(default))
    for low, up in (("tocean_lower", "tocean_upper"),):
        if res.get(low, -1.0) > res.get(up, dm.DEFAULTS[up][0]):
            res[low] = res[up]
    # denormal numbers have no relative precision
    return {n: v if abs(v) > 1e-100 else 0.0 for n, v in res.items()}


@st.composite
def emissions(draw, n):
    """``n`` mean emissions in GtCO2 per year."""
    kind = draw(st.sampled_from(["ramp", "any", "any", "down", "zero", "pulse"]))
    if kind == "ramp":
        a, b = draw(st.floats(-50, 100)), draw(st.floats(-5, 5))
        return [a + b * i for i in range(n)]
    if kind == "zero":
        return [0.0] * n
    if kind == "pulse":
        k = draw(st.integers(0, n - 1))
        return [draw(st.sampled_from([1000.0, -500.0, 1.0])) if i == k else 0.0
                for i in range(n)]
    if kind == "down":
        return draw(st.lists(st.floats(-3000, 0), min_size=n, max_size=n))
    return draw(st.lists(st.one_of(st.floats(-100, 200), st.integers(-20, 60).map(float)),
                         min_size=n, max_size=n))


@st.composite
def saturation(draw, t):
    """A time of saturation before, within, at a step of, or after the run."""
    span = t["stop"] - t["start"]
    return t["start"] + draw(st.one_of(
        st.integers(1, span), st.integers(-span, 0), st.integers(1, 20).map(
            lambda k: k * t["period_length"]), st.integers(span, 5 * span)))


RES = st.sampled_from(["s", "D", "h"])


@st.composite
def inputs(draw, most=14):
    """Complete inputs: settings that are given, and the emissions."""
    t = draw(times(most))
    generics = {}
    given = dict(draw(scalars()))
    if draw(st.booleans()):
        generics["forcoth_saturation_time"] = draw(saturation(t))
    if draw(st.booleans()):
        generics["original_rounding"] = draw(st.booleans())
    if t["period_length"] != dm.YEAR or draw(st.booleans()):
        generics["period_length"] = t["period_length"]
    generics["start"], generics["stop"] = t["start"], t["stop"]
    n = dm.count(dict(dm.settings({}), **generics))
    return {"scalars": given, "generics": generics, "E": draw(emissions(n)),
            "res": draw(RES), "flag": draw(st.sampled_from(["bool", "bool", "numpy", "int"]))}


def all_settings(case):
    """Reference settings of a case."""
    return dm.settings(dict(case["scalars"], **case["generics"]))


def write_inputs(ps, case, units=None, skip=()):
    """Write the inputs of a case to a parameter set."""
    for n, v in case["generics"].items():
        if n == "original_rounding":
            v = {"numpy": np.bool_, "int": int}.get(case.get("flag"), bool)(v)
        if n not in skip:
            dm.set_generic(ps, n, v, case["res"])
    for n, v in case["scalars"].items():
        if n not in skip:
            dm.set_scalar(ps, n, v, units.get(n) if units else None)
