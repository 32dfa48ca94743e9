"""
Histories of conversions with and without contexts, shared by C02 and C03.

The oracle judges every step on its own: what was converted (or refused) before, in whatever
context, must not matter.
"""
import json
import math
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from . import boot, unitmodel as um
from .core import require

from openscm.core.units import (DimensionalityError, ScmUnitRegistry, UndefinedUnitError,
                                UnitConverter)

with open(os.path.join(boot.VERIF, "data", "metrics.json")) as _fh:
    DATA = json.load(_fh)
METRICS = DATA["metrics"]
GWP = {m: {s: v[i] for s, v in DATA["table"].items()} for i, m in enumerate(METRICS)}
RATIO = {"CH4_conversions": ("CH4", "C", 12 / 16), "NOx_conversions": ("NOx", "N", 14 / 46)}
FORMS = {"bare": "{}", "mass": "kt {}", "rate": "{} / yr", "flux": "kt {} / yr"}
UNKNOWN = ["zqxfoo", "HFC999"]
OTHER = ["W", "kg", "K"]


def gwp_of(metric, spelling):
    """CO2 equivalents of one unit of the spelled species, None if not tabulated."""
    f, base = um.SPECIES[spelling]
    if base == "C":
        return float(f) * 44 / 12
    for s, v in GWP[metric].items():
        fs, b = um.SPECIES[s]
        if b == base:
            return None if v is None else v * float(f / fs)
    return "unlisted"


def expected(a, b, form, ctx):
    """The factor, NaN if there is none in the metric, or a kind of refusal."""
    if a in UNKNOWN or b in UNKNOWN:
        return "undefined"
    if ctx is not None and ctx not in METRICS and ctx not in RATIO:
        return "context"
    if a in OTHER or b in OTHER:
        return 1.0 if a == b else "dimension"
    fa, ba = um.SPECIES[a]
    fb, bb = um.SPECIES[b]
    if ba == bb:
        return float(fa / fb)
    if ctx in RATIO:
        x, y, r = RATIO[ctx]
        if form != "bare" and {ba, bb} == {x, y}:
            return "unjudged"  # these contexts only support bare units
        if (ba, bb) == (x, y):
            return float(fa / fb) * r
        if (ba, bb) == (y, x):
            return float(fa / fb) / r
    elif ctx is not None:
        ga, gb = gwp_of(ctx, a), gwp_of(ctx, b)
        if "unlisted" not in (ga, gb):
            return math.nan if None in (ga, gb) else ga / gb
    return "dimension"


_OWN = []


def registry(which):
    """The registry of the unit converter, or one of our own."""
    if which == "shared":
        return UnitConverter("m", "km").unit_registry
    if not _OWN:
        reg = ScmUnitRegistry()
        reg.add_standards()
        _OWN.append(reg)
    return _OWN[0]


def convert(src, dst, ctx, how):
    """One unit converted there and back."""
    if how == "converter":
        c = UnitConverter(src, dst, ctx)
        return c.convert_from(1.0), c.convert_to(1.0)
    reg = registry(how)
    args = [] if ctx is None else [ctx]
    with np.errstate(all="ignore"):
        return (float(reg.Quantity(1.0, src).to(dst, *args).magnitude),
                float(reg.Quantity(1.0, dst).to(src, *args).magnitude))


def check_history(case, rec):
    """A sequence of conversions with and without contexts; each is independent of the rest."""
    contexts = [s[3] for s in case["steps"]]
    rec.nontrivial(any(c is not None for c in contexts) and None in contexts)
    for a, b, form, ctx, *how in case["steps"]:
        how = how[0] if how else "converter"
        want = expected(a, b, form, ctx)
        src, dst = FORMS[form].format(a), FORMS[form].format(b)
        got = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got, back = convert(src, dst, ctx, how)
        except DimensionalityError:
            got = "dimension"
        except UndefinedUnitError:
            got = "undefined"
        except KeyError:
            got = "context"
        if want == "unjudged":
            continue
        if isinstance(want, str):
            rec.label("refused")
            if how != "converter":
                rec.label("quantity")
            # with an unknown context as well as incompatible units either is reported
            ok = got == want or (
                ctx is not None and want == "context" and got in ("dimension", "undefined"))
            require(ok, "%s -> %s in %s: %r, not refused (%s)", src, dst, ctx, got, want)
        elif isinstance(got, str):
            require(False, "%s -> %s in %s is refused (%s)", src, dst, ctx, got)
        elif math.isnan(want):
            require(math.isnan(got), "%s -> %s in %s gives %r", src, dst, ctx, got)
        else:
            require(abs(got - want) <= 1e-9 * want and abs(back * want - 1) <= 1e-9,
                    "%s -> %s in %s gives %r (back %r), not %r", src, dst, ctx, got, back, want)
            rec.label("converted")


NAMES = ["C", "CO2", "CH4", "methane", "N", "N2O", "NOx", "NOX", "NH3", "SO2", "HFC134a",
         "CFC13", "HFC4310", "SF6", "CO", "nox", "N2ON", "HFC245fa"]
CONTEXTS = [None, None, None, "no such context"] + METRICS + sorted(RATIO)


@st.composite
def s_history(draw):
    """2 to 10 steps, mostly about the same few pairs."""
    name = st.sampled_from(NAMES)
    pair = st.one_of(
        st.tuples(name, name),
        st.tuples(name, st.sampled_from(NAMES + OTHER + UNKNOWN)),
        st.sampled_from([("CH4", "C"), ("CO2", "CH4"), ("NOx", "N"), ("N2O", "NOX"),
                         ("CH4", "CO2"), ("C", "CH4"), ("N", "nox")]),
    )
    pool = draw(st.lists(st.tuples(pair, st.sampled_from(sorted(FORMS))), min_size=1,
                         max_size=3))
    contexts = draw(st.lists(st.sampled_from(CONTEXTS), min_size=1, max_size=3)) + [None]
    steps = []
    for _ in range(draw(st.integers(2, 10))):
        (a, b), form = draw(st.sampled_from(pool))
        if draw(st.integers(0, 3)) == 0:
            a, b = b, a
        steps.append([a, b, form, draw(st.sampled_from(contexts)),
                      draw(st.sampled_from(["converter"] * 4 + ["shared", "own"]))])
    return {"steps": steps}
