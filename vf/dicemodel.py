"""
The climate part of DICE 2013, written down from its equations, and a runner for the real
model.  All quantities of the reference are in the units named in DEFAULTS; times are
integer seconds.
"""
from math import floor, log2

import numpy as np

from . import cal, tsmodel

from openscm.core import OpenSCM
from openscm.core.parameterset import ParameterSet

YEAR = 365 * cal.DAY

# name: (value, {unit: factor from this unit to the reference unit}, first is the reference)
GTC = {"GtC": 1.0, "MtC": 1e-3, "GtCO2": 12 / 44, "TtC": None, "t C": 1e-9}
GTC.pop("TtC")
TEMP = {"delta_degC": 1.0, "K": 1.0, "mK": 1e-3, "delta_degF": 5 / 9}
FORCE = {"W/m^2": 1.0, "mW/m^2": 1e-3, "kW / m^2": 1e3}
ONE = {"": 1.0, "dimensionless": 1.0, "g/kg": 1e-3, "kg / t": 1e-3, "t/kg": 1e3}
DEFAULTS = {
    "mat0": (830.4, GTC), "mateq": (588.0, GTC), "mat_lower": (10.0, GTC),
    "ml0": (10010.0, GTC), "mleq": (10000.0, GTC), "ml_lower": (1000.0, GTC),
    "mu0": (1527.0, GTC), "mueq": (1350.0, GTC), "mu_lower": (100.0, GTC),
    "tatm0": (0.8, TEMP), "tatm_upper": (40.0, TEMP),
    "tocean0": (0.0068, TEMP), "tocean_lower": (-1.0, TEMP), "tocean_upper": (20.0, TEMP),
    "b12": (0.0181, ONE), "b23": (0.00071, ONE),
    "c1": (0.0222, {"delta_degC*m^2/W": 1.0, "K*m^2/W": 1.0, "delta_degC*m^2/mW": 1e3}),
    "c3": (0.09175, {"W/m^2/delta_degC": 1.0, "mW/m^2/K": 1e-3, "W/m^2/delta_degF": 9 / 5}),
    "c4": (0.00487, ONE),
    "fex0": (0.25, FORCE), "fex1": (0.7, FORCE),
    "fco22x": (3.8, FORCE), "t2xco2": (2.9, TEMP),
}
FULL_NAME = {"fco22x": ("Radiative Forcing Sensitivity",),
             "t2xco2": ("Equilibrium Climate Sensitivity",)}
GENERIC_DEFAULTS = {"period_length": YEAR, "original_rounding": True,
                    "forcoth_saturation_time": cal.seconds(2100)}
OUTPUTS = {
    "mat": (("Pool", "CO2", "Atmosphere"), "GtC", "point"),
    "ml": (("Pool", "CO2", "Ocean", "lower"), "GtC", "point"),
    "mu": (("Pool", "CO2", "Ocean", "shallow"), "GtC", "point"),
    "tatm": (("Surface Temperature", "Increase"), "delta_degC", "point"),
    "tocean": (("Ocean Temperature", "Increase"), "delta_degC", "point"),
    "forc": (("Radiative Forcing", "CO2"), "W/m^2", "average"),
}
# emission units: factor to GtCO2 per Julian year, and to GtC per Julian year
CO2 = 44 / 12
E_UNITS = {"GtCO2/a": 1.0, "GtC/a": CO2, "MtCO2/yr": 1e-3, "Gt C / yr": CO2,
           "MtC / day": CO2 * 1e-3 * 365.25, "t CO2/s": 1e-9 * 31557600}


def full_name(name):
    """Hierarchical name of a parameter."""
    return FULL_NAME.get(name, ("DICE", name))


def settings(given):
    """All settings: what is given over the defaults, in reference units."""
    res = {k: v for k, (v, _) in DEFAULTS.items()}
    res.update(GENERIC_DEFAULTS)
    res.update(given)
    return res


def count(s):
    """Number of time points."""
    return floor((s["stop"] - s["start"]) / s["period_length"]) + 1


def grid(s, extra=0):
    """Time points of the run (with the end of the last interval if extra)."""
    return [s["start"] + i * s["period_length"] for i in range(count(s) + extra)]


def simulate(s, emissions):
    """
    Outputs for settings ``s`` and the mean emissions (GtCO2 per Julian year) of each
    interval of ``grid(s, 1)``.
    """
    n = len(emissions)
    share = 1 / 3.666 if s["original_rounding"] else 12 / 44
    years = s["period_length"] / YEAR
    b12, b23 = s["b12"], s["b23"]
    b21 = b12 * s["mateq"] / s["mueq"]
    b32 = b23 * s["mueq"] / s["mleq"]
    out = {"mat": [s["mat0"]], "ml": [s["ml0"]], "mu": [s["mu0"]], "tatm": [s["tatm0"]],
           "tocean": [s["tocean0"]],
           "forc": [s["fco22x"] * log2(s["mat0"] / s["mateq"]) + s["fex0"]]}
    bounds = set()

    def bounded(name, v, lower=None, upper=None):
        if lower is not None and v < lower:
            bounds.add(name + " lower")
            return lower
        if upper is not None and v > upper:
            bounds.add(name + " upper")
            return upper
        return v

    for i in range(1, n):
        mat, ml, mu, tatm, toc = (out[k][-1] for k in ("mat", "ml", "mu", "tatm", "tocean"))
        new = bounded("mat", mat - b12 * mat + b21 * mu + emissions[i - 1] * share * years,
                      lower=s["mat_lower"])
        out["ml"].append(bounded("ml", ml - b32 * ml + b23 * mu, lower=s["ml_lower"]))
        out["mu"].append(bounded("mu", mu + b12 * mat - b21 * mu - b23 * mu + b32 * ml,
                                 lower=s["mu_lower"]))
        out["mat"].append(new)
        out["tocean"].append(bounded("tocean", toc + s["c4"] * (tatm - toc),
                                     lower=s["tocean_lower"], upper=s["tocean_upper"]))
        passed = i * s["period_length"]
        ramp = s["forcoth_saturation_time"] - s["start"]
        other = (s["fex1"] if passed >= ramp
                 else s["fex0"] + (s["fex1"] - s["fex0"]) * (passed / ramp))
        if passed >= ramp:
            bounds.add("saturated")
        forc = s["fco22x"] * log2(new / s["mateq"]) + other
        out["forc"].append(forc)
        cooling = s["fco22x"] / s["t2xco2"] * tatm + s["c3"] * (tatm - toc)
        out["tatm"].append(bounded("tatm", tatm + s["c1"] * (forc - cooling),
                                   upper=s["tatm_upper"]))
    return out, bounds


def dt(sec, res="s"):
    """Numpy time."""
    v = np.datetime64(int(sec), "s")
    return v.astype("datetime64[D]") if res == "D" and sec % cal.DAY == 0 else v


def td(sec, res="s"):
    """Numpy duration."""
    v = np.timedelta64(int(sec), "s")
    if res == "D" and sec % cal.DAY == 0:
        return v.astype("timedelta64[D]")
    return v.astype("timedelta64[h]") if res == "h" and sec % 3600 == 0 else v


def times(secs):
    """Numpy times."""
    return np.array(secs, dtype="int64").astype("datetime64[s]")


def set_scalar(ps, name, value, unit=None):
    """Write a scalar parameter, given in reference units, in some unit."""
    units = DEFAULTS[name][1]
    unit = unit if unit is not None else next(iter(units))
    ps.scalar(full_name(name), unit).value = value / units[unit]


def set_generic(ps, name, value, res="s"):
    """Write one of the other settings."""
    if name in ("start", "stop"):
        ps.generic("Start Time" if name == "start" else "Stop Time").value = dt(value, res)
    elif name == "period_length":
        ps.generic(("DICE", name)).value = td(value, res)
    elif name == "forcoth_saturation_time":
        ps.generic(("DICE", name)).value = dt(value, res)
    else:
        ps.generic(("DICE", name)).value = value


def write_emissions(ps, edges, gtco2, unit="GtCO2/a"):
    """Write emissions (GtCO2 per year) on a grid, in some unit."""
    view = ps.timeseries(("Emissions", "CO2"), unit, times(edges), timeseries_type="average")
    view.values = np.array(gtco2, dtype=float) / E_UNITS[unit]
    return view


def output_view(model, name, s):
    """View of an output on the run's own grid."""
    full, unit, kind = OUTPUTS[name]
    return model.output.timeseries(full, unit, times(grid(s, kind == "average")),
                                   timeseries_type=kind)


def read(model, s, names=None):
    """Outputs on the run's own grid."""
    return {n: np.array(output_view(model, n, s).values, dtype=float)
            for n in (names or OUTPUTS)}


def scales(s, out):
    """Magnitude of the numbers behind each output, for tolerances."""
    carbon = max(max(abs(x) for x in out[k]) for k in ("mat", "ml", "mu"))
    forc = (max(abs(x) for x in out["forc"]) + abs(s["fco22x"]) + abs(s["fex0"])
            + abs(s["fex1"]))
    # forcing depends on the logarithm of the pool: an error of the pool relative to it
    low = min(abs(x) for x in out["mat"])
    forc += abs(s["fco22x"]) * carbon / low
    temp = max(max(abs(x) for x in out[k]) for k in ("tatm", "tocean")) + s["c1"] * forc
    return {"mat": carbon, "ml": carbon, "mu": carbon, "forc": forc, "tatm": temp,
            "tocean": temp}


def new_model(ps=None):
    """A fresh model."""
    return OpenSCM("DICE", ps) if ps is not None else OpenSCM("DICE")


__all__ = ["OpenSCM", "ParameterSet", "tsmodel"]
