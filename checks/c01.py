"""C01: unit conversion is one consistent affine map with the physical factor."""
import numpy as np
from hypothesis import strategies as st

from vf import unitgen, unitmodel as um
from vf.core import Sub, require

from openscm.core.units import UnitConverter

REL = 1e-9


def close(got, want, extra=0.0, rel=REL):
    got, want = float(got), float(want)
    return abs(got - want) <= rel * abs(want) + extra + 1e-300


def conv(a, b):
    return UnitConverter(um.text(a), um.text(b))


def expected(src, dst, v):
    scale, offset = um.affine(src, dst)
    from fractions import Fraction as F

    return float(offset + scale * F(v)), 1e-11 * float(abs(scale)) + 1e-9 * float(abs(offset))


def check_pair(case, rec):
    a, b = case["units"]
    vals = case["values"]
    c = conv(a, b)
    rec.nontrivial(um.text(a) != um.text(b) and any(v not in (0, 1) for v in vals))
    rec.label("offset" if um.is_offset(a) or um.is_offset(b) else "linear")
    if any(k.startswith("[") for k in um.dims(a)):
        rec.label("species")
    for v in vals:
        want, tol = expected(a, b, v)
        got = c.convert_from(v)
        require(close(got, want, tol), "%s -> %s: %r gives %r, not %r",
                um.text(a), um.text(b), v, got, want)
        wantb, tolb = expected(b, a, v)
        gotb = c.convert_to(v)
        require(close(gotb, wantb, tolb), "%s <- %s: %r gives %r, not %r",
                um.text(a), um.text(b), v, gotb, wantb)
        # converting back restores
        back = c.convert_to(got)
        _, tb = expected(b, a, want)
        require(close(back, v, tb * 4, 1e-8), "%s -> %s -> back: %r becomes %r",
                um.text(a), um.text(b), v, back)
    require(c.source == um.text(a) and c.target == um.text(b),
            "the converter from %s to %s claims %r, %r", um.text(a), um.text(b), c.source, c.target)
    # quantities of the registry behave alike
    reg = c.unit_registry
    for v in vals:
        q = reg.Quantity(v, reg.Unit(um.text(a))).to(reg.Unit(um.text(b))).magnitude
        want, tol = expected(a, b, v)
        require(close(q, want, tol), "%r %s as a quantity is %r %s, not %r", v, um.text(a), q,
                um.text(b), want)
    # arrays are converted element by element, also integer arrays and 2-d ones
    arr = np.array([float(v) for v in vals])
    keep = arr.copy()
    for method in ("convert_from", "convert_to"):
        out = np.asarray(getattr(c, method)(arr))
        require(out.shape == arr.shape, "%s changes the shape", method)
        for v, o in zip(vals, out):
            require(close(o, getattr(c, method)(float(v)), 0, 1e-12),
                    "%s of an array differs from the scalar conversion of %r", method, v)
        require(np.array_equal(arr, keep), "%s changes its argument", method)
        ints = [int(v) for v in vals if abs(v) < 1e6]
        if ints:
            out = np.asarray(getattr(c, method)(np.array(ints)))
            for v, o in zip(ints, out):
                require(close(o, getattr(c, method)(float(v)), 0, 1e-12),
                        "%s of an integer array differs for %r: %r", method, v, o)
        sq = np.asarray(getattr(c, method)(np.array([arr, arr + 1])))
        require(sq.shape == (2, len(arr)) and np.array_equal(
            sq[0], np.asarray(getattr(c, method)(arr)), equal_nan=True),
                "%s of a two-dimensional array", method)
    # identity
    ident = conv(a, a)
    for v in vals:
        require(close(ident.convert_from(v), v, 1e-12 * max(1, abs(v)), 1e-12)
                and close(ident.convert_to(v), v, 1e-12 * max(1, abs(v)), 1e-12),
                "converting %s to itself changes %r", um.text(a), v)


def check_triple(case, rec):
    a, b, c = case["units"]
    rec.nontrivial(len({um.text(u) for u in case["units"]}) == 3)
    ab, bc, ac = conv(a, b), conv(b, c), conv(a, c)
    for v in case["values"]:
        direct = float(ac.convert_from(v))
        via = float(bc.convert_from(ab.convert_from(v)))
        scale = float(abs(um.affine(a, c)[0]))
        off = float(abs(um.affine(a, b)[1] * um.affine(b, c)[0])) + float(
            abs(um.affine(b, c)[1])
        )
        tol = 1e-11 * scale + 1e-9 * off
        require(close(via, direct, tol, 1e-9), "%s -> %s -> %s: %r gives %r, directly %r",
                um.text(a), um.text(b), um.text(c), v, via, direct)
        require(close(ac.convert_to(direct), v,
                      1e-11 + 1e-9 * off / max(scale, 1e-300), 1e-8),
                "convert_to does not invert convert_from for %r", v)


def table_cases(_tier):
    res = []
    for name, (_, dim, prefixes) in um.ATOMS.items():
        for p in prefixes:
            res.append({"units": [um.simple((p, name, 1)), um.simple(("", name, 1))]})
        ref = {
            "mass": ("k", "g", 1), "time": ("", "s", 1), "length": ("", "m", 1),
            "conc": ("", "ppt", 1), "temp": ("", "K", 1),
        }
        parts = []
        for d, e in dim.items():
            p, atom, _ = ref[d]
            parts.append((p, atom, e))
        if parts:
            res.append({"units": [um.simple(("", name, 1)), um.simple(*parts, s=1)]})
    for sp, (_, base) in um.SPECIES.items():
        res.append({"units": [um.simple(("", sp, 1)), um.simple(("", base, 1))]})
        if sp in um.JOINT:
            for letter in "gt":
                for p in um.ATOMS[letter][2]:
                    res.append({"units": [
                        {"p": [[[p, letter, sp], 1]], "s": 0},
                        {"p": [[["k", "g"], 1], [["", base], 1]], "s": 0},
                    ]})
    for o in um.OFFSET:
        for o2 in list(um.OFFSET) + ["K"]:
            res.append({"units": [um.simple(("", o, 1)), um.simple(("", o2, 1))]})
            res.append({"units": [um.simple(("", o2, 1)), um.simple(("", o, 1))]})
    for r in res:
        r["values"] = [1, 0, -7.5, 123456.789]
    return res


def s_pair():
    return st.fixed_dictionaries(
        {"units": unitgen.compatible(2),
         "values": st.lists(unitgen.VALUES, min_size=1, max_size=4)}
    )


def s_triple():
    return st.fixed_dictionaries(
        {"units": unitgen.compatible(3),
         "values": st.lists(unitgen.VALUES, min_size=1, max_size=3)}
    )


SUBS = [
    Sub("table", check_pair, cases=table_cases,
        rule="every prefix, unit, species spelling and joint unit of the independent table "
             "against its reference unit; non-trivial if the two unit texts differ"),
    Sub("pair", check_pair, s_pair, quick=6000, thorough=200000,
        rule="two compatible unit expressions in random spelling with up to 4 values; "
             "non-trivial if the texts differ and some value is not 0 or 1"),
    Sub("triple", check_triple, s_triple, quick=3000, thorough=100000,
        rule="three compatible unit expressions; non-trivial if all texts differ"),
]
ASSUMPTIONS = [
    "factors and molar-mass ratios in vf/unitmodel.py are the documented ones",
    "relative tolerance 1e-9",
]
