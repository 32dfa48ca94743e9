"""C06: point series are interpolated exactly linearly and extrapolated as asked."""
import random

import numpy as np
from hypothesis import strategies as st

from vf import cal, tsgen, tsmodel
from vf.core import Sub, require
from vf.tscheck import compare, real

REL = 1e-9


def check_convert(case, rec):
    src, dst, vals, ext = case["src"], case["dst"], case["values"], case["ext"]
    for direction in ("from", "to"):
        want = None
        try:
            want = tsmodel.convert("point", src, vals, dst, ext)
            if direction == "to" and dst[0] > src[1]:
                want = None
        except tsmodel.Refused:
            pass
        got = real("point", src, vals, dst, ext, direction)
        if want is None:
            rec.label("refused")
            require(got is None or (direction == "to" and tsmodel.late(src, dst)),
                    "conversion is not refused (%s)", direction)
            continue
        tol = REL * tsmodel.magnitude("point", src, vals, dst, ext) + 1e-300
        compare(got, want, tol, "convert_%s" % direction)
        outside = dst[0] < src[0] or dst[-1] > src[-1]
        rec.label("extrapolated " + ext if outside else "interpolated")
        rec.nontrivial(src != dst and len(set(vals)) > 1)


def check_laws(case, rec):
    src, mid, vals, ext = case["src"], case["mid"], case["values"], case["ext"]
    m = max(abs(v) for v in vals)
    tol = REL * m + 1e-300
    compare(real("point", src, vals, src, ext), vals, 1e-12 * m + 1e-300, "identity")
    compare(real("point", src, vals, src, ext, "to"), vals, 1e-12 * m + 1e-300, "identity")
    # to a superset of the points and back
    sup = sorted(set(src) | set(mid))
    fine = real("point", src, vals, sup, ext)
    require(fine is not None, "superset is refused")
    compare(real("point", sup, list(fine), src, ext), vals, tol, "superset and back")
    rec.nontrivial(len(sup) > len(src) and len(set(vals)) > 1)
    # linearity
    other, k = case["other"], case["k"]
    mix = [a + k * b for a, b in zip(vals, other)]
    x, y, z = (real("point", src, v, sup, ext) for v in (vals, other, mix))
    scale = m + abs(k) * max(abs(v) for v in other)
    compare(z, list(x + k * y), REL * scale + 1e-300, "linear combination")
    # the order of magnitude does not matter
    s = real("point", src, [v * 1024.0 for v in vals], sup, ext)
    compare(s, [1024.0 * float(v) for v in x], 1024 * tol, "scaled data")
    # shifting time does not matter
    shift = case["shift"]
    s = real("point", [t + shift for t in src], vals, [t + shift for t in sup], ext)
    compare(s, list(x), tol, "shifted in time")
    # each target point is converted on its own
    for i in range(0, len(sup) - 1):
        part = real("point", src, vals, sup[i : i + 2], "constant")
        if src[0] <= sup[i + 1]:
            compare(part, list(x[i : i + 2]), tol, "part of the target")
    ints = [int(v) for v in vals if abs(v) < 2**53 and v == int(v)]
    if len(ints) == len(vals):
        rec.label("integer data")
        from vf.tscheck import converter

        out = converter("point", src, sup, ext).convert_from(np.array(ints))
        compare(np.asarray(out), list(x), tol, "integer data")


@st.composite
def s_convert(draw):
    src = draw(tsgen.grid(3, 12))
    dst = draw(tsgen.target(src, 1, 12))
    return {"src": src, "dst": dst, "values": draw(tsgen.values(len(src))),
            "ext": draw(tsgen.EXTRA)}


def check_long(case, rec):
    """Many points."""
    rng = random.Random(case["seed"])
    n, step = case["n"], case["step"]
    src, vals = [case["start"]], []
    for _ in range(n - 1):
        src.append(src[-1] + (step if case["regular"] else rng.randint(1, 2 * step)))
    pool = case["values"]
    vals = [pool[i % len(pool)] + (rng.randint(-8, 8) / 8 if case["noise"] else 0.0)
            for i in range(n)]
    a = src[0] - (step if case["beyond"] else 0)
    b = src[-1] + (step if case["beyond"] else 0)
    dst = sorted({rng.randint(a, b) for _ in range(case["m"])} | {a, b})
    if case["subset"]:
        dst = sorted(set(dst) | set(src[::3]))
    ext = case["ext"]
    rec.nontrivial(n > 100)
    rec.label("over 1000 points" if n > 1000 else "over 100" if n > 100 else "fewer")
    try:
        want = tsmodel.convert("point", src, vals, dst, ext)
    except tsmodel.Refused:
        want = None
    got = real("point", src, vals, dst, ext)
    if want is None:
        require(got is None, "conversion of %d points is not refused", n)
        return
    compare(got, want, REL * tsmodel.magnitude("point", src, vals, dst, ext) + 1e-300,
            "%d points" % n)


@st.composite
def s_long(draw):
    return {"n": draw(st.integers(20, 2500)), "m": draw(st.sampled_from([3, 30, 300, 2000])),
            "start": draw(st.integers(1000, 3000).map(cal.seconds)),
            "step": draw(st.sampled_from([10, 3600, 86400, 31 * 86400])),
            "regular": draw(st.booleans()), "noise": draw(st.booleans()),
            "beyond": draw(st.booleans()), "subset": draw(st.booleans()),
            "values": draw(st.lists(tsgen.VALUE, min_size=1, max_size=9)),
            "ext": draw(tsgen.EXTRA), "seed": draw(st.integers(0, 10**6))}


@st.composite
def s_laws(draw):
    src = draw(tsgen.grid(3, 10))
    mid = draw(tsgen.target(src, 2, 10, inside=True))
    return {"src": src, "mid": mid, "values": draw(tsgen.values(len(src))),
            "other": draw(tsgen.values(len(src))),
            "k": draw(st.sampled_from([1.0, -1.0, 0.5, 3.0, 100.0])),
            "ext": draw(tsgen.EXTRA),
            "shift": draw(st.sampled_from([1, -1, 86400, 10**9, -(10**9)]))}


SUBS = [
    Sub("convert", check_convert, s_convert, quick=4000, thorough=150000,
        rule="source and target grids, values and mode against the exact reference, both "
             "directions; non-trivial if accepted, grids differ and data is not constant"),
    Sub("laws", check_laws, s_laws, quick=2000, thorough=80000,
        rule="identity, superset and back, linearity, scaling, shift, splitting; non-trivial "
             "if the superset is proper and data is not constant"),
    Sub("long", check_long, s_long, quick=150, thorough=4000,
        rule="20 to 2500 points to up to 2800, all modes; non-trivial above 100 points"),
]
ASSUMPTIONS = ["tolerance 1e-9 of the largest number involved"]
