"""C07: average series conversion preserves time integrals."""
from fractions import Fraction as F

from hypothesis import strategies as st

from vf import tsgen, tsmodel
from vf.core import Sub, require
from vf.tscheck import compare, real

REL = 1e-9


def check_convert(case, rec):
    src, dst, vals, ext = case["src"], case["dst"], case["values"], case["ext"]
    want = None
    try:
        want = tsmodel.convert("average", src, vals, dst, ext)
    except tsmodel.Refused:
        pass
    tol = REL * tsmodel.magnitude("average", src, vals, dst, ext) + 1e-300
    for direction in ("from", "to"):
        if direction == "to" and (dst[0] > src[1] or src[0] > dst[1]):
            continue
        got = real("average", src, vals, dst, ext, direction)
        if want is None:
            rec.label("refused")
            require(got is None, "conversion is not refused (%s)", direction)
            continue
        compare(got, want, tol, "convert_%s" % direction)
        outside = dst[0] < src[0] or dst[-1] > src[-1]
        rec.label("extrapolated " + ext if outside else "within")
        rec.nontrivial(src != dst and len(set(vals)) > 1)


def check_laws(case, rec):
    src, cut, vals, ext = case["src"], case["cut"], case["values"], case["ext"]
    n = len(vals)
    m = max(abs(v) for v in vals)
    tol = REL * m + 1e-300
    compare(real("average", src, vals, src, ext), vals, tol, "identity")
    compare(real("average", src, vals, src, ext, "to"), vals, tol, "identity")
    # coarser: exactly the duration-weighted mean of whole intervals
    idx = sorted({i % (n + 1) for i in case["coarse"]})
    if len(idx) >= 2:
        rec.label("coarser")
        dst = [src[i] for i in idx]
        want = []
        for a, b in zip(idx, idx[1:]):
            tot = sum(F(vals[k]) * (src[k + 1] - src[k]) for k in range(a, b))
            want.append(tot / (src[b] - src[a]))
        if src[0] <= dst[1]:
            compare(real("average", src, vals, dst, ext), want, tol, "coarser grid")
        if len(idx) > 2:
            rec.label("several coarse intervals")
    # finer: splitting preserves the total
    sup = sorted(set(src) | set(cut))
    fine = real("average", src, vals, sup, ext)
    require(fine is not None, "finer grid is refused")
    for k in range(n):
        tot = sum(F(float(fine[j])) * (sup[j + 1] - sup[j]) for j in range(len(fine))
                  if src[k] <= sup[j] < src[k + 1])
        mean = float(tot / (src[k + 1] - src[k]))
        require(abs(mean - vals[k]) <= 10 * tol, "splitting interval %d: mean %r, not %r", k,
                mean, vals[k])
    rec.nontrivial(len(sup) > len(src) and len(set(vals)) > 1)
    # linearity
    other, f = case["other"], case["k"]
    mix = [a + f * b for a, b in zip(vals, other)]
    y, z = (real("average", src, v, sup, ext) for v in (other, mix))
    scale = m + abs(f) * max(abs(v) for v in other)
    compare(z, list(fine + f * y), 10 * REL * scale + 1e-300, "linear combination")
    # constants stay constants
    c = vals[0]
    compare(real("average", src, [c] * n, case["far"], "constant")
            if src[0] <= case["far"][1] else real("average", src, [c] * n, sup, ext),
            [c] * (len(case["far"] if src[0] <= case["far"][1] else sup) - 1),
            REL * abs(c) + 1e-300, "constant data")


def check_long(case, rec):
    """Many source intervals per target interval (and the other way round)."""
    n, step, seedvals, per = case["n"], case["step"], case["values"], case["per"]
    src = [case["start"] + i * step for i in range(n + 1)]
    vals = [seedvals[(i * 7 + i // 11) % len(seedvals)] * (1 + i % 3) for i in range(n)]
    cuts = list(range(0, n + 1, per))
    if len(cuts) < 2:
        cuts = [0, n]
    dst = [src[i] for i in cuts]
    want = [sum(F(v) for v in vals[a:b]) / (b - a) for a, b in zip(cuts, cuts[1:])]
    m = max(abs(v) for v in vals)
    rec.nontrivial(n > 100)
    rec.label("%d+ per target" % (10 ** (len(str(per)) - 1)))
    compare(real("average", src, vals, dst, "none"), want, REL * m + 1e-300, "many intervals")
    # and intervals not aligned with the source
    off = step // 3
    if off and len(cuts) > 2:
        shifted = [t + off for t in dst[:-1]]
        want = tsmodel.convert_average(src, vals, shifted, "none")
        compare(real("average", src, vals, shifted, "none"), want,
                REL * tsmodel.magnitude("average", src, vals, shifted, "none") + 1e-300,
                "many shifted intervals")


@st.composite
def s_convert(draw):
    src = draw(tsgen.grid(4, 12))
    dst = draw(tsgen.target(src, 2, 12))
    return {"src": src, "dst": dst, "values": draw(tsgen.values(len(src) - 1)),
            "ext": draw(tsgen.EXTRA)}


@st.composite
def s_laws(draw):
    src = draw(tsgen.grid(4, 10))
    return {"src": src, "cut": draw(tsgen.target(src, 2, 10, inside=True)),
            "far": draw(tsgen.target(src, 2, 6)),
            "coarse": draw(st.lists(st.integers(0, 100), min_size=2, max_size=6)),
            "values": draw(tsgen.values(len(src) - 1)),
            "other": draw(tsgen.values(len(src) - 1)),
            "k": draw(st.sampled_from([1.0, -1.0, 0.5, 3.0, 100.0])),
            "ext": draw(tsgen.EXTRA)}


@st.composite
def s_long(draw):
    return {"n": draw(st.integers(20, 1500)), "start": draw(tsgen.START),
            "step": draw(st.sampled_from([1, 3600, 86400, 30 * 86400])),
            "values": draw(st.lists(tsgen.VALUE, min_size=1, max_size=9)),
            "per": draw(st.integers(1, 400))}


SUBS = [
    Sub("convert", check_convert, s_convert, quick=3500, thorough=120000,
        rule="source and target edges, values and mode against exact integrals, both "
             "directions; non-trivial if accepted, grids differ and data is not constant"),
    Sub("laws", check_laws, s_laws, quick=2000, thorough=80000,
        rule="identity, coarsening, splitting, linearity, constants; non-trivial if intervals "
             "are split and data is not constant"),
    Sub("long", check_long, s_long, quick=150, thorough=4000,
        rule="20 to 1500 source intervals, up to 400 per target interval; non-trivial above "
             "100 intervals"),
]
ASSUMPTIONS = [
    "tolerance 1e-9 of the largest number involved",
    "the mean-preserving piecewise linear representation is the documented one (edges at the "
    "mean of adjacent intervals)",
]
