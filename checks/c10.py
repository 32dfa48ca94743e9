"""C10: timeseries views always show the last write, in their own unit and grid."""
from hypothesis import strategies as st

from vf import psgen, psmachine
from vf.core import Sub


def need(m, case):
    kinds = {p[0] for p in case["ops"]}
    return "several views of one parameter" in m.labels and bool(kinds & {"write", "elem"})


def check_history(case, rec):
    m = psmachine.run(case, rec, need)
    if any(v.param.writer is not None and v.param.writer is not v and not v.pending
           and v.param.writer.grid != v.grid for v in m.model if v.kind != "generic"):
        rec.label("read on another grid than written")


@st.composite
def s_history(draw):
    fam = draw(st.sampled_from(psmachine.FAMILIES))
    ptype = draw(st.sampled_from(["point", "average"]))
    names = draw(st.sampled_from([[["A"]], [["A"]], [["A"], ["F"]], [["A", "B"], ["A", "C"]],
                                  None]))
    names = names or draw(psgen.paths(1, 3, 3))
    regions = draw(st.sampled_from([None, None, psgen.LIKE_REGIONS[:3], [["World", "R"]]]))
    grids = draw(psgen.grids())
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops.append(draw(psgen.view([ptype], names, regions, fam, sets=1)))
    if draw(st.booleans()):
        ops.append(psgen.op("write", draw))
    weights = {"view": 2, "write": 5, "again": 1, "elem": 5, "helem": 3, "hold": 4, "sub": 1, "read": 5,
               "hread": 4, "from": 1, "lock": 2, "unlock": 2, "wrongsize": 1}
    for _ in range(draw(st.integers(2, 16))):
        kind = psgen.weighted(draw, weights)
        if kind == "view":
            ops.append(draw(psgen.view([ptype], names, regions, fam, sets=1)))
        else:
            ops.append(psgen.op(kind, draw))
    return {"grids": grids, "ops": ops, "look": draw(psgen.LOOK)}


@st.composite
def s_lock(draw):
    """Two views of one parameter, one of them locked much of the time."""
    fam = draw(st.sampled_from(psmachine.FAMILIES))
    ptype = draw(st.sampled_from(["point", "average"]))
    ops = [draw(psgen.view([ptype], [["A"]], None, fam, sets=1)) for _ in range(2)]
    ops.append(["write", 0, draw(psgen.VALS), "float"])
    weights = {"lock": 4, "unlock": 4, "write": 4, "elem": 4, "helem": 2, "hold": 2, "read": 5,
               "hread": 2}
    for _ in range(draw(st.integers(2, 14))):
        ops.append(psgen.op(psgen.weighted(draw, weights), draw))
    return {"grids": draw(psgen.grids()), "ops": ops, "look": draw(psgen.LOOK)}


@st.composite
def s_handles(draw):
    """Parts of the values of a view, held while the data change."""
    fam = draw(st.sampled_from(psmachine.FAMILIES))
    ptype = draw(st.sampled_from(["point", "average"]))
    ops = [draw(psgen.view([ptype], [["A"]], None, fam, sets=1)) for _ in range(2)]
    ops += [["write", draw(psgen.N), draw(psgen.VALS), "float"], psgen.op("hold", draw),
            psgen.op("sub", draw)]
    weights = {"write": 3, "elem": 2, "helem": 4, "hold": 1, "sub": 3, "hread": 5, "read": 1}
    for _ in range(draw(st.integers(1, 10))):
        ops.append(psgen.op(psgen.weighted(draw, weights), draw))
    ops.append(psgen.op("hread", draw))
    return {"grids": draw(psgen.grids()), "ops": ops, "look": draw(psgen.LOOK)}


RULE = "; non-trivial if a parameter has several views and is written"
SUBS = [
    Sub("history", check_history, s_history, quick=6000, thorough=150000,
        rule="histories of whole-array, element, slice and in-place writes through views and "
             "held handles on up to three grids" + RULE),
    Sub("lock", check_history, s_lock, quick=2500, thorough=60000,
        rule="histories with locking" + RULE),
    Sub("handles", check_history, s_handles, quick=2500, thorough=60000,
        rule="histories with slices and picked elements of held values" + RULE),
]
ASSUMPTIONS = [
    "tolerance 1e-9 of the numbers involved",
    "through a parameter stored on a third grid the two conversions are composed",
]
