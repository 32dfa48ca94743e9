"""C09: scalar and generic parameters read back what was last written."""
from hypothesis import strategies as st

from vf import psgen, psmachine
from vf.core import Sub


def need(m, case):
    writes = sum(1 for p in case["ops"] if p[0] == "write")
    return writes >= 2 and len(m.model) >= 2


def check_history(case, rec):
    psmachine.run(case, rec, need)


@st.composite
def s_scalar(draw):
    fam = draw(st.sampled_from(psmachine.FAMILIES))
    names = draw(st.sampled_from([[["A"]], [["A"], ["F"]], [["A", "B"], ["A", "C"]],
                                  [["A", "B"], ["F", "B"], ["A", "B", "D"]], None, None]))
    names = names or draw(psgen.paths(1, 4, 4))
    regions = psgen.some_regions(draw)
    ops = []
    for _ in range(draw(st.integers(2, 18))):
        kind = psgen.weighted(draw, {"view": 5, "write": 5, "again": 1, "read": 4, "info": 1})
        if kind == "view":
            ops.append(draw(psgen.view(["scalar"], names, regions, fam)))
        else:
            ops.append(psgen.op(kind, draw))
    return {"ops": ops, "root": draw(psgen.ROOTS)}


@st.composite
def s_generic(draw):
    names = draw(st.sampled_from([[["A"]], [["A"], ["F"]], [["A", "B"], ["A", "C"]],
                                  None, None]))
    names = names or draw(psgen.paths(1, 4, 4))
    regions = psgen.some_regions(draw)
    ops = []
    for _ in range(draw(st.integers(2, 18))):
        kind = psgen.weighted(draw, {"view": 5, "gwrite": 5, "again": 1, "read": 4, "info": 1})
        if kind == "view":
            ops.append(draw(psgen.view(["generic"], names, regions)))
        else:
            ops.append(psgen.op(kind, draw))
    return {"ops": ops, "root": draw(psgen.ROOTS)}


RULE = "; non-trivial if at least two views exist and two writes happen"
SUBS = [
    Sub("scalar", check_history, s_scalar, quick=2500, thorough=100000,
        rule="histories on scalar parameters in several names, regions, sets and units" + RULE),
    Sub("generic", check_history, s_generic, quick=1500, thorough=60000,
        rule="histories on generic parameters" + RULE),
]
ASSUMPTIONS = ["tolerance 1e-9 of the numbers involved"]
