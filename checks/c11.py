"""C11: a parent parameter is always the sum of its leaf children."""
from hypothesis import strategies as st

from vf import psgen, psmachine
from vf.core import Sub


def need(m, case):
    return "aggregate" in m.labels and any(
        v.aggregate and all(p.writes for p in v.param.leaves()) for v in m.model)


def check_history(case, rec):
    m = psmachine.run(case, rec, need)
    for v in m.model:
        if v.aggregate:
            rec.label("%d leaves" % min(4, len(v.param.leaves())))
            if any(p.parent is not v.param for p in v.param.leaves()):
                rec.label("deep")


TREES = [[["A", "B"], ["A", "C"]], [["A", "B"]], [["A", "B", "D"], ["A", "B", "E"], ["A", "C"]],
         [["A", "B", "D", "G"], ["A", "C"]], [["A", "B", "D"], ["A", "C"], ["A", "H", "I"]],
         [["A", x] for x in "BCDE"]]


@st.composite
def s_tree(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    fam = draw(st.sampled_from(psmachine.FAMILIES))
    leaves = draw(st.sampled_from(TREES)) if draw(st.booleans()) else draw(
        psgen.paths(1, 5, 5, least=2))
    region = [draw(st.sampled_from(psgen.REGIONS + psgen.LIKE_REGIONS))]
    parents = sorted({tuple(x[:k]) for x in leaves for k in range(1, len(x))})
    parents = [list(p) for p in parents]
    ops = []
    for leaf in leaves:
        ops.append(draw(psgen.view([kind], [leaf], region, fam, sets=1)))
    nleaf = len(leaves)
    if draw(st.integers(0, 3)):
        for i in range(nleaf):
            ops.append(["write", i, draw(psgen.VALS), draw(st.sampled_from(["float", "int"]))])
    for _ in range(draw(st.integers(1, 2))):
        ops.append(draw(psgen.view([kind], parents, region, fam, sets=1)))
    ts = kind in ("point", "average")
    weights = {"view": 2, "leafview": 1, "late": 2, "write": 6, "read": 5,
               "readparent": 4, "anywrite": 1}
    if ts:
        weights.update({"elem": 3, "hold": 3, "hread": 3, "helem": 1, "lock": 1, "unlock": 1,
                        "sub": 1})
    for _ in range(draw(st.integers(2, 14))):
        k = psgen.weighted(draw, weights)
        if k == "view":
            ops.append(draw(psgen.view([kind], parents, region, fam, sets=1)))
        elif k == "leafview":
            ops.append(draw(psgen.view([kind], leaves, region, fam, sets=1)))
        elif k == "late":
            # below a parent it has to be refused or count, below a leaf likewise
            below = draw(st.sampled_from(parents + parents + [list(x) for x in leaves]))
            ops.append(draw(psgen.view([kind], [below + [draw(st.sampled_from("XYB"))]],
                                       region, fam, sets=1)))
        elif k == "anywrite":
            ops.append(["write", draw(st.integers(0, nleaf + 4)), draw(psgen.VALS), "float"])
        elif k == "write":
            ops.append(["write", draw(st.integers(0, nleaf - 1)), draw(psgen.VALS),
                        draw(st.sampled_from(["float", "int", "list"]))])
        elif k == "elem":
            o = psgen.op("elem", draw)
            o[1] = draw(st.integers(0, nleaf))
            ops.append(o)
        elif k == "readparent":
            ops.append(["read", nleaf + draw(st.integers(0, 3)), draw(psgen.HOWREAD)])
        else:
            ops.append(psgen.op(k, draw))
    return {"grids": draw(psgen.grids()), "ops": ops, "look": draw(psgen.LOOK),
            "root": draw(psgen.ROOTS)}


RULE = "; non-trivial if a parent is viewed and all its leaves are written"
SUBS = [
    Sub("scalar", check_history, lambda: s_tree(["scalar"]), quick=1500, thorough=60000,
        rule="histories on trees of scalar parameters" + RULE),
    Sub("timeseries", check_history, lambda: s_tree(["point", "average"]), quick=2500,
        thorough=100000, rule="histories on trees of timeseries parameters" + RULE),
    Sub("generic", check_history, lambda: s_tree(["generic"]), quick=200, thorough=5000,
        rule="trees of generic parameters, whose parents cannot be viewed"),
]
ASSUMPTIONS = ["tolerance 1e-9 of the numbers involved"]
