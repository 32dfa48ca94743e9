"""C12: illegal parameter operations are refused and leave no trace."""
import numpy as np
from hypothesis import strategies as st

from vf import psgen, psmachine
from vf.core import Sub, require

from openscm import errors
from openscm.core.parameters import ParameterInfo, ParameterType, _Parameter
from openscm.core.regions import _Region


def need(m, case):
    return "refused" in m.labels and len(m.model) >= 1


def check_history(case, rec):
    psmachine.run(case, rec, need)


@st.composite
def s_history(draw):
    kinds = draw(st.sampled_from([["scalar"], ["point"], ["average"], ["generic", "scalar"],
                                  ["scalar", "point"], psgen.KINDS]))
    fams = draw(st.sampled_from([[0], [1], [2], [0, 2], [1, 3]]))
    names = draw(st.sampled_from([psgen.NAMES, psgen.NAMES[:5], psgen.NAMES[:4],
                                  [["A"], ["A", "B"]], None, None]))
    names = names or draw(psgen.paths(2, 7, 4, prefix_free=False))
    regions = draw(st.sampled_from([[["World"], ["World"], ["World", "R"]],
                                    psgen.LIKE_REGIONS[:4], None]))
    if regions is None:
        regions = draw(st.lists(st.sampled_from(psgen.LIKE_REGIONS), min_size=1, max_size=3))
    weights = {"view": 8, "write": 5, "again": 1, "read": 4, "info": 2, "wrongsize": 2, "elem": 2,
               "hold": 1, "helem": 1, "gwrite": 0, "lock": 1, "unlock": 1}
    ops = []
    for _ in range(draw(st.integers(3, 18))):
        kind = psgen.weighted(draw, weights)
        if kind == "view":
            fam = psmachine.FAMILIES[draw(st.sampled_from(fams))]
            ops.append(draw(psgen.view(kinds, names, regions, fam, bad=0.25, sets=1)))
        else:
            ops.append(psgen.op(kind, draw))
    return {"grids": draw(psgen.grids()), "ops": ops, "root": draw(psgen.ROOTS),
            "look": draw(psgen.LOOK)}


def check_regions(case, rec):
    """Regions themselves: none can be added below one that has been aggregated over."""
    root = _Region("World")
    known, closed = {(): root}, set()
    for op in case:
        path = tuple(op["path"])
        if op["op"] == "close":
            if path in known:
                known[path].attempt_aggregate()
                closed.add(path)
        elif path and path[:-1] in known:
            parent = known[path[:-1]]
            try:
                got = parent.get_or_create_subregion(path[-1])
            except errors.RegionAggregatedError:
                got = None
            if path in known:
                require(got is known[path], "region %s is there but gives %r", path, got)
            elif path[:-1] in closed:
                require(got is None, "region %s is added to one aggregated over", path)
                rec.label("refused")
                rec.nontrivial()
            elif got is None:
                require(any(path[:i] in closed for i in range(len(path))),
                        "region %s is refused", path)
            else:
                known[path] = got
        for path in [tuple(o["path"]) for o in case]:
            for form in (path, list(path), "|".join(path)):
                got = root.get_subregion(form)
                require(got is known.get(path), "region %s: %r", path, got)
            if path in known:
                require(known[path].full_name == ("World",) + path, "region %s has the name %s",
                        path, known[path].full_name)


TYPES = {"scalar": ParameterType.SCALAR, "point": ParameterType.POINT_TIMESERIES,
         "average": ParameterType.AVERAGE_TIMESERIES, "generic": ParameterType.GENERIC}


def check_parameters(case, rec):
    """Parameters themselves: a refused operation changes nothing at all."""
    root = _Parameter("A", _Region("World"))
    objs = {(): root}
    model = {(): {"type": None, "unit": None, "read": False, "written": False}}

    def below(path):
        return [p for p in model if len(p) > len(path) and p[:len(path)] == path]

    for op in case:
        path, kind = tuple(op["path"]), op["op"]
        if kind == "child":
            if path[:-1] not in model or not path:
                continue
            want = None
            if path not in model:
                if model[path[:-1]]["written"]:
                    want = errors.ParameterWrittenError
                elif any(model[path[:i]]["read"] for i in range(len(path))):
                    want = errors.ParameterReadError
                if want and any(model[path[:i]]["read"] for i in range(len(path))):
                    want = (errors.ParameterWrittenError, errors.ParameterReadError)
            try:
                got = objs[path[:-1]].get_or_create_child_parameter(path[-1])
            except (errors.ParameterWrittenError, errors.ParameterReadError) as e:
                require(want is not None and isinstance(e, want), "child %s: %r", path, e)
                rec.label("child refused")
                rec.nontrivial()
                got = None
            else:
                require(want is None, "child %s is not refused", path)
            if path in model:
                require(got is objs[path], "child %s is not the same again", path)
            elif want is None:
                objs[path] = got
                model[path] = {"type": None, "unit": None, "read": False, "written": False}
        elif path in model:
            m, t = model[path], op["type"]
            unit = None if t == "generic" else op["unit"]
            time = np.array([0, 10, 30], dtype="datetime64[s]")
            args = [TYPES[t]] + ([unit] if unit else []) + (
                [time] if t in ("point", "average") else [])
            want = []
            if m["type"] not in (None, t) or any(
                    model[p]["type"] not in (None, t) for p in below(path)):
                want.append(errors.ParameterTypeError)
            if t == "generic" and below(path):
                want.append(errors.ParameterAggregationError)
            if kind == "write" and below(path):
                want.append(errors.ParameterReadonlyError)
            try:
                (objs[path].attempt_write if kind == "write" else objs[path].attempt_read)(*args)
            except (errors.ParameterTypeError, errors.ParameterAggregationError,
                    errors.ParameterReadonlyError) as e:
                require(isinstance(e, tuple(want)), "%s: %r, not one of %s", op, e, want)
                rec.label(kind + " refused")
                rec.nontrivial()
            else:
                require(not want, "%s is not refused", op)
                if m["type"] is None:
                    m["type"], m["unit"] = t, unit
                m["read"] = True
                m["written"] = m["written"] or kind == "write"
        for path, m in model.items():
            info = ParameterInfo(objs[path])
            got = (info.name, info.parameter_type, info.unit, info.empty)
            want = (("A",) + path, TYPES.get(m["type"]), m["unit"], not m["written"])
            require(got == want, "after %s: parameter is %s, not %s", op, got, want)
            require(root.get_subparameter(path) is objs[path], "parameter %s is not found", path)
        for path in [tuple(o["path"]) for o in case]:
            if path not in model:
                require(root.get_subparameter(path) is None, "parameter %s exists", path)


PATH = st.lists(st.sampled_from(["a", "b", "B", "a b", "A"]), max_size=3)


@st.composite
def s_regions(draw):
    return [{"op": draw(st.sampled_from(["create", "create", "create", "close"])),
             "path": draw(PATH)} for _ in range(draw(st.integers(2, 14)))]


@st.composite
def s_parameters(draw):
    types = draw(st.sampled_from([["scalar"], ["point", "average"], ["scalar", "generic"],
                                  sorted(TYPES)]))
    path = st.lists(st.sampled_from(["a", "b"]), max_size=3)
    return [{"op": draw(st.sampled_from(["child", "child", "child", "read", "write"])),
             "path": draw(path), "type": draw(st.sampled_from(types)),
             "unit": draw(st.sampled_from(["kg", "g", "K"]))}
            for _ in range(draw(st.integers(2, 14)))]


SUBS = [
    Sub("regions", check_regions, s_regions, quick=500, thorough=40000,
        rule="trees of regions some of which have been aggregated over; non-trivial if a region "
             "has to be refused"),
    Sub("parameters", check_parameters, s_parameters, quick=1500, thorough=100000,
        rule="histories of reads, writes and new children of parameters of any type, all of "
             "them looked at after each step; non-trivial if something has to be refused"),
    Sub("history", check_history, s_history, quick=4000, thorough=200000,
        rule="histories mixing legal operations with wrong types, units, names, regions, "
             "lengths, writes to aggregates and late children; non-trivial if at least one "
             "operation has to be refused and a view exists"),
]
ASSUMPTIONS = ["where several errors apply, any of them is accepted"]
