"""C18: every operation keeps each series attached to its own metadata."""
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import c29
from vf import cal, framemodel as fm, frames as fr, tsmodel
from vf.core import Sub, require

from openscm.core.units import DimensionalityError, UndefinedUnitError
from openscm.errors import InsufficientDataError
from openscm.scmdataframe import ScmDataFrame, df_append

# unit: (class, size, guessed type)
UNIT = {
    "K": ("K", 1.0, "point"), "mK": ("K", 1e-3, "point"),
    "GtC/yr": ("C/yr", 1.0, "average"), "MtC/yr": ("C/yr", 1e-3, "average"),
    "Mt CO2 / yr": ("C/yr", 12e-3 / 44, "average"),
    "kg": ("kg", 1.0, "point"), "t": ("kg", 1e3, "point"), "g": ("kg", 1e-3, "point"),
    "W/m^2": ("W", 1.0, "average"), "kW/m^2": ("W", 1e3, "average"),
}
REL = 1e-9


class Model:
    """Records with a common list of times."""

    def __init__(self, times, rows):
        self.times, self.rows = times, rows

    def table(self):
        res = {}
        for m, v in self.rows:
            k = fr.key(m)
            require(k not in res, "generator: duplicate series")
            res[k] = v
        return res

    def cols(self):
        return list(self.rows[0][0])

    def full(self):
        """Whether there are no missing values."""
        return all(len(v) == len(self.times) for _, v in self.rows)


def of_frame(f):
    cols = fr.REQUIRED + f["cols"]
    return Model(list(f["times"]), [
        [{c: fr.canon(r["meta"].get(c)) for c in cols},
         {t: float(v) for t, v in zip(f["times"], r["values"]) if v is not None}]
        for r in f["rows"]])


def clone(m):
    return Model(list(m.times), [[dict(a), dict(b)] for a, b in m.rows])


def judge(df, m, what, scale=None, rel=0.0):
    """Compare the dataframe with the records and take over order and exact values."""
    got, secs = fr.observe(df)
    want = m.table()
    fr.compare(got, want, what, rel=rel, scale=scale)
    require(secs == m.times, "%s: times are %s, not %s", what, secs, m.times)
    metas = [{c: fr.canon(v) for c, v in r.items()} for r in fr.meta_rows(df)]
    require(not m.rows or set(metas[0]) == set(m.cols()), "%s: columns are %s, not %s", what,
            sorted(metas[0]) if metas else None, sorted(m.cols()) if m.rows else None)
    m.rows = [[x, dict(got[fr.key(x)])] for x in metas]


def pick(seq, i):
    return seq[i % len(seq)]


def metadata_filters(m, act):
    """Filters on text columns that refer to what is there."""
    filters = {}
    row = pick(m.rows, act["row"])[0]
    for c, how in act["cols"]:
        c = pick(["model", "scenario", "region", "variable", "unit"] + sorted(
            x for x in m.cols() if x not in fr.REQUIRED), c)
        v = row[c]
        if isinstance(v, float) and not isinstance(v, bool):
            filters[c] = v if how % 2 else [v, 12345.5]
            continue
        if not isinstance(v, str) or v == "" or any(
                not (isinstance(r[0][c], str) or r[0][c] is None) for r in m.rows):
            continue
        v2 = pick(m.rows, act["row"] + 1)[0][c]
        filters[c] = [v, v[:1] + "*", "*" + v[-1:], [v, v2] if isinstance(v2, str) else [v],
                      [v, "other*"], "*"][how % 6]
    return filters


def time_filters(m, act):
    f = cal.fields(pick(m.times, act["time"]))
    g = cal.fields(pick(m.times, act["time"] + 1))
    kind = act["time_kind"]
    if kind == "year":
        return {"year": f[0] if act["row"] % 2 else sorted({f[0], g[0]})}
    if kind == "range":
        lo, hi = sorted((f[0], g[0]))
        return {"year": range(lo, hi + 1)}
    if kind == "month":
        return {"month": f[1] if act["row"] % 2 else fm.MONTHS[f[1] - 1].title()}
    if kind == "day":
        return {"day": f[2] if act["row"] % 2 else fm.DAYS[f[6]].title()}
    if kind == "hour":
        return {"hour": [f[3], 23]}
    if kind == "time":
        return {"time": [fr.to_dt(pick(m.times, act["time"])),
                         fr.to_dt(pick(m.times, act["time"] + 1))]}
    return {}


def plain(filters):
    """Filters as the model understands them."""
    res = {}
    for k, v in filters.items():
        if k == "time":
            v = [fr.to_sec(x) for x in v]
        if isinstance(v, range):
            v = list(v)
        res[k] = v
    return res


def selected(m, filters, keep):
    """Records of a selection."""
    got = fm.select(m.table(), plain(filters), keep)
    rows = [[x, got[fr.key(x)]] for x, _ in m.rows if fr.key(x) in got]
    used = {t for _, v in rows for t in v}
    return Model([t for t in m.times if t in used], rows)


def joined(parts):
    """Records of an append."""
    cols = sorted({c for p in parts for c in p.cols()})
    res = {}
    for p in parts:
        for m, v in p.rows:
            new = {c: m.get(c) for c in cols}
            entry = res.setdefault(fr.key(new), [new, {}])
            for t, x in v.items():
                entry[1].setdefault(t, []).append(x)
    rows = [[m, {t: sum(x) / len(x) for t, x in v.items()}] for m, v in res.values()]
    return Model(sorted({t for p in parts for t in p.times}), rows), any(
        len(x) > 1 for _, v in res.values() for x in v.values())


def renamed_copy(df, m, number):
    """The same series under another scenario."""
    end = " copy %d" % number
    mapping = {"scenario": {x: x + end for x in {r[0]["scenario"] for r in m.rows}}}
    return df.rename(mapping), Model(m.times, [
        [dict(a, scenario=a["scenario"] + end), dict(b)] for a, b in m.rows])


class Skip(Exception):
    """The step makes no sense in this state."""


def do_filter(df, m, act, number, rec):
    filters = {}
    if act["what"] != "times":
        filters.update(metadata_filters(m, act))
    if act["what"] != "series":
        filters.update(time_filters(m, act))
    if not filters:
        raise Skip
    keep = act["keep"]
    what = "filter(%s, keep=%s)" % (filters, keep)
    want = selected(m, filters, keep)
    given = repr(filters)
    if act["inplace"]:
        before = df
        df = df.copy()
        require(df.filter(keep=keep, inplace=True, **filters) is None, "%s returns", what)
        judge(before, m, what + " on a copy")
    else:
        before = fr.snapshot(df)
        new = df.filter(keep=keep, **filters)
        require(fr.snapshot(df) == before, "%s modifies the dataframe", what)
        df = new
    require(repr(filters) == given, "%s modifies the filters", what)
    if not want.rows:
        require(len(df) == 0 and df.values.size == 0, "%s leaves %d series", what, len(df))
        rec.label("empty")
        raise Skip
    judge(df, want, what)
    rec.label("filter")
    return df, want


def do_split(df, m, act, number, rec):
    """Taking apart and putting together."""
    filters = metadata_filters(m, act)
    if act["what"] != "series":
        filters.update(time_filters(m, act))
    if not filters:
        raise Skip
    a, b = selected(m, filters, True), selected(m, filters, False)
    if not a.rows or not b.rows:
        raise Skip
    what = "putting together filter(%s) and the rest" % (filters,)
    da, db = df.filter(**filters), df.filter(keep=False, **filters)
    judge(da, a, what)
    judge(db, b, what)
    order = [(da, a), (db, b)][::1 if act["keep"] else -1]
    res, dup = joined([x[1] for x in order])
    require(not dup, "reference: overlap")
    with warnings.catch_warnings():
        warnings.simplefilter("error", UserWarning)
        if act["inplace"]:
            df = order[0][0]
            require(df.append(order[1][0], inplace=True) is None, "append returns")
        else:
            df = order[0][0].append(order[1][0])
    judge(df, res, what)
    require(fr.observe(df)[0].keys() == m.table().keys(), "%s loses series", what)
    rec.label("split")
    return df, res


def do_append(df, m, act, number, rec):
    kind = act["kind"]
    if kind == "frame":
        other, om = fr.build(act["frame"]), of_frame(act["frame"])
    elif kind == "renamed":
        other, om = renamed_copy(df, m, number)
    elif kind == "shifted":
        other, om = df.copy(), clone(m)
        move = 1 + max(m.times) - min(m.times)
        if max(m.times) + move > cal.seconds(9999):
            raise Skip
        other["time"] = [fr.to_dt(t + move) for t in m.times]
        om = Model([t + move for t in m.times], [
            [a, {t + move: x for t, x in v.items()}] for a, v in om.rows])
        judge(other, om, "time reassignment")
    else:
        other, om = df.copy(), clone(m)
    res, dup = joined([m, om])
    before = fr.snapshot(df), fr.snapshot(other)
    if act["inplace"]:
        held = df
        df = df.copy()
        require(df.append(other, inplace=True, duplicate_msg=False) is None, "append returns")
        require(fr.snapshot(held) == before[0], "append reaches a copy")
    elif act["many"]:
        df3, m3 = renamed_copy(df, m, number + 1000)
        res, dup = joined([m, om, m3])
        new = df_append([df, other, df3], duplicate_msg=False)
        require(fr.snapshot(df) == before[0], "append modifies the dataframe")
        df = new
    else:
        new = df.append(other, duplicate_msg=False)
        require(fr.snapshot(df) == before[0], "append modifies the dataframe")
        df = new
    require(fr.snapshot(other) == before[1], "append modifies the other dataframe")
    scale = max(abs(x) for _, v in m.rows + om.rows for x in v.values())
    judge(df, res, "append (%s)" % kind, rel=1e-12 if dup else 0.0, scale=scale)
    rec.label("append " + kind)
    return df, res


def do_rename(df, m, act, number, rec):
    mapping = {}
    for c, kind in act["cols"]:
        c = pick(["model", "scenario", "region", "variable"], c)
        vals = sorted({r[0][c] for r in m.rows})
        if kind == 0:  # everything moves on by one
            mapping[c] = [[v, vals[(i + 1) % len(vals)]] for i, v in enumerate(vals)]
        elif kind == 1:
            mapping[c] = [[pick(vals, act["row"]), "new %d" % number]]
        elif kind == 2:
            mapping[c] = [[pick(vals, act["row"]), pick(vals, act["row"] + 1)], ["nobody", "x"]]
        else:
            mapping[c] = [[v, "%s!" % v] for v in vals[::2]]
    rows = [[dict(a), dict(b)] for a, b in m.rows]
    want, real = c29.apply_rename(df, rows, {"mapping": mapping}, rec)
    what = "rename(%s)" % (real,)
    before = fr.snapshot(df)
    try:
        if act["inplace"]:
            new = df.copy()
            require(new.rename(real, inplace=True) is None, "rename returns")
        else:
            new = df.rename(real)
    except ValueError:
        require(want is None, "%s is refused", what)
        require(fr.snapshot(df) == before, "%s modifies the dataframe", what)
        raise Skip from None
    require(want is not None, "%s is accepted", what)
    require(fr.snapshot(df) == before, "%s modifies the dataframe", what)
    res = Model(m.times, want)
    judge(new, res, what)
    rec.label("rename")
    return new, res


def do_assign(df, m, act, number, rec):
    labels = list(df.meta.index)
    rows = [[dict(a), dict(b)] for a, b in m.rows]
    want, fn = c29.apply_assign(df, rows, labels, act["assign"], rec)
    if want is not None and len({fr.key(a) for a, _ in want}) < len(want):
        raise Skip  # the series could not be told apart any more
    what = "assigning %s" % (act["assign"],)
    before = fr.snapshot(df)
    try:
        fn()
    except ValueError:
        require(want is None, "%s is refused", what)
        require(fr.snapshot(df) == before, "%s fails and modifies the dataframe", what)
        raise Skip from None
    require(want is not None, "%s is accepted", what)
    res = Model(m.times, want)
    judge(df, res, what)
    rec.label("assign")
    return df, res


def do_convert(df, m, act, number, rec):
    target = pick(sorted(UNIT), act["target"])
    if not act["keep"]:
        target = pick([x for x in sorted(UNIT)
                       if UNIT[x][0] == UNIT.get(pick(m.rows, act["row"])[0]["unit"],
                                                 ["K"])[0]], act["target"])
    filters = metadata_filters(m, act) if act["what"] != "times" else {}
    filters.pop("unit", None)
    part = fm.select(m.table(), filters)
    rows, fine = [], True
    for a, v in m.rows:
        chosen = fr.key(a) in part
        a = dict(a)
        a.setdefault("unit_context", None)
        if chosen:
            if a["unit"] == target:
                s = 1.0
            elif UNIT.get(a["unit"], [None])[0] != UNIT[target][0]:
                fine = False
                break
            else:
                s = UNIT[a["unit"]][1] / UNIT[target][1]
            a["unit"], a["unit_context"] = target, None
            v = {t: x * s for t, x in v.items()}
        rows.append([a, v])
    if fine and len({fr.key(a) for a, _ in rows}) < len(rows):
        raise Skip
    what = "convert_unit(%s, %s)" % (target, filters)
    res = Model(m.times, rows)
    before = fr.snapshot(df)
    try:
        if act["inplace"]:
            new = df.copy()
            require(new.convert_unit(target, inplace=True, **filters) is None, "returns")
        else:
            new = df
            new = df.convert_unit(target, **filters)
    except (DimensionalityError, UndefinedUnitError):
        require(not fine, "%s is refused", what)
        require(fr.snapshot(df) == before, "%s modifies the dataframe", what)
        require(fr.snapshot(new) == before, "%s fails and modifies the dataframe", what)
        raise Skip from None
    require(fine, "%s is accepted", what)
    require(fr.snapshot(df) == before, "%s modifies the dataframe", what)
    judge(new, res, what, rel=1e-12)
    rec.label("convert")
    return new, res


def do_interpolate(df, m, act, number, rec):
    if not m.full() or len(m.times) < 3 or sorted(m.times) != m.times:
        raise Skip
    types = []
    for a, _ in m.rows:
        p = a.get("parameter_type")
        if a["unit"] not in UNIT:
            raise Skip
        types.append(p if p is not None else UNIT[a["unit"]][2])
    span = m.times[-1] - m.times[0]
    targets = sorted({m.times[0] + int(round(span * x)) for x in act["targets"]})
    targets = [t for t in targets
               if cal.seconds(1, 1, 2) < t < cal.seconds(9990) and t != -9223372036]
    if len(targets) < 2 or targets[-1] + (targets[-1] - targets[-2]) > cal.seconds(9999):
        raise Skip
    rows, scale = [], {}
    for p, (a, v) in zip(types, m.rows):
        try:
            vals, mag = fm.interpolate(p, m.times, [v[t] for t in m.times], targets,
                                       act["ext"])
        except tsmodel.Refused:
            before = fr.snapshot(df)
            try:
                df.interpolate([fr.to_dt(t) for t in targets], extrapolation_type=act["ext"])
            except InsufficientDataError:
                require(fr.snapshot(df) == before, "interpolate fails and modifies")
                raise Skip from None
            require(False, "interpolate to %s is not refused", targets)
        a = dict(a, parameter_type=p)
        rows.append([a, dict(zip(targets, vals))])
        scale[fr.key(a)] = mag
    what = "interpolate to %s (%s)" % (targets, act["ext"])
    before = fr.snapshot(df)
    new = df.interpolate([fr.to_dt(t) for t in targets], extrapolation_type=act["ext"])
    require(fr.snapshot(df) == before, "%s modifies the dataframe", what)
    res = Model(targets, rows)
    got, _ = fr.observe(new)
    want = res.table()
    require(set(got) == set(want), "%s: series are %s, not %s", what, sorted(got, key=str),
            sorted(want, key=str))
    for k, v in want.items():
        fr.compare({k: got[k]}, {k: v}, what, rel=REL, scale=scale[k] + 1e-290)
        want[k].update(got[k])
    judge(new, res, what)
    rec.label("interpolate")
    return new, res


def do_times(df, m, act, number, rec):
    n = len(m.times)
    kind = act["kind"]
    base = cal.seconds(1900 + act["row"])
    if kind == "years":
        new = [cal.seconds(1900 + act["row"] + i) for i in range(n)]
        arg = [1900 + act["row"] + i for i in range(n)]
    elif kind == "shift":
        move = act["time"] * 86400 * 30 + 1
        new = [t + move for t in m.times]
        if max(new) > cal.seconds(9990) or -9223372036 in new:
            raise Skip
        arg = [fr.to_dt(t) for t in new]
    elif kind == "reversed":
        new = m.times[::-1]
        arg = np.array(new).astype("datetime64[s]")
    else:
        new = [base + 3600 * i * (1 + act["time"]) for i in range(n)]
        arg = np.array(new).astype("datetime64[s]")
    df["time"] = arg
    to = dict(zip(m.times, new))
    res = Model(new, [[a, {to[t]: x for t, x in v.items()}] for a, v in m.rows])
    judge(df, res, "time reassignment to %s" % (new,))
    rec.label("times " + kind)
    return df, res


def do_copy(df, m, act, number, rec):
    other = df.copy() if act["row"] % 2 else ScmDataFrame(df)
    judge(other, clone(m), "copy")
    # changes of one do not reach the other
    gone, stays = (df, other) if act["keep"] else (other, df)
    gone.set_meta(["spoilt %d" % i for i in range(len(gone))], name="scenario")
    gone.set_meta("spoilt", name="spoilt")
    gone["time"] = [fr.to_dt(cal.seconds(3000 + i)) for i in range(len(m.times))]
    gone.filter(year=3000, inplace=True)
    gone.values[:] = 77
    judge(stays, m, "copy")
    rec.label("copy")
    return stays, m


def do_rebuild(df, m, act, number, rec):
    """A new dataframe from the table of the old one."""
    if any(c != c.lower() for c in m.cols()):
        raise Skip
    table = df.timeseries()
    if act["keep"]:
        table = table.reset_index()
    before = fr.snapshot(table)
    new = ScmDataFrame(table)
    require(fr.snapshot(table) == before, "construction modifies its input")
    res = Model(sorted(m.times), [[dict(a), dict(b)] for a, b in m.rows])
    judge(new, res, "construction from the table")
    rec.label("rebuild")
    return new, res


def do_look(df, m, act, number, rec):
    """Look at parts of a dataframe."""
    cols = m.cols()
    some = sorted({pick(cols, c) for c in act["look"]}, key=cols.index)
    keys = [tuple(fr.canon(a.get(c)) for c in some) for a, _ in m.rows]
    before = fr.snapshot(df)
    try:
        got = df.timeseries(meta=some)
    except ValueError:
        require(len(set(keys)) < len(keys), "timeseries(meta=%s) is refused", some)
        got = None
    if got is not None:
        require(len(set(keys)) == len(keys), "timeseries(meta=%s) has duplicates", some)
        require(list(got.index.names) == some, "timeseries(meta=%s): index %s", some,
                got.index.names)
        table = {}
        for label, row in zip(got.index, got.values):
            label = label if isinstance(label, tuple) else (label,)
            table[tuple(fr.canon(x) for x in label)] = {
                fr.to_sec(t): float(v) for t, v in zip(got.columns, row) if not np.isnan(v)}
        want = {k: dict(v) for k, (_, v) in zip(keys, m.rows)}
        require(table == want, "timeseries(meta=%s) gives %s, not %s", some, table, want)
    part = df[some]
    require([tuple(fr.canon(x) for x in r) for r in part.values.tolist()] == [
        tuple(fr.canon(r.get(c)) for c in some) for r in fr.meta_rows(df)],
        "df[%s] differs from metadata", some)
    n = act["row"] % (len(m.rows) + 2)
    for name in ("head", "tail"):
        got = getattr(df, name)(n)
        full = df.timeseries()
        full = full.iloc[:n] if name == "head" else full.iloc[len(full) - min(n, len(full)):]
        require(got.equals(full), "%s(%d) is not a part of timeseries()", name, n)
    for bad in ("no such column", ["model", "no such column"]):
        try:
            df[bad]
        except KeyError:
            continue
        require(False, "df[%r] is accepted", bad)
    # what was handed out is not connected
    for out in (df.timeseries(), df.meta, df.head(n), part):
        if len(out):
            out.iloc[:, 0] = "spoilt" if out is part or "model" in out.columns else -77.0
    df.values[:] = 5.5
    require(fr.snapshot(df) == before, "looking at a dataframe modifies it")
    rec.label("look")
    return df, m


STEPS = {"look": do_look, "filter": do_filter, "split": do_split, "append": do_append, "rename": do_rename,
         "assign": do_assign, "convert": do_convert, "interpolate": do_interpolate,
         "times": do_times, "copy": do_copy, "rebuild": do_rebuild}


def check_history(case, rec):
    df, m = fr.build(case["frame"]), of_frame(case["frame"])
    if case.get("origin") == 1 and not any(c != c.lower() for c in case["frame"]["cols"]):
        # from a table whose row labels repeat
        table = fr.wide(case["frame"])
        table.index = [i // 2 for i in range(len(table))]
        df = ScmDataFrame(table)
        rec.label("repeated row labels")
    judge(df, m, "construction")
    done = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for number, act in enumerate(case["actions"]):
            if len(m.rows) > 24:
                break
            kept = clone(m)
            try:
                df, m = STEPS[act["op"]](df, m, act, number, rec)
                done += 1
            except Skip:
                judge(df, kept, "state after a refused %s" % act["op"])
                m = kept
    rec.nontrivial(done >= 2 and len(m.rows) >= 2)
    rec.label("%d steps" % min(done, 5))


INT = st.integers(0, 11)


@st.composite
def s_action(draw, frame):
    op = draw(st.sampled_from(["filter", "filter", "split", "append", "append", "rename",
                               "assign", "assign", "convert", "convert", "interpolate", "interpolate",
                               "times", "copy", "rebuild", "look"]))
    act = {"op": op, "row": draw(INT), "inplace": draw(st.booleans()),
           "keep": draw(st.sampled_from([True, True, True, False])), "time": draw(st.integers(0, 5))}
    if op in ("filter", "split", "convert"):
        act["what"] = draw(st.sampled_from(["series", "series", "times", "both"]))
        act["cols"] = draw(st.lists(st.tuples(INT, INT).map(list), min_size=1, max_size=2))
        act["time_kind"] = draw(st.sampled_from(
            ["year", "range", "month", "day", "hour", "time"]))
        act["target"] = draw(INT)
    elif op == "append":
        act["kind"] = draw(st.sampled_from(["frame", "frame", "renamed", "shifted", "same"]))
        act["many"] = draw(st.integers(0, 3)) == 0
        if act["kind"] == "frame":
            act["frame"] = draw(frame)
    elif op == "rename":
        act["cols"] = draw(st.lists(st.tuples(INT, st.integers(0, 3)).map(list), min_size=1,
                                    max_size=2))
    elif op == "assign":
        act["assign"] = draw(c29.s_assign())
        if act["assign"]["name"] == "parameter_type":
            act["assign"]["name"] = "note"
    elif op == "interpolate":
        lo, hi = draw(st.sampled_from([(0.0, 1.0), (0.0, 1.0), (-0.5, 1.5)]))
        act["targets"] = draw(st.lists(st.one_of(
            st.sampled_from([0.0, 0.25, 0.5, 1.0]), st.floats(lo, hi)), min_size=2, max_size=5))
        act["ext"] = draw(st.sampled_from(["constant", "constant", "linear", "none"]))
    elif op == "look":
        act["look"] = draw(st.lists(INT, min_size=1, max_size=6))
    elif op == "times":
        act["kind"] = draw(st.sampled_from(["years", "shift", "reversed", "hours"]))
    return act


@st.composite
def s_frame(draw, hi=4, grid=None, unit=None):
    f = draw(fr.frame(lo=draw(st.sampled_from([1, 2, hi])), hi=hi, time_strategy=grid if grid is not None else fr.times(hi=5),
                      words=["a", "b", "x|y", "a(b)"],
                      extra=["climate_model", "ensemble", "note", "weight"],
                      units=unit or sorted(UNIT)))
    if draw(st.integers(0, 1)):
        for r in f["rows"]:
            r["values"] = [0.5 if v is None else v for v in r["values"]]
    return f


@st.composite
def s_case(draw):
    # frames of a case share their times, so that values meet
    pool = draw(fr.times(3, 6))

    @st.composite
    def some(d):
        keep = d(st.lists(st.booleans(), min_size=len(pool), max_size=len(pool)))
        res = [t for t, k in zip(pool, keep) if k]
        return res if len(res) > 1 else list(pool)

    kind = draw(st.sampled_from(["K", "C/yr", "kg", "W", None, None]))
    unit = [u for u in sorted(UNIT) if kind in (None, UNIT[u][0])]
    f = draw(s_frame(grid=st.just(pool) if draw(st.booleans()) else some(), unit=unit))
    return {"frame": f, "origin": draw(st.integers(0, 3)), "actions": draw(st.lists(
        s_action(s_frame(hi=3, grid=some(), unit=unit)), min_size=2, max_size=8))}


SUBS = [
    Sub("history", check_history, s_case, quick=900, thorough=40000,
        rule="2 to 8 operations; non-trivial if at least two took effect on several series"),
]
ASSUMPTIONS = [
    "the order of series and of extra metadata columns is not judged",
    "values are compared exactly, except after unit conversion (1e-12), averaging of "
    "duplicates (1e-12) and interpolation (1e-9 of the magnitudes involved)",
    "steps which the domain of an operation excludes are skipped",
]
