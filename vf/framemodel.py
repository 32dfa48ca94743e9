"""
Reference semantics of selecting from a record table, written from the documentation and
without regular expressions or pandas.
"""
import re

from . import cal, tsmodel

MONTHS = ["january", "february", "march", "april", "may", "june", "july", "august",
          "september", "october", "november", "december"]
DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]


class Refused(Exception):
    """The reference refuses a value (``kinds`` are the expected error types)."""

    def __init__(self, *kinds):
        super().__init__(kinds)
        self.kinds = kinds


def glob(pattern, text):
    """Whether a pattern, in which a star matches any text, matches the whole text."""
    parts = pattern.split("*")
    if len(parts) == 1:
        return pattern == text
    first, last = parts[0], parts[-1]
    if len(text) < len(first) + len(last):
        return False
    if text[:len(first)] != first or (last and text[-len(last):] != last):
        return False
    pos, end = len(first), len(text) - len(last)
    for p in parts[1:-1]:
        i = text.find(p, pos, end)
        if i < 0:
            return False
        pos = i + len(p)
    return True


def level_ok(level, n):
    """Whether ``n`` levels are what is requested."""
    if isinstance(level, int):
        return n == level
    m = int(level[:-1])
    return n <= m if level[-1] == "-" else n >= m


def entry_matches(value, patterns, regexp=False, has_nan=True, level=None, sep="|"):
    """Whether a metadata entry (None if missing) matches one of the patterns."""
    if isinstance(patterns, (str, int, float)) or patterns is None:
        patterns = [patterns]
    for p in patterns:
        if not isinstance(p, str):
            if p is not None and p == p and value is not None and not isinstance(value, str) \
                    and value == p:
                return True
            continue
        v = value
        if v is None:
            if not has_nan:
                raise Refused(TypeError)
            v = ""
        if not isinstance(v, str):
            raise Refused(TypeError)
        if regexp:
            if re.match(p, v):
                return True
            continue
        if glob(p, v):
            if level is None:
                return True
            rest = v.count(sep) - p.count(sep)
            if level_ok(level, rest):
                return True
    return False


def names_to_numbers(values, names, base):
    """Months or weekdays meant by names and ranges of names."""
    def one(name):
        low = name.lower()
        for i, n in enumerate(names):
            if low in (n, n[:3]):
                return i + base
        raise Refused(ValueError)

    res = set()
    for v in values:
        if "-" in v:
            a, b = (one(x) for x in v.split("-"))
            if a > b:
                raise Refused(ValueError)
            res |= set(range(a, b + 1))
        else:
            res.add(one(v))
    return res


def time_matches(sec, kind, values):
    """Whether a time matches a filter (``time`` values are seconds)."""
    values = list(values) if isinstance(values, (list, tuple)) else [values]
    f = cal.fields(sec)
    if not values:
        return False
    if kind == "time":
        return sec in values
    if kind == "year":
        return f[0] in values
    if kind == "hour":
        return f[3] in values
    if kind == "month":
        if isinstance(values[0], str):
            values = names_to_numbers(values, MONTHS, 1)
        return f[1] in values
    assert kind == "day"
    if isinstance(values[0], str):
        return f[6] in names_to_numbers(values, DAYS, 0)
    return f[2] in values


TIME_KINDS = ("year", "month", "day", "hour", "time")


def select(table, filters, keep=True, regexp=False, has_nan=True, sep="|"):
    """The cells of a table that are kept."""
    metas = {k: dict(k) for k in table}
    level = filters.get("level")
    res = {}
    for k, vals in table.items():
        row = True
        for col, values in filters.items():
            if col in TIME_KINDS:
                continue
            if col == "level":
                if "variable" not in filters:
                    row &= entry_matches(metas[k]["variable"], "*", False, has_nan, level,
                                         sep)
                continue
            row &= entry_matches(metas[k].get(col), values, regexp, has_nan,
                                 level if col == "variable" else None, sep)
        cells = {}
        for t, v in vals.items():
            ok = row
            for kind in TIME_KINDS:
                if kind in filters:
                    ok = time_matches(t, kind, filters[kind]) and ok
            if bool(ok) == keep:
                cells[t] = v
        if cells:
            res[k] = cells
    return res


def extended(times):
    """Edges of the averaging periods starting at the times."""
    return list(times) + [2 * times[-1] - times[-2]]


def interpolate(ptype, times, values, targets, extrapolation):
    """
    (values, tolerance scale) at the target times of a series whose average values belong to
    the periods starting at the times; raises ``tsmodel.Refused``.
    """
    src, dst = list(times), list(targets)
    if ptype == "average":
        src, dst = extended(src), extended(dst)
    res = tsmodel.convert(ptype, src, values, dst, extrapolation)
    return [float(x) for x in res], tsmodel.magnitude(ptype, src, values, dst, extrapolation)
