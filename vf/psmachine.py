"""
A reference model of parameter sets and an executor that runs a history of operations on
the real parameter sets and on the model side by side.

A history is a list of operations (plain lists, see ``Machine.step``).  Operations refer to
views and handles by number (modulo how many there are).
"""
import json

import numpy as np

from . import tsmodel, unitmodel as um
from .core import require

from openscm.core.parameters import ParameterType
from openscm.core.parameterset import ParameterSet
from openscm.core.time import ExtrapolationType, InterpolationType

UNITS = {
    "kg": um.simple(("k", "g", 1)),
    "g": um.simple(("", "g", 1)),
    "Mt": um.simple(("M", "t", 1)),
    "GtC/yr": um.simple(("G", "t", "C", 1), ("", "yr", -1), s=1),
    "Mt CO2 / day": um.simple(("M", "t", 1), ("", "CO2", 1), ("", "day", -1)),
    "tCO2/a": um.simple(("", "t", "CO2", 1), ("", "a", -1), s=1),
    "K": um.simple(("", "K", 1)),
    "degC": um.simple(("", "degC", 1)),
    "degF": um.simple(("", "degF", 1)),
    "W/m^2": um.simple(("", "W", 1), ("", "m", -2), s=1),
    "mW / m^2": um.simple(("m", "W", 1), ("", "m", -2)),
    "dimensionless": um.simple(("", "dimensionless", 1)),
}
BAD_UNITS = ["zqxunit", "GtCO3"]
FAMILIES = [["kg", "g", "Mt"], ["GtC/yr", "Mt CO2 / day", "tCO2/a"], ["K", "degC", "degF"],
            ["W/m^2", "mW / m^2"], ["dimensionless"]]

TYPES = {"scalar": ParameterType.SCALAR, "generic": ParameterType.GENERIC,
         "point": ParameterType.POINT_TIMESERIES, "average": ParameterType.AVERAGE_TIMESERIES}
ROOT = "World"
LOOKS = ["array", "iter", "index", "neg", "slice", "add", "radd", "mul", "ufunc", "self", "where",
         "asarray", "fancy", "out", "sum", "repr"]
REL = 1e-9
REL_ROUND = 0.25  # converted data is exact to much less than REL


class Refuse(Exception):
    """The operation has to be refused with one of these errors."""

    def __init__(self, *names):
        super().__init__(str(names))
        self.names = set(names)


class MParam:
    """Model of a parameter."""

    def __init__(self, name, parent, region):
        self.name, self.parent, self.region = name, parent, region
        self.children = {}
        self.ptype = self.unit = self.grid = self.data = None
        self.read = self.written = False
        self.writes = 0
        self.scale = 0.0
        self.writer = None  # the view whose data was written last

    def leaves(self):
        """All leaf parameters below."""
        if not self.children:
            return [self]
        return [x for c in self.children.values() for x in c.leaves()]

    def below(self):
        """All parameters below."""
        return [x for c in self.children.values() for x in [c] + c.below()]


def unit_ok(a, b):
    """Refuse units that do not exist or do not fit."""
    for u in (a, b):
        if u not in UNITS:
            raise Refuse("UndefinedUnitError")
    if um.dims(UNITS[a]) != um.dims(UNITS[b]):
        raise Refuse("DimensionalityError")


def conv_unit(a, b, v):
    """Value in unit ``a`` converted to unit ``b``."""
    if a == b:
        return v
    scale, offset = um.affine(UNITS[a], UNITS[b])
    return float(scale) * v + float(offset)


def unit_scale(a, b, m):
    """Magnitude ``m`` in unit ``a`` expressed in unit ``b`` (offsets included)."""
    if a == b:
        return m
    scale, offset = um.affine(UNITS[a], UNITS[b])
    return float(abs(scale)) * m + float(abs(offset))


class MView:
    """Model of a view."""

    def __init__(self, param, kind, unit, grid, ext):
        self.param, self.kind, self.unit, self.grid, self.ext = param, kind, unit, grid, ext
        self.locked = self.pending = False
        self.own = None
        self.own_scale = 0.0

    @property
    def length(self):
        """Number of values."""
        return len(self.grid) - (self.kind == "average")

    @property
    def aggregate(self):
        """Whether this views a parameter with children."""
        return bool(self.param.children)

    def one(self, p):
        """(values, scale) of one leaf as this view shows it."""
        if not p.written:
            raise Refuse("ParameterEmptyError")
        if self.kind == "generic":
            return p.data, 0
        if self.kind == "scalar":
            return (conv_unit(p.unit, self.unit, p.data),
                    unit_scale(p.unit, self.unit, p.scale))
        return self.convert(p.grid, p.unit, p.data, p.scale, self.grid, self.unit)

    def convert(self, src, usrc, data, scale, dst, udst):
        """Data on one grid and unit to another."""
        vals = [conv_unit(usrc, udst, float(x)) for x in data]
        scale = unit_scale(usrc, udst, scale)
        try:
            # the parameter's grid must not start after the second point of the view's
            if self.kind == "average" or self.kind == "point":
                if len(vals) < 3:
                    raise tsmodel.Refused
                fn = (tsmodel.convert_average if self.kind == "average"
                      else tsmodel.convert_point)
                res = fn(src, vals, dst, self.ext)
        except tsmodel.Refused:
            raise Refuse("InsufficientDataError")
        m = tsmodel.magnitude(self.kind, src, vals, dst, self.ext)
        # errors already in the data are amplified too, whatever the data
        rounding = REL_ROUND * tsmodel.amplification(self.kind, src, dst, self.ext)
        scale = max(scale * max(1.0, rounding), m)
        return [float(x) for x in res], scale

    def show(self):
        """(value(s), scale) the view has to show."""
        if self.pending:
            return self.own, self.own_scale
        if not self.aggregate:
            if self.kind in ("point", "average") and self.param.writer is self:
                return self.own, self.own_scale
            return self.one(self.param)
        total, scale = None, 0.0
        for leaf in self.param.leaves():
            v, s = self.one(leaf)
            scale += s
            if total is None:
                total = v
            elif self.kind == "scalar":
                total = total + v
            else:
                total = [a + b for a, b in zip(total, v)]
        return total, scale

    def publish(self, vals, scale):
        """Write data to the parameter."""
        p = self.param
        if self.kind == "generic":
            data = vals
        elif self.kind == "scalar":
            data = conv_unit(self.unit, p.unit, float(vals))
            scale = unit_scale(self.unit, p.unit, scale)
        else:
            data, newscale = self.convert(self.grid, self.unit, vals, scale, p.grid, p.unit)
            self.own, self.own_scale = list(vals), scale
            scale = newscale
        p.data, p.scale = data, scale
        p.written = True
        p.writes += 1
        p.writer = self


def split(name, how):
    """A hierarchical name as text, tuple or list."""
    if how == "text" or (how == "default" and name):
        return "|".join(name)
    return list(name) if how == "list" else tuple(name)


class Machine:
    """Runs a history on both sides."""

    def __init__(self, grids, rec, sets=2, root=ROOT):
        self.grids = grids
        self.rec = rec
        self.root = root
        self.real_sets = [ParameterSet() if root == ROOT else ParameterSet(root)
                          for _ in range(sets)]
        self.model_sets = [dict() for _ in range(sets)]  # region -> {root name: MParam}
        self.regions = [{(ROOT,)} for _ in range(sets)]
        self.real, self.model = [], []  # views
        self.rhandles, self.mhandles = [], []  # handles: model is (view, slice list)
        self.objects = {}
        self.last = {}  # view: what was last written through it
        self.labels = set()

    # ---------------------------------------------------------------- helpers

    def fix(self, region):
        """Histories are written for the root region "World"; swap it with the set's."""
        if region and region[0] in (ROOT, self.root):
            return [self.root if region[0] == ROOT else ROOT] + region[1:]
        return region

    def times(self, g):
        return np.array(self.grids[g], dtype="int64").astype("datetime64[s]")

    def find(self, s, name, region):
        node = self.model_sets[s].get(tuple(region), {}).get(name[0])
        for n in name[1:]:
            if node is None:
                return None
            node = node.children.get(n)
        return node

    def attempt(self, what, model_fn, real_fn):
        """Run both; they have to agree on whether the operation is refused."""
        try:
            want, refuse = model_fn(), None
        except Refuse as e:
            want, refuse = None, e.names
        try:
            got, error = real_fn(), None
        except Exception as e:  # pylint: disable=broad-except
            got, error = None, e
        if refuse is not None:
            require(error is not None, "%s is not refused (expected %s)", what, sorted(refuse))
            require(type(error).__name__ in refuse, "%s raises %s, not %s", what,
                    repr(error), sorted(refuse))
            self.rec.label("refused " + sorted(refuse)[0])
            self.labels.add("refused")
            return False, None, None
        if error is not None:
            raise AssertionError("%s fails with %r" % (what, error)) from error
        return True, want, got

    def compare(self, what, got, want, scale):
        if isinstance(want, list):
            arr = np.asarray(got)
            require(arr.shape == (len(want),), "%s has shape %s, not %d", what, arr.shape,
                    len(want))
            for i, (g, w) in enumerate(zip(arr, want)):
                require(abs(float(g) - w) <= REL * scale + 1e-300,
                        "%s: element %d is %r, not %r (all: %s)", what, i, float(g), w, want)
        else:
            require(abs(float(got) - want) <= REL * scale + 1e-300, "%s is %r, not %r", what,
                    got, want)

    # ------------------------------------------------------------------ steps

    def step(self, op):
        getattr(self, "op_" + op[0])(*op[1:])

    def op_view(self, s, kind, name, region, unit, g, ext, how="text", bad=None):
        s %= len(self.real_sets)
        g %= len(self.grids)
        grid = self.grids[g]
        kind_real = TYPES.get(kind)
        region = [ROOT] if how == "default" else self.fix(region)

        if kind not in ("point", "average"):
            bad = None

        def model():
            if bad:
                # other reasons may apply as well
                raise Refuse("ValueError", "KeyError", "ParameterTypeError",
                             "ParameterAggregationError", "DimensionalityError",
                             "UndefinedUnitError", "InsufficientDataError",
                             "ParameterReadError", "ParameterWrittenError")
            if not region or region[0] != self.root:
                raise Refuse("ValueError")
            if not name:
                raise Refuse("ValueError")
            roots = self.model_sets[s].setdefault(tuple(region), {})
            self.regions[s].add(tuple(region))
            node = roots.get(name[0])
            created = None
            if node is None:
                node = MParam(name[0], None, tuple(region))
                created = (roots, name[0], node)
                known = False
            else:
                known = True
            for n in name[1:]:
                child = node.children.get(n)
                if child is None:
                    if known:
                        up, errors = node, set()
                        if node.written:
                            errors.add("ParameterWrittenError")
                        while up is not None:
                            if up.read:
                                errors.add("ParameterReadError")
                            up = up.parent
                        if errors:
                            raise Refuse(*errors)
                    child = MParam(n, node, tuple(region))
                    if created is None:
                        created = (node.children, n, child)
                    else:
                        node.children[n] = child
                    known = False
                node = child
            errors = set()
            if node.ptype not in (None, kind):
                errors.add("ParameterTypeError")
            if kind == "generic" and node.children:
                errors |= {"ParameterAggregationError"}
            if any(c.ptype not in (None, kind) for c in node.below()):
                errors.add("ParameterTypeError")
            if kind != "generic":
                base = node.unit if node.ptype is not None else unit
                for u in [base] + [x.unit for x in node.leaves() if node.children]:
                    if u is None:
                        continue
                    try:
                        unit_ok(u, unit)
                    except Refuse as e:
                        errors |= e.names
            if kind in ("point", "average"):
                sources = [node.grid if node.grid is not None else grid]
                if node.children:
                    sources += [x.grid for x in node.leaves() if x.grid is not None]
                if any(src[0] > grid[1] for src in sources):
                    errors.add("InsufficientDataError")
            if errors:
                raise Refuse(*errors)
            if created:
                created[0][created[1]] = created[2]
            if node.ptype is None:
                node.ptype = kind
                if kind != "generic":
                    node.unit = unit
                if kind in ("point", "average"):
                    node.grid = list(grid)
            node.read = True
            return MView(node, kind, unit, list(grid), ext)

        def real():
            ps = self.real_sets[s]
            n, r = split(name, how), split(region, how)
            if name == []:
                n = ()
            if region == []:
                r = ()
            kw = {} if how == "default" else {"region": r}
            if kind == "scalar":
                return ps.scalar(n, unit, **kw)
            if kind == "generic":
                return ps.generic(n, **kw)
            t = self.times(g)
            # options as members of the enumerations or texts in any case
            options = {"timeseries_type": {"text": kind, "list": kind.upper()}.get(
                           how, kind_real),
                       "extrapolation": {"text": ext, "tuple": ext.upper()}.get(
                           how, ExtrapolationType[ext.upper()])}
            if g % 2:
                options["interpolation"] = {"text": "linear", "list": "LINEAR"}.get(
                    how, InterpolationType.LINEAR)
            if bad:
                options[bad[0]] = bad[1]
            v = ps.timeseries(n, unit, t, **options, **kw)
            t += np.timedelta64(1000, "s")  # the caller's array is the caller's
            return v

        ok, m, v = self.attempt("%s view of %s in %s" % (kind, "|".join(name), region),
                                model, real)
        if ok:
            self.model.append(m)
            self.real.append(v)
            if m.aggregate:
                self.labels.add("aggregate")
            if self.real and len({id(x.param) for x in self.model}) < len(self.model):
                self.labels.add("several views of one parameter")

    def pick(self, v, kinds=None):
        """A view number, of some kind if there is one."""
        idx = [i for i, m in enumerate(self.model) if kinds is None or m.kind in kinds]
        return idx[v % len(idx)] if idx else None

    def op_write(self, v, vals, dtype="float"):
        """Write a value to any view, then look at what the set says about the parameter."""
        i = self.pick(v)
        if i is None:
            return
        self.last[i] = [vals, dtype]
        self._write_value(i, vals, dtype)
        m = self.model[i]
        self.check_info(self.real[i], m.param, m.unit if m.kind != "generic" else None,
                        "view %d after writing" % i)

    def op_again(self, v):
        """Write the very value again that was last written through a view."""
        i = self.pick(v)
        if i is not None and i in self.last:
            self.labels.add("written again")
            self.op_write(i, *self.last[i])

    def _write_value(self, i, vals, dtype):
        m, r = self.model[i], self.real[i]
        what = "writing to view %d of %s" % (i, m.param.name)
        if m.kind == "generic":
            obj = self.objects.setdefault(json.dumps(vals), vals)
            if isinstance(vals, list) and len(vals) % 2:
                obj = np.array(vals)

            def model():
                m.publish(obj, 0)

            def real():
                r.value = obj

            self.attempt(what, model, real)
            return
        if m.kind == "scalar":
            x = vals[0] if dtype == "float" else int(vals[0])

            def model():
                if m.aggregate:
                    raise Refuse("ParameterReadonlyError")
                m.publish(float(x), abs(x))

            def real():
                r.value = x

            self.attempt(what, model, real)
            return
        data = [float(vals[k % len(vals)]) for k in range(m.length)]
        if dtype == "int":
            data = [float(int(x)) for x in data]
        self._write(i, what, data, dtype)

    def _write(self, i, what, data, dtype="float", refuse=()):
        m, r = self.model[i], self.real[i]

        def model():
            if m.aggregate:
                raise Refuse("ParameterReadonlyError", *refuse)
            if refuse:
                raise Refuse(*refuse)
            scale = max(abs(x) for x in data)
            if m.locked:
                m.own, m.own_scale, m.pending = list(data), scale, True
            else:
                m.publish(data, scale)

        arr = (np.array([int(x) for x in data]) if dtype == "int"
               else list(data) if dtype == "list" else np.array(data, dtype=float))

        def real():
            r.values = arr

        ok, _, _ = self.attempt(what, model, real)
        if ok and m.locked:
            self.labels.add("written while locked")
        for k in range(len(arr)):
            arr[k] = -999  # the caller's array is the caller's

    def op_wrongsize(self, v, delta):
        """Write a wrong number of values."""
        i = self.pick(v, ("point", "average"))
        if i is None:
            return
        m = self.model[i]
        n = max(0, m.length + (delta or 1))
        if n == m.length:
            return
        self._write(i, "writing %d values to view %d of length %d" % (n, i, m.length),
                    [1.0] * n, refuse=("TimeseriesPointsValuesMismatchError",))

    def op_from(self, v, w):
        """Write the values of one view to another."""
        i, j = self.pick(v, ("point", "average")), self.pick(w, ("point", "average"))
        if i is None:
            return
        m, src = self.model[i], self.model[j]

        def model():
            val, scale = src.show()
            if m.aggregate:
                raise Refuse("ParameterReadonlyError")
            if len(val) != m.length:
                raise Refuse("TimeseriesPointsValuesMismatchError")
            if m.locked:
                m.own, m.own_scale, m.pending = list(val), scale, True
            else:
                m.publish(list(val), scale)

        def real():
            self.real[i].values = self.real[j].values

        self.attempt("copying view %d to view %d" % (j, i), model, real)

    # handles ------------------------------------------------------------------

    def op_hold(self, v):
        """Keep the array of a view."""
        i = self.pick(v, ("point", "average"))
        if i is None:
            return
        m = self.model[i]
        ok, _, h = self.attempt("getting the values of view %d" % i, m.show,
                                lambda: self.real[i].values)
        if ok:
            self.mhandles.append((i, list(range(m.length))))
            self.rhandles.append(h)
            self.labels.add("handle")

    def op_sub(self, h, a, b, step):
        """Keep a slice of a handle."""
        if not self.rhandles:
            return
        h %= len(self.rhandles)
        i, idx = self.mhandles[h]
        if isinstance(a, list):
            if idx:
                self.pick_elements(h, i, idx, a, b)
            return
        sl = slice(a, b, step)
        picked = idx[sl]
        ok, _, sub = self.attempt("slicing handle %d" % h, self.model[i].show,
                                  lambda: self.rhandles[h][sl])
        if ok:
            self.mhandles.append((i, picked))
            self.rhandles.append(sub)

    def pick_elements(self, h, i, idx, where, how):
        """Elements picked by position or mask are a copy, as in numpy."""
        where = [k % len(idx) for k in where]
        if how == "mask":
            where = sorted(set(where))
            key = np.isin(np.arange(len(idx)), where)
        elif how == "number":
            where = where[:1]
            key = np.int64(where[0])
        else:
            key = list(where) if how == "list" else np.array(where)

        ok, want, got = self.attempt("picking from handle %d" % h, self.model[i].show,
                                     lambda: self.rhandles[h][key])
        if not ok:
            return
        vals, scale = want
        want = [vals[idx[k]] for k in where]
        what = "elements %s of handle %d of view %d" % (where, h, i)
        self.compare(what, np.atleast_1d(np.asarray(got, dtype=float)), want, scale)
        self.labels.add("picked")
        if how != "number":
            got[0] = 7  # is not seen by the view (but by the copy)
            self.compare("the copy of " + what, got, [7.0] + want[1:], scale + 8)

    def element(self, i, idx, change, real, what, via_handle):
        """Change some elements of the data of a view."""
        m = self.model[i]

        def model():
            errors = {"ParameterReadonlyError"} if m.aggregate else set()
            try:
                val, scale = m.show()
            except Refuse as e:
                errors |= e.names
                val = None
            if errors:
                if m.aggregate and via_handle:
                    raise Refuse(*errors)
                raise Refuse(*errors)
            new = list(val)
            for k, fn in zip(idx, change):
                new[k] = fn(new[k])
            scale = max([scale] + [abs(x) for x in new])
            if m.locked:
                m.own, m.own_scale, m.pending = new, scale, True
            else:
                m.publish(new, scale)

        self.attempt(what, model, real)

    def op_elem(self, v, k, x, how):
        """Write one element or a slice through a view."""
        i = self.pick(v, ("point", "average"))
        if i is None:
            return
        n = self.model[i].length
        k %= n
        r = self.real[i]
        if how == "slice":
            def real():
                r.values[k:] = x
            idx = list(range(k, n))
        elif how == "list":
            def real():
                r.values[k:] = [x + j for j in range(n - k)]
            idx = list(range(k, n))
            self.element(i, idx, [lambda _, j=j: float(x + j) for j in range(n - k)], real,
                         "writing elements of view %d" % i, False)
            return
        elif how == "neg":
            def real():
                r.values[k - n] = x
            idx = [k]
        elif how == "mask":
            def real():
                mask = np.zeros(n, dtype=bool)
                mask[k] = True
                r.values[mask] = x
            idx = [k]
        elif how == "iadd":
            def real():
                r.values += x
            idx = list(range(n))
            self.element(i, idx, [lambda old: old + x] * n, real,
                         "adding in place to view %d" % i, False)
            return
        else:
            def real():
                r.values[k] = x
            idx = [k]
        self.element(i, idx, [lambda _: float(x)] * len(idx), real,
                     "writing element %d of view %d (%s)" % (k, i, how), False)

    def op_helem(self, h, k, x, how):
        """Write through a handle."""
        if not self.rhandles:
            return
        h %= len(self.rhandles)
        i, idx = self.mhandles[h]
        r = self.rhandles[h]
        if not idx:
            return
        k %= len(idx)
        self.labels.add("written through handle")
        if how == "imul":
            def real():
                rr = r
                rr *= x
            self.element(i, idx, [lambda old: old * x] * len(idx), real,
                         "multiplying handle %d in place" % h, True)
            return
        if how == "out":
            def real():
                np.add(r, x, out=r)
            self.element(i, idx, [lambda old: old + x] * len(idx), real,
                         "adding to handle %d with out" % h, True)
            return
        if how == "slice":
            def real():
                r[k:] = x
            self.element(i, idx[k:], [lambda _: float(x)] * (len(idx) - k), real,
                         "writing a slice of handle %d" % h, True)
            return

        def real():
            r[k] = x
        self.element(i, [idx[k]], [lambda _: float(x)], real,
                     "writing element %d of handle %d" % (k, h), True)

    # reading ------------------------------------------------------------------

    turn = 0

    def look(self, h, how):
        """An array of what a handle shows, looked at in some way."""
        if how == "index":
            return np.array([float(h[k]) for k in range(len(h))])
        if how == "neg":
            n = len(h)
            return np.array([float(h[k - n]) for k in range(n)])
        if how == "iter":
            return np.array([float(x) for x in h])
        if how == "slice":
            return np.array(h[:])
        if how == "add":
            return np.array(h + 0.0)
        if how == "radd":
            return np.array(0.0 + h)
        if how == "mul":
            return np.array(1 * h)
        if how == "ufunc":
            return np.negative(np.negative(h))
        if how == "self":
            return np.array((h + h) / 2.0)
        if how == "where":
            a = np.array(h)
            require(bool(np.all(h == a)) and not bool(np.any(h != a)), "comparison with itself")
            return a
        if how == "asarray":
            return np.asarray(h, dtype=float).copy()
        if how == "fancy":
            return np.array(h[list(range(len(h)))])
        if how == "out":
            res = np.zeros(len(h))
            np.add(h, 0.0, out=res)
            return res
        if how == "sum":
            a = np.array(h)
            require(float(np.sum(h)) == float(np.sum(a)), "np.sum")
            require(len(a) == 0 or (float(np.max(h)) == float(np.max(a))
                                    and float(np.mean(h)) == float(np.mean(a))), "np.max/mean")
            return a
        if how == "operator":
            self.turn += 1
            op = OPERATORS[self.turn % len(OPERATORS)]
            with np.errstate(all="ignore"):
                kind = self.turn // len(OPERATORS) % 3
                x = 2.5 if kind == 0 else np.arange(len(h)) - 1.5 if kind == 1 else h
                got = np.asarray(op(h, x))
                a = np.array(h)
                want = op(a, a if kind == 2 else x)
            require(got.dtype == want.dtype and np.array_equal(got, want, equal_nan=True)
                    if want.dtype.kind == "f" else np.array_equal(got, want),
                    "operator %d gives %s, for a plain array %s", self.turn % len(OPERATORS),
                    got, want)
            return a
        if how == "kind":
            n, size, kind = len(h), h.nbytes, h.dtype
            a = np.array(h)
            require(n == len(a) and kind == a.dtype and size == a.nbytes,
                    "length %s, dtype %s, %s bytes, of %r", n, kind, size, a)
            return a
        if how == "repr":
            text = repr(h)
            a = np.array(h)
            require(text == "timeseries(%r)" % a, "text is %s, data is %r", text, a)
            return a
        return np.array(h)

    def op_read(self, v, how="array"):
        """Read a view."""
        i = self.pick(v)
        if i is None:
            return
        m, r = self.model[i], self.real[i]
        what = "view %d (%s of %s in %s)" % (i, m.kind, m.param.name, m.unit)
        if m.kind in ("scalar", "generic"):
            ok, want, got = self.attempt("reading " + what, m.show, lambda: r.value)
            if ok and m.kind == "scalar":
                self.compare(what, got, *want)
            elif ok:
                require(got is want[0], "%s is %r, not %r", what, got, want[0])
            return
        ok, want, got = self.attempt("reading " + what, m.show,
                                     lambda: self.look(r.values, how))
        if ok:
            self.compare(what, got, *want)
            self._dims(r.values, m.length)

    def _dims(self, h, n):
        require(len(h) == n and h.shape == (n,) and h.ndim == 1, "length of the data is %d, "
                "shape %s, not %d", len(h), h.shape, n)

    def op_hread(self, h, how="array"):
        """Look at a handle."""
        if not self.rhandles:
            return
        h %= len(self.rhandles)
        i, idx = self.mhandles[h]
        m, r = self.model[i], self.rhandles[h]
        ok, want, got = self.attempt("looking at handle %d" % h, m.show,
                                     lambda: self.look(r, how))
        if ok:
            vals, scale = want
            self.compare("handle %d of view %d" % (h, i), got, [vals[k] for k in idx], scale)
            self._dims(r, len(idx))

    def op_lock(self, v):
        """Lock a view."""
        i = self.pick(v, ("point", "average"))
        if i is None or self.model[i].aggregate:
            return
        self.model[i].locked = True
        self.real[i].lock()

    def op_unlock(self, v):
        """Unlock a view."""
        locked = [i for i, m in enumerate(self.model) if m.locked]
        if not locked:
            i = self.pick(v, ("point", "average"))
            if i is None:
                return
        else:
            i = locked[v % len(locked)]
        m = self.model[i]

        def model():
            if m.pending:
                m.publish(m.own, m.own_scale)
            m.pending = m.locked = False

        self.attempt("unlocking view %d" % i, model, self.real[i].unlock)

    def op_info(self, s, name, region, how="text"):
        """Information on a parameter."""
        s %= len(self.real_sets)
        region = self.fix(region)
        p = self.find(s, name, region)
        info = self.real_sets[s].info(split(name, how), split(region, how))
        if p is None:
            require(info is None, "info of unknown parameter %s in %s is %s", name, region, info)
            return
        require(info is not None, "no info of %s in %s", name, region)
        self.check_info(info, p, p.unit, "%s in %s" % (name, region))

    def check_info(self, info, p, unit, what):
        full, q = [], p
        while q is not None:
            full.insert(0, q.name)
            q = q.parent
        require(info.name == tuple(full), "name of %s is %r", what, info.name)
        require(tuple(info.region) == p.region, "region of %s is %r", what, info.region)
        require(info.parameter_type == (TYPES[p.ptype] if p.ptype else None),
                "type of %s is %s, not %s", what, info.parameter_type, p.ptype)
        require(info.unit == unit, "unit of %s is %r, not %r", what, info.unit, unit)
        require(info.empty == (not p.written), "%s is%s empty", what,
                "" if info.empty else " not")
        seen = getattr(p, "seen", None)
        if seen is not None:
            if p.writes > seen[0]:
                require(info.version > seen[1], "version of %s stays %r", what, info.version)
            else:
                require(info.version == seen[1], "version of %s becomes %r without a write",
                        what, info.version)
        p.seen = (p.writes, info.version)
        try:
            info.ensure()
            error = None
        except Exception as e:  # pylint: disable=broad-except
            error = type(e).__name__
        require(error == (None if p.written else "ParameterEmptyError"),
                "ensure() of %s raises %s", what, error)

    def finish(self, how=0):
        """Look at everything, the held arrays first."""
        for h in range(len(self.rhandles)):
            self.op_hread(h, LOOKS[(how + h) % len(LOOKS)])
        for i, m in enumerate(self.model):
            self.op_readall(i)
            unit = m.unit if m.kind != "generic" else None
            self.check_info(self.real[i], m.param, unit, "view %d" % i)
            if m.kind in ("point", "average"):
                require(self.real[i].length == m.length, "length of view %d", i)
        for h in range(len(self.rhandles)):
            self.op_hread(h)
        for s, regs in enumerate(self.model_sets):
            for region, roots in regs.items():
                for root in roots.values():
                    for p in [root] + root.below():
                        name, q = [], p
                        while q is not None:
                            name.insert(0, q.name)
                            q = q.parent
                        self.op_info(s, name, self.fix(list(region)), "tuple")

    def op_readall(self, i):
        """Read view ``i``."""
        m, r = self.model[i], self.real[i]
        what = "view %d (%s of %s in %s) at the end" % (i, m.kind, m.param.name, m.unit)
        ok, want, got = self.attempt(
            "reading " + what, m.show,
            lambda: r.value if m.kind in ("scalar", "generic") else np.array(r.values))
        if ok:
            if m.kind == "generic":
                require(got is want[0], "%s is %r, not %r", what, got, want[0])
            else:
                self.compare(what, got, *want)


def run(case, rec, need):
    """Run a history and look at everything in the end."""
    m = Machine(case.get("grids") or [[0, 1, 2, 3]], rec, root=case.get("root", ROOT))
    m.turn = 7 * len(case["ops"]) + 3 * case.get("look", 0)
    for op in case["ops"]:
        m.step(op)
    m.finish(case.get("look", 0))
    rec.nontrivial(need(m, case))
    for lab in sorted(m.labels):
        rec.label(lab)
    return m
