"""Exact reference for timeseries conversion, on integer seconds, with fractions."""
from bisect import bisect_right
from fractions import Fraction as F


class Refused(Exception):
    """The conversion has to be refused."""


def piecewise(xs, ys, x, extrapolation, fill):
    """Value at ``x`` of the line through the points."""
    if x < xs[0] or x > xs[-1]:
        if extrapolation == "none":
            raise Refused
        if extrapolation == "constant":
            return fill[0] if x < xs[0] else fill[1]
    i = min(max(bisect_right(xs, x) - 1, 0), len(xs) - 2)
    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def convert_point(src, values, dst, extrapolation):
    """Point series on ``src`` to ``dst``."""
    xs = [F(t) for t in src]
    ys = [F(v) for v in values]
    return [piecewise(xs, ys, F(t), extrapolation, (ys[0], ys[-1])) for t in dst]


def nodes(edges, values):
    """Nodes of the mean-preserving piecewise linear representation."""
    e = [F(t) for t in edges]
    v = [F(x) for x in values]
    n = len(v)
    inner = [(v[i] + v[i + 1]) / 2 for i in range(n - 1)]
    at_edge = [2 * v[0] - inner[0]] + inner + [2 * v[-1] - inner[-1]]
    xs, ys = [], []
    for i in range(n):
        xs += [e[i], (e[i] + e[i + 1]) / 2]
        ys += [at_edge[i], (4 * v[i] - at_edge[i] - at_edge[i + 1]) / 2]
    return xs + [e[-1]], ys + [at_edge[-1]]


class Average:
    """Exact integrals of the representation of an average series."""

    def __init__(self, edges, values, extrapolation):
        self.xs, self.ys = nodes(edges, values)
        self.fill = (F(values[0]), F(values[-1]))
        self.extrapolation = extrapolation
        self.cum = [F(0)]
        for i in range(len(self.xs) - 1):
            self.cum.append(
                self.cum[-1]
                + (self.ys[i] + self.ys[i + 1]) / 2 * (self.xs[i + 1] - self.xs[i])
            )

    def primitive(self, x):
        """Integral from the first edge to ``x``."""
        xs, ys = self.xs, self.ys
        if x < xs[0] or x > xs[-1]:
            if self.extrapolation == "none":
                raise Refused
            end = 0 if x < xs[0] else -1
            base = self.cum[end]
            if self.extrapolation == "constant":
                return base + self.fill[end] * (x - xs[end])
            i = 0 if x < xs[0] else len(xs) - 2
            slope = (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])
            return base + ys[end] * (x - xs[end]) + slope * (x - xs[end]) ** 2 / 2
        i = min(bisect_right(xs, x) - 1, len(xs) - 2)
        d = x - xs[i]
        slope = (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])
        return self.cum[i] + ys[i] * d + slope * d * d / 2

    def means(self, edges):
        """Averages over the intervals."""
        p = [self.primitive(F(t)) for t in edges]
        return [(p[i + 1] - p[i]) / (edges[i + 1] - edges[i]) for i in range(len(edges) - 1)]


def convert_average(src, values, dst, extrapolation):
    """Average series on the edges ``src`` to the edges ``dst``."""
    return Average(src, values, extrapolation).means(dst)


def late(src, dst):
    """Whether the source starts after the second target point (or the only one)."""
    return src[0] > dst[:2][-1]


def convert(ptype, src, values, dst, extrapolation):
    """Either kind; raises Refused as documented."""
    if late(src, dst) or len(values) < 3:
        raise Refused
    return (convert_average if ptype == "average" else convert_point)(
        src, values, dst, extrapolation
    )


def magnitude(ptype, src, values, dst, extrapolation):
    """Scale of the numbers involved in a conversion, for tolerances."""
    m = max(abs(float(v)) for v in values)
    if extrapolation == "linear":
        xs, ys = (nodes(src, values) if ptype == "average"
                  else ([F(t) for t in src], [F(v) for v in values]))
        for i, x in ((0, dst[0]), (len(xs) - 2, dst[-1])):
            slope = abs(float((ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])))
            m = max(m, slope * abs(float(x - xs[i])))
    return m


def amplification(ptype, src, dst, extrapolation):
    """Bound on how much a conversion can enlarge an error in its data."""
    if extrapolation != "linear":
        return 4.0
    xs = src
    first, last = xs[1] - xs[0], xs[-1] - xs[-2]
    return 4.0 + 16.0 * max(max(0, xs[0] - dst[0]) / first, max(0, dst[-1] - xs[-1]) / last)
