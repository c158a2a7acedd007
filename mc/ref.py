"""Reference models and alphabets shared by the checks.

The models are written from the meaning of the operations (ordered maps, definitions of the
averages, ...) and share no code with the library.
"""
import itertools
import math
from bisect import bisect_left, bisect_right

PREV, LIN, NEXT = -1, 0, 1
MODES = [PREV, LIN, NEXT]


def interp(xs, ys, x, mode):
    """Value of the point curve (xs strictly ascending) at x."""
    n = len(xs)
    if n == 0 or x < xs[0] or x > xs[-1]:
        return None
    i = bisect_right(xs, x) - 1
    if xs[i] == x:
        return ys[i]
    if mode == PREV:
        return ys[i]
    if mode == NEXT:
        return ys[i + 1]
    if ys[i] is None or ys[i + 1] is None:
        return None
    u = (x - xs[i]) / (xs[i + 1] - xs[i])
    return (1 - u) * ys[i] + u * ys[i + 1]


def subsets(n, min_len, max_len):
    """All ascending index tuples out of range(n)."""
    for k in range(min_len, max_len + 1):
        yield from itertools.combinations(range(n), k)


def is_regular(xs):
    if len(xs) < 3:
        return True
    d = xs[1] - xs[0]
    return all(abs((b - a) - d) <= 1e-9 * abs(d) for a, b in zip(xs, xs[1:]))


def probes(xs, dense=False):
    """Query positions: every point, inside every gap, just outside and far outside."""
    out = []
    if not xs:
        return [-1, 0, 1]
    span = (xs[1] - xs[0]) if len(xs) > 1 else 1
    out += [xs[0] - span * 10, xs[0] - span * 0.25]
    for a, b in zip(xs, xs[1:]):
        out.append(a)
        for u in ((0.25, 0.5, 0.9) if dense else (0.25, 0.75)):
            out.append(a + (b - a) * u)
    out.append(xs[-1])
    out += [xs[-1] + span * 0.25, xs[-1] + span * 10]
    return out


def pattern(n, k):
    """Deterministic value pattern number k of length n (for long lists)."""
    return [((i * i * (k + 3) + i * (2 * k + 1) + k) % 11) - 4 for i in range(n)]


class RefPoints:
    """Ordered-map model of a point curve."""

    def __init__(self, points=(), mode=LIN, uniform=True):
        self.xs = [p[0] for p in points]
        self.ys = [p[1] for p in points]
        self.mode = mode
        self.uniform = uniform

    def copy(self):
        r = RefPoints((), self.mode, self.uniform)
        r.xs = list(self.xs)
        r.ys = list(self.ys)
        return r

    @property
    def points(self):
        return list(zip(self.xs, self.ys))

    def y(self, x):
        return interp(self.xs, self.ys, x, self.mode)

    def step(self):
        return self.xs[1] - self.xs[0] if len(self.xs) > 1 else None

    def key(self):
        return (tuple(self.xs), tuple(self.ys), self.mode, self.uniform)


class Iv:
    """Interval model: (start, end, start_open, end_open)."""

    def __init__(self, a, b, so=False, eo=False):
        self.a, self.b, self.so, self.eo = a, b, so, eo

    def has(self, x):
        if x < self.a or (x == self.a and self.so):
            return False
        if x > self.b or (x == self.b and self.eo):
            return False
        return True

    @property
    def empty(self):
        return self.a > self.b or (self.a == self.b and (self.so or self.eo))

    def meet(self, o):
        if self.a > o.a or (self.a == o.a and self.so):
            a, so = self.a, self.so
        else:
            a, so = o.a, o.so
        if self.b < o.b or (self.b == o.b and self.eo):
            b, eo = self.b, self.eo
        else:
            b, eo = o.b, o.eo
        return Iv(a, b, so, eo)
