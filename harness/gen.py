"""Generation of arguments for the formula functions.

A domain is a function of a random source.  Interesting values (limits of
validity, break points of the codes, default values) are drawn often, together
with their direct neighbours.
"""
import math


class Dom:
    def __init__(self, lo, hi, pts=(), log=False, p=0.45, integer=False, extra=()):
        self.lo, self.hi, self.pts, self.log, self.p = lo, hi, list(pts), log, p
        self.integer, self.extra = integer, list(extra)

    def __call__(self, r):
        if self.extra and r.random() < 0.06:
            return r.choice(self.extra)
        if self.pts and r.random() < self.p:
            v = r.choice(self.pts)
            u = r.random()
            if u < 0.55 or self.integer:
                return v
            d = max(abs(v), abs(self.hi) * 1e-3) * 10 ** r.uniform(-7, -3)
            up = r.random() < 0.5 or (v == 0 and self.lo >= 0)
            return v + d if up else v - d
        if self.integer:
            return r.randint(self.lo, self.hi)
        if self.log:
            v = math.exp(r.uniform(math.log(self.lo), math.log(self.hi)))
        else:
            v = r.uniform(self.lo, self.hi)
        u = r.random()
        if u < 0.35:
            return v
        return float(f'{v:.3g}') if u < 0.8 else float(f'{v:.2g}')


class Choice:
    def __init__(self, *v):
        self.v = v

    def __call__(self, r):
        return r.choice(self.v)


class Opt:
    """An optional argument: often omitted, so that defaults are judged."""

    def __init__(self, dom, p=0.5, none=False):
        self.dom, self.p, self.none = dom, p, none

    def __call__(self, r):
        return self.dom(r)


class Arr:
    """A scalar or an array of the same domain."""

    def __init__(self, dom, p=0.4):
        self.dom, self.p = dom, p


def draw(spec, r):
    """Draw keyword arguments; returns (kwargs, vec)."""
    kw, vec = {}, False
    arrs = [k for k, d in spec.items() if isinstance(d, Arr)]
    if arrs and r.random() < spec[arrs[0]].p:
        vec = True
        n = r.choice([1, 2, 3, 5])
    for k, d in spec.items():
        if isinstance(d, Arr):
            kw[k] = [d.dom(r) for _ in range(n)] if vec else d.dom(r)
        elif isinstance(d, Opt):
            if r.random() < d.p:
                kw[k] = d(r)
        elif callable(d):
            kw[k] = d(r)
        else:
            kw[k] = d
    return kw, vec
