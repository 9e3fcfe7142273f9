"""Exact yield-force distribution of polygons on the two sides of a line."""

from __future__ import annotations

import numpy as np
from shapely.geometry.polygon import orient


def clip_moment(u, v, d):
    """Signed area and int v of the part of a closed ring with v > d (Green's theorem)."""
    u1, v1 = np.roll(u, -1), np.roll(v, -1)
    a, b = v - d, v1 - d
    ina, inb = a > 0, b > 0
    den = np.where(a != b, a - b, 1.0)
    s = a / den
    uc = u + s * (u1 - u)
    # clipped segment of every edge; the closing segments lie on v = d
    x0 = np.where(ina, u, uc)
    y0 = np.where(ina, a, 0.0)
    x1 = np.where(inb, u1, uc)
    y1 = np.where(inb, b, 0.0)
    keep = ina | inb
    x0, y0, x1, y1 = x0[keep], y0[keep], x1[keep], y1[keep]
    # area = -int v du (counter-clockwise), segments on v = d contribute nothing
    area = (-(x1 - x0) * (y0 + y1) / 2).sum()
    # int (v - d) dA = -int (v - d)^2 / 2 du
    mom = (-(x1 - x0) * (y0 * y0 + y0 * y1 + y1 * y1) / 6).sum()
    return area, mom


class Yield:
    """Forces [(polygon, fy)] seen along the direction v = -x sin(phi) + y cos(phi) from (cx, cy)."""

    def __init__(self, parts, cx, cy, phi):
        c, s = np.cos(phi), np.sin(phi)
        self.rings = []
        self.force = self.first = 0.0
        lo, hi = np.inf, -np.inf
        for poly, fy in parts:
            p = orient(poly)
            for r in [p.exterior, *p.interiors]:
                q = np.asarray(r.coords)[:-1]
                x, y = q[:, 0] - cx, q[:, 1] - cy
                u, v = x * c + y * s, -x * s + y * c
                self.rings.append((u, v, fy))
                lo, hi = min(lo, v.min()), max(hi, v.max())
        self.lo, self.hi = lo, hi
        f, m = self.above(lo - 1.0)
        self.force, self.first = f, m + f * (lo - 1.0)

    def above(self, d):
        """Force above d and its moment about d."""
        f = m = 0.0
        for u, v, fy in self.rings:
            a, mm = clip_moment(u, v, d)
            f += fy * a
            m += fy * mm
        return f, m

    def imbalance(self, d):
        f, _ = self.above(d)
        return 2 * f - self.force

    def moment(self, d):
        """Total moment of the yield forces about d, both sides counted positive."""
        f, m = self.above(d)
        below = (self.force - f) * d - (self.first - (m + f * d))
        return m + below

    def axis(self):
        """A balancing position, by bisection."""
        a, b = self.lo, self.hi
        for _ in range(200):
            c = (a + b) / 2
            if self.imbalance(c) > 0:
                a = c
            else:
                b = c
        return (a + b) / 2
