"""Exact reference values for polygons (Green's theorem), independent of any mesh."""

from __future__ import annotations

import math

import numpy as np
import shapely
from shapely import Polygon
from shapely.geometry.polygon import orient


def ring_moments(coords) -> np.ndarray:
    """[A, Sx=int y, Sy=int x, Ixx=int y^2, Iyy=int x^2, Ixy=int xy] of a closed ring."""
    c = np.asarray(coords, dtype=float)
    if len(c) > 1 and np.all(c[0] == c[-1]):
        c = c[:-1]
    x0, y0 = c[:, 0], c[:, 1]
    x1, y1 = np.roll(x0, -1), np.roll(y0, -1)
    w = x0 * y1 - x1 * y0
    a = w.sum() / 2
    sy = ((x0 + x1) * w).sum() / 6
    sx = ((y0 + y1) * w).sum() / 6
    ixx = ((y0 * y0 + y0 * y1 + y1 * y1) * w).sum() / 12
    iyy = ((x0 * x0 + x0 * x1 + x1 * x1) * w).sum() / 12
    ixy = ((x0 * y1 + 2 * x0 * y0 + 2 * x1 * y1 + x1 * y0) * w).sum() / 24
    return np.array([a, sx, sy, ixx, iyy, ixy])


def poly_moments(poly: Polygon, origin=(0.0, 0.0)) -> np.ndarray:
    """Moments of a polygon with holes about `origin`."""
    p = orient(poly)
    o = np.array(origin, dtype=float)
    m = ring_moments(np.asarray(p.exterior.coords) - o)
    for r in p.interiors:
        m = m + ring_moments(np.asarray(r.coords) - o)
    return m


def shift_moments(m: np.ndarray, dx: float, dy: float) -> np.ndarray:
    """Moments about the origin moved by (-dx, -dy): coordinates become x + dx, y + dy."""
    a, sx, sy, ixx, iyy, ixy = m
    return np.array([
        a, sx + a * dy, sy + a * dx, ixx + 2 * dy * sx + a * dy * dy,
        iyy + 2 * dx * sy + a * dx * dx, ixy + dx * sx + dy * sy + a * dx * dy,
    ])


class Ref:
    """Modulus-weighted area properties of [(polygon, E, nu, rho)]."""

    def __init__(self, parts):
        o = np.array(parts[0][0].centroid.coords[0])
        self.o = o
        tot = np.zeros(6)
        self.area = self.mass = self.ga = 0.0
        for poly, e, nu, rho in parts:
            m = poly_moments(poly, o)
            tot += e * m
            self.area += m[0]
            self.mass += rho * m[0]
            self.ga += e / (2 * (1 + nu)) * m[0]
        self.ea = tot[0]
        # centroid, in the local frame first (no cancellation)
        cx, cy = tot[2] / tot[0], tot[1] / tot[0]
        self.cx, self.cy = cx + o[0], cy + o[1]
        c = shift_moments(tot, -cx, -cy)
        self.ixx_c, self.iyy_c, self.ixy_c = c[3], c[4], c[5]
        g = shift_moments(tot, o[0], o[1])
        self.qx, self.qy = g[1], g[2]
        self.ixx_g, self.iyy_g, self.ixy_g = g[3], g[4], g[5]
        xs, ys = [], []
        for poly, *_ in parts:
            for r in [poly.exterior, *poly.interiors]:
                a = np.asarray(r.coords)
                xs.append(a[:, 0])
                ys.append(a[:, 1])
        self.x, self.y = np.concatenate(xs), np.concatenate(ys)
        self.xmin, self.xmax = self.x.min(), self.x.max()
        self.ymin, self.ymax = self.y.min(), self.y.max()
        self.size = max(self.xmax - self.xmin, self.ymax - self.ymin)
        self.far = max(abs(self.x).max(), abs(self.y).max(), self.size)
        # principal moments
        d = math.hypot((self.ixx_c - self.iyy_c) / 2, self.ixy_c)
        s = (self.ixx_c + self.iyy_c) / 2
        self.i11, self.i22 = s + d, s - d
        self.delta = d / s  # 0 for a section without distinct principal axes

    def principal_extents(self, phi_deg: float):
        """(x11 min, max, y22 min, max) of the section about its centroid."""
        p = math.radians(phi_deg)
        x, y = self.x - self.cx, self.y - self.cy
        u = x * math.cos(p) + y * math.sin(p)
        v = -x * math.sin(p) + y * math.cos(p)
        return u.min(), u.max(), v.min(), v.max()


def noded(polys, tol):
    """The polygons with vertices closer than tol made equal, and every edge split at the
    vertices of other polygons that lie on it, so that shared edges are shared exactly."""
    pts = []

    def snap(p):
        for q in pts:
            if abs(q[0] - p[0]) <= tol and abs(q[1] - p[1]) <= tol:
                return q
        pts.append((float(p[0]), float(p[1])))
        return pts[-1]

    rings = [[[snap(p) for p in r.coords[:-1]] for r in (q.exterior, *q.interiors)] for q in polys]
    out = []
    for rs in rings:
        new = []
        for r in rs:
            c = []
            for i, a in enumerate(r):
                b = r[(i + 1) % len(r)]
                if a == b:
                    continue
                c.append(a)
                dx, dy = b[0] - a[0], b[1] - a[1]
                ln = math.hypot(dx, dy)
                on = []
                for q in pts:
                    t = ((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / ln
                    if q not in (a, b) and tol < t < ln - tol and abs((q[0] - a[0]) * dy - (q[1] - a[1]) * dx) / ln <= tol:
                        on.append((t, q))
                c += [q for _, q in sorted(on)]
            new.append(c)
        out.append(Polygon(new[0], new[1:]))
    return out


def union(polys):
    """Union of polygons that do not overlap. GEOS may lose a polygon whose edge is
    shared but for rounding; the areas tell, and a grid avoids it."""
    polys = list(polys)
    total = sum(q.area for q in polys)
    u = shapely.union_all(polys)
    if abs(u.area - total) > 1e-9 * total:
        b = u.bounds if not u.is_empty else polys[0].bounds
        size = max(max(abs(x) for q in polys for x in q.bounds), b[2] - b[0])
        v = shapely.union_all(polys, grid_size=1e-12 * size)
        if abs(v.area - total) < abs(u.area - total):
            u = v
    return u
