"""Generators of cross-section cases.

A case is plain JSON.  `shape()` draws a description of one polygon (with or
without holes), `place()` a similarity placement, and `composite()` a set of
regions with materials.  The build_* functions turn descriptions into shapely
polygons *without* the code under test, so that oracles can use them too.
"""

from __future__ import annotations

import math

import numpy as np
import shapely
import shapely.affinity as aff
from hypothesis import strategies as st
from shapely import Polygon

ints = st.integers


# --------------------------------------------------------------------- shapes
@st.composite
def star(draw, nmin=3, nmax=10):
    n = draw(ints(nmin, nmax))
    jm = 18 if n == 3 else 30
    return {"k": "star", "r": [draw(ints(25, 100)) for _ in range(n)],
            "j": [draw(ints(-jm, jm)) for _ in range(n)]}


@st.composite
def columns(draw):
    """Adjacent vertical bars that overlap pairwise: rectilinear, often non-convex."""
    n = draw(ints(1, 5))
    out = []
    lo, hi = 0, draw(ints(20, 90))
    for _ in range(n):
        out.append([draw(ints(8, 40)), lo, hi])
        # next bar shares at least 8 units of height with this one
        nlo = draw(ints(lo - 50, hi - 8))
        nhi = draw(ints(max(nlo + 8, lo + 8), max(nlo + 8, lo + 8) + 80))
        lo, hi = nlo, nhi
    return {"k": "cols", "c": out}


@st.composite
def plates(draw):
    """Thin-walled open and closed profiles."""
    kind = draw(st.sampled_from(["I", "C", "T", "L", "box", "Z", "cross"]))
    return {"k": "plates", "f": kind, "d": draw(ints(40, 120)), "b": draw(ints(30, 100)),
            "b2": draw(ints(30, 100)), "tf": draw(ints(3, 12)), "tw": draw(ints(3, 12)),
            "tf2": draw(ints(3, 12))}


@st.composite
def regular(draw):
    return {"k": "reg", "n": draw(ints(3, 16)), "rx": draw(ints(20, 100)),
            "ry": draw(ints(20, 100))}


@st.composite
def holed(draw):
    """A rectangle or star with one to six holes, convex or winding."""
    if draw(st.booleans()):
        nx = draw(st.sampled_from([1, 1, 2, 2, 3, 6]))
        ny = 1 if nx > 2 else draw(ints(1, 2))
        holes = []
        for _ in range(nx * ny):
            # hole inside its grid cell, cell units 0..100
            if draw(ints(0, 3)) == 0:
                # angle, channel or zed: its centroid may lie outside of it
                holes.append({"p": {"k": "plates", "f": draw(st.sampled_from("LCZ")), "d": draw(ints(30, 70)),
                                    "b": draw(ints(25, 40)), "b2": draw(ints(25, 40)), "tf": draw(ints(5, 12)),
                                    "tw": draw(ints(5, 12)), "tf2": draw(ints(5, 12))}, "on": draw(st.booleans())})
                continue
            n = draw(ints(3, 6))
            holes.append({"r": [draw(ints(15, 38)) for _ in range(n)],
                          "j": [draw(ints(-18, 18)) for _ in range(n)],
                          "on": draw(st.booleans())})
        holes[0]["on"] = True
        return {"k": "grid", "nx": nx, "ny": ny, "w": draw(ints(30, 60)),
                "h": draw(ints(30, 60)), "holes": holes}
    return {"k": "ring", "o": draw(star(4, 9)), "f": draw(ints(30, 75))}


def shape(holes=True, thin=True):
    opts = [star(), columns(), regular()]
    if thin:
        opts.append(plates())
    if holes:
        opts.append(holed())
    return st.one_of(*opts)


def _star_pts(r, j, cx=0.0, cy=0.0, f=1.0):
    n = len(r)
    pts = []
    for i in range(n):
        a = 2 * math.pi * (i + j[i] / 100.0) / n
        pts.append((cx + f * r[i] * math.cos(a), cy + f * r[i] * math.sin(a)))
    return pts


def _cols_poly(c):
    x = 0.0
    top, bot = [], []
    for w, lo, hi in c:
        bot += [(x, lo), (x + w, lo)]
        top += [(x, hi), (x + w, hi)]
        x += w
    pts = bot + top[::-1]
    out = []
    for p in pts:
        if not out or out[-1] != p:
            out.append(p)
    # drop collinear duplicates where neighbouring bars share an edge level
    res = []
    n = len(out)
    for i in range(n):
        a, b, d = out[i - 1], out[i], out[(i + 1) % n]
        if abs((b[0] - a[0]) * (d[1] - b[1]) - (b[1] - a[1]) * (d[0] - b[0])) > 1e-12:
            res.append(b)
    return Polygon(res)


def _plates_poly(s):
    d, b, b2, tf, tw, tf2 = (float(s[k]) for k in ("d", "b", "b2", "tf", "tw", "tf2"))
    f = s["f"]
    if f == "I":
        x1, x2 = -tw / 2, tw / 2
        pts = [(-b / 2, 0), (b / 2, 0), (b / 2, tf), (x2, tf), (x2, d - tf2), (b2 / 2, d - tf2),
               (b2 / 2, d), (-b2 / 2, d), (-b2 / 2, d - tf2), (x1, d - tf2), (x1, tf), (-b / 2, tf)]
    elif f == "C":
        pts = [(0, 0), (b, 0), (b, tf), (tw, tf), (tw, d - tf2), (b2, d - tf2), (b2, d), (0, d)]
    elif f == "T":
        pts = [(-tw / 2, 0), (tw / 2, 0), (tw / 2, d - tf), (b / 2, d - tf), (b / 2, d),
               (-b / 2, d), (-b / 2, d - tf), (-tw / 2, d - tf)]
    elif f == "L":
        pts = [(0, 0), (b, 0), (b, tf), (tw, tf), (tw, d), (0, d)]
    elif f == "box":
        return Polygon([(0, 0), (b, 0), (b, d), (0, d)],
                       [[(tw, tf), (b - tw, tf), (b - tw, d - tf2), (tw, d - tf2)]])
    elif f == "Z":
        pts = [(0, 0), (b, 0), (b, tf), (tw, tf), (tw, d), (tw - b2, d), (tw - b2, d - tf2), (0, d - tf2)]
    else:
        pts = [(-tw / 2, -d / 2), (tw / 2, -d / 2), (tw / 2, -tf / 2), (b / 2, -tf / 2), (b / 2, tf / 2),
               (tw / 2, tf / 2), (tw / 2, d / 2), (-tw / 2, d / 2), (-tw / 2, tf / 2), (-b2 / 2, tf / 2),
               (-b2 / 2, -tf / 2), (-tw / 2, -tf / 2)]
    return Polygon(pts)


def build_shape(s) -> Polygon:
    """The polygon of a shape description (about 100 units large)."""
    k = s["k"]
    if k == "star":
        return Polygon(_star_pts(s["r"], s["j"]))
    if k == "cols":
        return _cols_poly(s["c"])
    if k == "plates":
        return _plates_poly(s)
    if k == "reg":
        n = s["n"]
        return Polygon([(s["rx"] * math.cos(2 * math.pi * i / n), s["ry"] * math.sin(2 * math.pi * i / n))
                        for i in range(n)])
    if k == "grid":
        w, h = float(s["w"]), float(s["h"])
        holes = []
        for i, ho in enumerate(s["holes"]):
            if ho["on"]:
                cx, cy = (i % s["nx"] + 0.5) * w, (i // s["nx"] + 0.5) * h
                if "p" in ho:
                    q = _plates_poly(ho["p"])
                    x0, y0, x1, y1 = q.bounds
                    pts = [(x - (x0 + x1) / 2, y - (y0 + y1) / 2) for x, y in q.exterior.coords[:-1]]
                else:
                    pts = _star_pts(ho["r"], ho["j"])
                holes.append([(cx + x * w / 100, cy + y * h / 100) for x, y in pts])
        W, H = s["nx"] * w, s["ny"] * h
        return Polygon([(0, 0), (W, 0), (W, H), (0, H)], holes)
    if k == "ring":
        o = s["o"]
        f = s["f"] / 100.0
        return Polygon(_star_pts(o["r"], o["j"]), [_star_pts(o["r"], o["j"], f=f)])
    raise AssertionError(k)


# ----------------------------------------------------------------- placement
SCALES = [1.0, 10.0, 0.1, 1e-3, 100.0]


@st.composite
def place(draw, rot=True, shift=True, scales=None):
    """Uniform scale, rotation in degrees and translation (in units of the scaled size)."""
    return {
        "s": draw(st.sampled_from(scales or SCALES)),
        "rot": draw(st.one_of(st.sampled_from([0, 90, 180, 45]), ints(-180, 180), ints(-180, 180), st.sampled_from([0.004, 0.02, -0.05, 90.03, 179.98]))) if rot else 0,
        "dx": draw(st.one_of(st.just(0), ints(-300, 300), ints(-5000, 5000))) if shift else 0,
        "dy": draw(st.one_of(st.just(0), ints(-300, 300), ints(-5000, 5000))) if shift else 0,
    }


def apply_place(poly, p):
    g = poly
    if p["rot"]:
        g = aff.rotate(g, p["rot"], origin=(0, 0))
    g = aff.scale(g, p["s"], p["s"], origin=(0, 0))
    if p["dx"] or p["dy"]:
        g = aff.translate(g, p["dx"] * p["s"], p["dy"] * p["s"])
    return g


def build_poly(shape_, place_=None) -> Polygon:
    g = build_shape(shape_)
    return apply_place(g, place_) if place_ else g


def mesh_size(area: float, n: int) -> float:
    """Maximum element area for roughly n elements; n = 0 asks for the coarsest mesh."""
    return 0.0 if n == 0 else area / n


# ------------------------------------------------------------------ materials
@st.composite
def material(draw, names="ABCD"):
    return {"E": draw(st.one_of(st.sampled_from([1, 3, 10, 200, 2e5, 0.5, 30000]), ints(1, 999).map(lambda i: i * 217.3))),
            "nu": draw(st.sampled_from([0.0, 0.2, 0.3, 0.45, 0.49, 0.17, -0.3, -0.6])),
            "fy": draw(st.one_of(st.sampled_from([1, 5, 32, 250, 500]), st.sampled_from([0.002, 0.06, 1700.0]))),
            "rho": draw(st.sampled_from([1.0, 2.4e-6, 7.85e-6, 0.5, 0.0, 7850.0]))}


def build_material(m, name="mat"):
    from sectionproperties.pre import Material

    return Material(name=name, elastic_modulus=float(m["E"]), poissons_ratio=float(m["nu"]),
                    yield_strength=float(m["fy"]), density=float(m["rho"]), color="grey")


# ----------------------------------------------------------------- composites
@st.composite
def composite(draw, max_mats=3, same=False, connected=True, nu_equal=False):
    """Regions that tile a section, each with a material index."""
    nm = draw(ints(1 if same else 2, max_mats))
    mats = [draw(material()) for _ in range(nm)]
    if nu_equal:
        for m in mats:
            m["nu"] = mats[0]["nu"]
    kinds = ["strips", "strips", "bars", "stack", "nest"]
    kind = draw(st.sampled_from(kinds if connected else [*kinds, "island"]))
    if kind == "strips":
        base = draw(shape(thin=False))
        cuts = draw(st.lists(ints(15, 85), min_size=1, max_size=3, unique=True))
        c = {"k": "strips", "base": base, "cuts": sorted(cuts), "ax": draw(st.sampled_from(["x", "y"]))}
        npart = 24
    elif kind == "bars":
        nx, ny = draw(ints(1, 3)), draw(ints(1, 2))
        c = {"k": "bars", "nx": nx, "ny": ny, "w": draw(ints(30, 60)), "h": draw(ints(30, 60)),
             "n": draw(ints(3, 8)), "r": draw(ints(12, 40)),
             "void": draw(st.lists(st.booleans(), min_size=nx * ny, max_size=nx * ny))}
        npart = 1 + nx * ny
    elif kind == "stack":
        n = draw(ints(2, 4))
        c = {"k": "stack", "p": [[draw(ints(20, 100)), draw(ints(5, 60)), draw(ints(-20, 20))]
                                 for _ in range(n)]}
        npart = n
    elif kind == "island":
        f = sorted(draw(st.lists(ints(12, 85), min_size=2, max_size=4, unique=True)), reverse=True)
        f = [v for i, v in enumerate(f) if i == 0 or f[i - 1] - v >= 4]
        c = {"k": "island", "o": draw(star(4, 8)), "f": f, "rev": draw(st.booleans()),
             "side": draw(st.integers(0, 2))}
        npart = 5
    else:
        c = {"k": "nest", "o": draw(star(4, 8)), "f": sorted(draw(
            st.lists(ints(25, 85), min_size=1, max_size=2, unique=True)), reverse=True),
            "void": draw(st.booleans())}
        npart = 3
    c["m"] = [draw(ints(0, nm - 1)) for _ in range(npart)]
    return {"parts": c, "mats": mats}


@st.composite
def mosaic(draw, min_mats=1, max_mats=12):
    """Many connected regions of many materials: the filled cells of a grid."""
    nm = draw(ints(min_mats, max_mats))
    nx, ny = draw(ints(2, 6)), draw(ints(2, 6))
    c = {"k": "grid", "w": [draw(ints(5, 40)) for _ in range(nx)], "h": [draw(ints(5, 40)) for _ in range(ny)],
         "void": [draw(ints(0, 4)) == 0 for _ in range(nx * ny)], "order": draw(ints(0, 10**6))}
    c["m"] = [draw(ints(0, nm - 1)) for _ in range(nx * ny)]
    return {"parts": c, "mats": [draw(material()) for _ in range(nm)]}


def filled_cells(c):
    """The largest connected group of filled cells, in a shuffled order."""
    nx, ny = len(c["w"]), len(c["h"])
    left = {(i, j) for i in range(nx) for j in range(ny) if not c["void"][i * ny + j]}
    best = []
    while left:
        todo, seen = [min(left)], []
        left.discard(todo[0])
        while todo:
            i, j = todo.pop()
            seen.append((i, j))
            for q in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                if q in left:
                    left.discard(q)
                    todo.append(q)
        best = max(best, seen, key=len)
    best = sorted(best or [(0, 0)])
    np.random.default_rng(c["order"]).shuffle(best)
    return [tuple(int(v) for v in q) for q in best]


def build_parts(comp) -> list[tuple[Polygon, int]]:
    """[(polygon, material index)] tiling the section, in the unplaced frame."""
    c = comp["parts"]
    m = c["m"]
    out = []
    if c["k"] == "strips":
        poly = build_shape(c["base"])
        x0, y0, x1, y1 = poly.bounds
        horiz = c["ax"] == "y"
        lo, hi = (y0, y1) if horiz else (x0, x1)
        vs = shapely.get_coordinates(poly)[:, int(horiz)]

        def level(v):  # a cut within rounding of an edge would leave a slit
            k = vs[np.argmin(abs(vs - v))]
            return float(k) if abs(k - v) < 1e-6 * (hi - lo) else v

        lim = [lo - 1] + [level(lo + (hi - lo) * q / 100.0) for q in c["cuts"]] + [hi + 1]
        # put the cut points into the polygon first, so neighbours share vertices exactly
        i = 0
        for a, b in zip(lim[:-1], lim[1:]):
            bx = shapely.box(x0 - 1, a, x1 + 1, b) if horiz else shapely.box(a, y0 - 1, b, y1 + 1)
            piece = poly.intersection(bx)
            geoms = getattr(piece, "geoms", [piece])
            for g in geoms:
                if isinstance(g, Polygon) and g.area > 0:
                    out.append((g, m[i % len(m)]))
                    i += 1
        return out
    if c["k"] == "bars":
        w, h = float(c["w"]), float(c["h"])
        W, H = w * c["nx"], h * c["ny"]
        holes, bars = [], []
        for i in range(c["nx"] * c["ny"]):
            cx, cy = (i % c["nx"] + 0.5) * w, (i // c["nx"] + 0.5) * h
            ring = [(cx + c["r"] / 100 * w * math.cos(2 * math.pi * k / c["n"]),
                     cy + c["r"] / 100 * h * math.sin(2 * math.pi * k / c["n"])) for k in range(c["n"])]
            holes.append(ring)
            if not (c["void"][i] and i > 0):
                bars.append((Polygon(ring), m[1 + i]))
        return [(Polygon([(0, 0), (W, 0), (W, H), (0, H)], holes), m[0]), *bars]
    if c["k"] == "grid":
        xs, ys = np.cumsum([0.0, *c["w"]]), np.cumsum([0.0, *c["h"]])
        return [(shapely.box(xs[i], ys[j], xs[i + 1], ys[j + 1]), m[i * len(c["h"]) + j]) for i, j in filled_cells(c)]
    if c["k"] == "stack":
        y, px0, px1 = 0.0, None, None
        for i, (b, d, off) in enumerate(c["p"]):
            x0 = -b / 2.0 + off
            if px0 is not None:
                # keep a common edge of at least a few units
                x0 = min(max(x0, px0 - b + 5), px1 - 5)
            out.append((shapely.box(x0, y, x0 + b, y + d), m[i]))
            px0, px1 = x0, x0 + b
            y += d
        return out
    if c["k"] == "nest":
        o = c["o"]
        rings = [_star_pts(o["r"], o["j"])] + [_star_pts(o["r"], o["j"], f=f / 100.0) for f in c["f"]]
        for i, ring in enumerate(rings):
            inner = [rings[i + 1]] if i + 1 < len(rings) else None
            if inner is None and c["void"] and i > 0:
                continue
            out.append((Polygon(ring, inner), m[i]))
        return out
    if c["k"] == "island":
        # disconnected: material and void alternate from the outside inwards
        o = c["o"]
        rings = [_star_pts(o["r"], o["j"])] + [_star_pts(o["r"], o["j"], f=f / 100.0) for f in c["f"]]
        for i in range(0, len(rings), 2):
            out.append((Polygon(rings[i], rings[i + 1:i + 2] or None), m[i // 2]))
        for k in range(c["side"]):
            out.append((shapely.box(150 + 40 * k, -10, 170 + 40 * k, 30), m[3 + k]))
        return out[::-1] if c["rev"] else out
    raise AssertionError(c["k"])

