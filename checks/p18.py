"""P18: splitting, offsetting and moving points reshape the section as requested.

Oracles: for splits, half-plane membership of sample points and exact areas of the
half-plane intersections; for offsets, the distance of sample points from the outline;
for moved points, the outline rebuilt from the moved vertex list.
"""

from __future__ import annotations

import math

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import Polygon

from vkit import gen, sut
from vkit.core import Family, Info, Violation, ensure, kept

ASSUMPTIONS = [
    "compound offsets: erosion of a connected compound from outside, and small dilation of regions standing side by side",
    "rounded offset corners are judged outside the chord error of the requested resolution (plus 3 % of the distance)",
    "points closer than 1e-6 of the size to the cutting line or to an outline are not judged",
    "directions within 1e-9 of the vertical are only used when exactly vertical",
    "a moved point that makes the outline invalid is outside the claim",
]
ints = st.integers
fl = lambda a, b: st.integers(a * 1000, b * 1000).map(lambda v: v / 1000.0)


def default():
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    return DEFAULT_MATERIAL


def inside_mask(poly, P):
    shapely.prepare(poly)
    return shapely.contains_properly(poly, P)


def lattice(lo, hi, n=19):
    gx, gy = np.meshgrid((np.arange(n) + 0.317) / n, (np.arange(n) + 0.621) / n)
    return np.c_[gx.ravel(), gy.ravel()] * (hi - lo) + lo


def control_ok(q, where, size):
    ensure(len(q.control_points) == 1 and q.geom.buffer(1e-9 * size).contains(shapely.Point(q.control_points[0])),
           f"{where}: control point {q.control_points} is outside its region")


# ------------------------------------------------------------------------- split
line = st.fixed_dictionaries({
    "kind": st.sampled_from(["vertical", "horizontal", "slope", "slope", "slope", "steep", "edge", "vertices"]),
    "p": st.tuples(fl(0, 1), fl(0, 1)).map(list), "a": st.integers(-179, 180), "i": ints(0, 50), "j": ints(1, 50),
    "by": st.sampled_from(["point", "tuple", "array", "both"]), "len": st.sampled_from([1.0, 0.01, 30.0]),
    "miss": st.integers(0, 9).map(lambda v: v == 7)})


@st.composite
def split_case(draw):
    comp = draw(st.booleans())
    c = draw(sut.comp_case(connected=draw(st.booleans()), same=True)) if comp else draw(sut.single())
    c.pop("mesh")
    c["line"] = draw(line)
    c["mat"] = draw(st.one_of(st.none(), gen.material()))
    return c


def build(case):
    p, _ = sut.api()
    if "comp" in case:
        parts = sut.parts_of(case)
        ms = sut.materials_of(case)
        return p.CompoundGeometry([p.Geometry(g, material=ms[i]) for g, i in parts]), [(g, ms[i]) for g, i in parts]
    g = gen.build_poly(case["shape"], case["place"])
    m = default() if case.get("mat") is None else gen.build_material(case["mat"])
    return p.Geometry(g, material=m), [(g, m)]


def check_split(case):
    g, parts = build(case)
    b = np.array([q.bounds for q, _ in parts])
    lo, hi = b[:, :2].min(axis=0), b[:, 2:].max(axis=0)
    size = float(max(hi - lo))
    ln = case["line"]
    v = [np.array(r.coords)[:-1] for q, _ in parts for r in (q.exterior, *q.interiors)]
    pi = lo + np.array(ln["p"]) * (hi - lo)
    if ln["miss"]:
        pi = lo + (np.array(ln["p"]) * 2 - 3.5) * (hi - lo)
    k = ln["kind"]
    if k == "vertical":
        d = np.array([0.0, 1.0 if ln["a"] > 0 else -1.0])
    elif k == "horizontal":
        d = np.array([1.0 if ln["a"] > 0 else -1.0, 0.0])
    elif k == "slope":
        d = np.array([math.cos(math.radians(ln["a"])), math.sin(math.radians(ln["a"]))])
    elif k == "steep":
        d = np.array([(1e-3 if ln["a"] > 0 else -1e-3) * (1 + ln["i"]), 1.0])
    elif k == "edge":
        r = v[ln["i"] % len(v)]
        pi, pj = r[ln["j"] % len(r)], r[(ln["j"] + 1) % len(r)]
        d = pj - pi
    else:
        r = np.vstack(v)
        pi, pj = r[ln["i"] % len(r)], r[(ln["i"] + ln["j"]) % len(r)]
        d = pj - pi
    if k not in ("edge", "vertices"):
        d = d * size * ln["len"]
    if np.hypot(*d) < 1e-6 * size:
        return Info(discard=True)
    by = ln["by"]
    ti = (float(pi[0]), float(pi[1]))
    tj = (float(pi[0] + d[0]), float(pi[1] + d[1]))
    if by in ("point", "both"):
        d = np.array(tj) - np.array(ti)
    if 0 < abs(d[0]) < 1e-9 * abs(d[1]) or 0 < abs(d[0]) <= 2e-12:
        return Info(discard=True)
    where = f"split {ln}"
    if by == "point":
        top, bot = g.split_section(point_i=ti, point_j=tj)
    elif by == "both":
        top, bot = g.split_section(ti, tj, (1.0, 0.123))
    else:
        vec = (float(d[0]), float(d[1])) if by == "tuple" else np.array(d)
        top, bot = g.split_section(point_i=ti, vector=vec)
    # signed distance, positive on the top (or the right of a vertical line)
    n = np.array([1.0, 0.0]) if d[0] == 0 else np.array([-d[1], d[0]]) / np.hypot(*d) * (1.0 if d[0] > 0 else -1.0)
    o = np.array(ti)
    u = np.array([n[1], -n[0]])
    far = 4 * (size + np.abs(lo - o).max() + np.abs(hi - o).max())
    noise = 1e-9 * size + 1e-14 * far + (2e-12 if size < 1e3 else 0)
    pts = [lattice(lo, hi)]
    along = np.linspace(-1, 1, 41)[:, None] * u * size + (o + u * ((lo + hi) / 2 - o).dot(u))
    pts += [along + 2e-3 * size * n, along - 2e-3 * size * n]
    pts = np.vstack(pts)
    P = shapely.points(pts)
    s = (pts - o) @ n
    lines = shapely.union_all([q.boundary for q, _ in parts])
    keep = (np.abs(s) > 1e-6 * size) & (shapely.distance(P, lines) > 1e-6 * size)
    pts, P, s = pts[keep], P[keep], s[keep]
    cut = False
    for name, geoms, sign in (("top", top, 1.0), ("bottom", bot, -1.0)):
        h = np.array([o - u * far, o + u * far, o + u * far + sign * n * far, o - u * far + sign * n * far])
        half = Polygon(h)
        gm = [None] * len(P)
        cnt = np.zeros(len(P), int)
        for i, q in enumerate(geoms):
            ensure(isinstance(q.geom, Polygon) and not hasattr(q, "geoms"), f"{where}: {name} part {i} is not a single region")
            ext = np.array(q.geom.exterior.coords)
            sd = sign * ((ext - o) @ n)
            ensure(sd.min() >= -noise * 10, f"{where}: {name} part {i} reaches {-sd.min():.3g} to the wrong side of the line")
            w = inside_mask(q.geom if q.geom.is_valid else shapely.make_valid(q.geom), P)
            cnt += w
            for j in np.nonzero(w)[0]:
                gm[j] = q.material
            if q.geom.area > 1e-6 * size**2:
                control_ok(q, f"{where}: {name} part {i}", size)
        want = np.zeros(len(P), bool)
        for q, m in parts:
            w = inside_mask(q, P) & (sign * s > 0)
            want |= w
            for j in np.nonzero(w)[0]:
                ensure(cnt[j] == 1, f"{where}: point {pts[j].tolist()} of the section lies in {cnt[j]} of the {name} parts")
                ensure(gm[j] == m, f"{where}: point {pts[j].tolist()} has material {gm[j]} in the {name} part, expected {m}")
            cut |= bool(w.any() and (inside_mask(q, P) & (sign * s < 0)).any())
        bad = np.nonzero((cnt > 0) & ~want)[0]
        ensure(len(bad) == 0, f"{where}: {len(bad)} points outside the section or across the line lie in the {name} parts")
        area = sum(q.geom.area for q in geoms)
        exp = sum((q & half).area for q, _ in parts)
        ensure(abs(area - exp) <= 1e-9 * size**2 + 4 * noise * size, f"{where}: {name} area {area:.12g}, expected {exp:.12g}")
    return Info(nontrivial=cut, tags=(k, by, "compound" if "comp" in case else "single", f"{min(len(top) + len(bot), 8)} parts", "cut" if cut else "missed"))


# ------------------------------------------------------------------------ offset
@st.composite
def offset_case(draw):
    c = draw(sut.single())
    c.pop("mesh")
    c["mat"] = draw(st.one_of(st.none(), gen.material()))
    c["amount"] = draw(st.sampled_from([-1, 1])) * draw(st.sampled_from([0.5, 1, 2, 3, 5, 9, 20]))
    c["where"] = draw(st.sampled_from(["exterior", "interior", "all", None]))
    c["res"] = draw(st.sampled_from([None, 1, 2, 4, 12, 30]))
    c["cp"] = draw(st.booleans())
    c["tol"] = draw(st.sampled_from([12, 12, 9]))
    return c


def ring_samples(rings, dists):
    """Points at the given distances on both sides of every edge and around every vertex."""
    out = []
    for r in rings:
        c = np.array(r.coords)
        e = c[1:] - c[:-1]
        ln = np.hypot(e[:, 0], e[:, 1])
        n = np.c_[-e[:, 1], e[:, 0]] / ln[:, None]
        for f in (0.13, 0.5, 0.87):
            m = c[:-1] + f * e
            out += [m + d * n for d in dists] + [m - d * n for d in dists]
        for a in np.arange(0, 12) * math.pi / 6 + 0.1:
            out += [c[:-1] + d * np.array([math.cos(a), math.sin(a)]) for d in dists]
    return np.vstack(out)


def offset_expect(dist, inside, amount, res):
    """(surely in, surely out) for an outline offset by amount; dist from the outline's boundary."""
    d = abs(amount)
    chord = math.cos(1.5 * math.pi / (4 * res)) - 0.03  # an arc is rounded to whole segments
    if amount > 0:
        return inside | (dist < d * chord), ~inside & (dist > d * 1.001)
    return inside & (dist > d * 1.001), ~inside | (dist < d * chord)


def check_offset(case):
    p, _ = sut.api()
    poly = gen.build_poly(case["shape"], case["place"])
    x0, y0, x1, y1 = poly.bounds
    size = max(x1 - x0, y1 - y0)
    mat = default() if case["mat"] is None else gen.build_material(case["mat"])
    r = poly.representative_point()
    cp = (r.x, r.y) if case["cp"] else None
    tol = case["tol"] if size > 1 else 12
    g = p.Geometry(poly, material=mat, control_points=cp, tol=tol)
    snap = (g.geom.wkb, g.material, list(g.control_points))
    amount = case["amount"] / 100.0 * size
    res = case["res"] or 12
    kw = {} if case["res"] is None else {"resolution": case["res"]}
    how = case["where"] or "exterior"
    if case["where"]:
        kw["where"] = case["where"]
    where = f"offset by {amount:.6g} {kw}"
    if how == "interior" and not poly.interiors:
        try:
            g.offset_perimeter(amount=amount, **kw)
        except ValueError:
            return Info(nontrivial=False, tags=("refused",))
        raise Violation(f"{where}: offsetting the interior of a geometry without holes was not refused")
    new = g.offset_perimeter(amount=amount, **kw)
    ensure((g.geom.wkb, g.material, list(g.control_points)) == snap, f"{where}: the original was changed")
    d = abs(amount)
    pts = np.vstack([ring_samples((poly.exterior, *poly.interiors), (0.5 * d, 0.9 * d, 1.1 * d, 1.5 * d)),
                     lattice(np.array([x0, y0]) - 1.3 * d, np.array([x1, y1]) + 1.3 * d, 15)])
    P = shapely.points(pts)
    outer = Polygon(poly.exterior)
    din = inside_mask(outer, P)
    dd = shapely.distance(P, outer.exterior)
    holes = [Polygon(q) for q in poly.interiors]
    hin = [shapely.contains(q, P) for q in holes]
    hd = [shapely.distance(P, q.exterior) for q in holes]
    if how == "exterior":
        yes, no = offset_expect(dd, din, amount, res)
        for i, x in zip(hin, hd):
            yes, no = yes & ~i & (x > 1e-9 * size), no | (i & (x > 1e-9 * size))
    elif how == "interior":
        yes, no = din & (dd > 1e-9 * size), ~din & (dd > 1e-9 * size)
        for i, x in zip(hin, hd):
            a, b = offset_expect(x, i, amount, res)
            yes, no = yes & b, no | a
    else:
        body, bound = inside_mask(poly, P), shapely.distance(P, poly.boundary)
        yes, no = offset_expect(bound, body, amount, res)
    regs = list(getattr(new, "geoms", [new]))
    cnt = np.zeros(len(P), int)
    for i, q in enumerate(regs):
        if q.geom.is_empty:
            continue
        cnt += inside_mask(q.geom if q.geom.is_valid else shapely.make_valid(q.geom), P)
        ensure(q.material == mat, f"{where}: region {i} has material {q.material}, expected {mat}")
        if q.geom.area > 1e-6 * size**2:
            control_ok(q, f"{where}: region {i}", size)
    for name, m, n in (("inside", yes, 1), ("outside", no, 0)):
        bad = np.nonzero(m & (cnt != n))[0]
        if len(bad):
            j = bad[0]
            raise Violation(f"{where}: point {pts[j].tolist()} ({dd[j] / d:.4g} distances from the outline) should be {name} the "
                            f"offset section, it lies in {cnt[j]} of its regions ({len(bad)} such points)")
    if not hasattr(new, "geoms") and not new.geom.is_empty:
        ensure(new.tol == tol, f"{where}: rounding tolerance {new.tol}, expected {tol}")
        if cp is not None and new.geom.contains(shapely.Point(cp)):
            c = new.control_points[0]
            ensure(math.hypot(c[0] - cp[0], c[1] - cp[1]) < 1e-9 * size, f"{where}: the assigned control point {cp} became {c}")
    # straight lengths: a convex outline grows by the length of its boundary and the rounded corners
    hull = outer.convex_hull
    if how == "exterior" and abs(hull.area - outer.area) < 1e-9 * hull.area and not new.geom.is_empty:
        a = new.calculate_area()
        if amount > 0:
            t = 1.5 * math.pi / (2 * res)
            lo = poly.area + d * outer.length + math.pi * d * d * math.sin(t) / t - 1e-6 * size**2
            ensure(lo - 1e-3 * d * d <= a <= poly.area + d * outer.length + math.pi * d * d * 1.0001, f"{where}: area {a:.9g} of a dilated convex section")
    v = np.array(outer.exterior.coords)
    e = v[1:] - v[:-1]
    if how == "exterior" and amount > 0 and len(e) == 4 and max(abs(np.sum(e * np.roll(e, 1, axis=0), axis=1))) < 1e-9 * size**2:
        n = len(new.geom.exterior.coords) - 1
        ensure(n == 4 * (res + 1), f"{where}: a rectangle dilated with {res} segments per quarter circle has {n} vertices, expected {4 * (res + 1)}")
    return Info(nontrivial=bool(yes.any() and no.any()),
                tags=(how, "dilated" if amount > 0 else "eroded", f"resolution {res}", "holes" if holes else "solid",
                      "empty" if new.geom.is_empty else f"{min(len(regs), 3)} regions"))


# --------------------------------------------------------------- compound offset
@st.composite
def comp_offset_case(draw):
    if draw(st.integers(0, 2)) == 0:
        n = draw(ints(2, 4))
        return {"kind": "dilate", "w": [draw(ints(10, 60)) for _ in range(n)], "h": draw(ints(10, 60)), "m": [draw(ints(0, 2)) for _ in range(n)],
                "same_h": True, "amount": draw(st.sampled_from([0.5, 1, 2, 4])), "ax": draw(st.sampled_from("xy")),
                "at": [draw(ints(-100, 100)), draw(ints(-100, 100))], "gap": draw(st.integers(0, 3)) == 0}
    c = draw(sut.comp_case())
    c.pop("mesh")
    c.update(kind="erode", amount=draw(st.sampled_from([0.5, 1, 2, 3, 5, 9, 15])), where=draw(st.sampled_from(["exterior", None, "all"])),
             res=draw(st.sampled_from([None, 2, 12])))
    return c


def check_comp_offset(case):
    p, _ = sut.api()
    if case["kind"] == "dilate":
        ms = [gen.build_material({"E": e, "nu": 0.2, "fy": 10, "rho": 1.0}, name=f"m{e}") for e in (1, 20, 300)]
        x, parts = 0.0, []
        for w, m in zip(case["w"], case["m"]):
            b = (x, 0, x + w, case["h"]) if case["ax"] == "x" else (0, x, case["h"], x + w)
            parts.append((shapely.affinity.translate(shapely.box(*b), *case["at"]), ms[m]))
            x += w + (30 if case["gap"] else 0)
        kw, how = {}, "exterior"
    else:
        ps, mm = sut.parts_of(case), sut.materials_of(case)
        parts = [(g, mm[i]) for g, i in ps]
        how = case["where"] or "exterior"
        kw = ({"where": case["where"]} if case["where"] else {}) | ({"resolution": case["res"]} if case["res"] else {})
    b = np.array([g.bounds for g, _ in parts])
    lo, hi = b[:, :2].min(axis=0), b[:, 2:].max(axis=0)
    size = float(max(hi - lo))
    d = case["amount"] / 100.0 * size
    amount = d if case["kind"] == "dilate" else -d
    g = p.CompoundGeometry([p.Geometry(q, material=m) for q, m in parts])
    where = f"compound offset by {amount:.6g} {kw}"
    # closed, so that placed regions leave no gap of the size of the round-off
    union = shapely.union_all([q.buffer(1e-8 * size, join_style="mitre") for q, _ in parts]).buffer(-1e-8 * size, join_style="mitre")
    if isinstance(union, shapely.MultiPolygon) and amount < 0:
        return Info(discard=True)
    res = case.get("res") or 12
    new = g.offset_perimeter(amount=amount, **kw)
    rings = [r for u in getattr(union, "geoms", [union]) for r in (u.exterior, *u.interiors)]
    pts = np.vstack([ring_samples(rings, (0.5 * d, 0.9 * d, 1.1 * d, 1.6 * d)), lattice(lo - 1.3 * d, hi + 1.3 * d, 15)])
    P = shapely.points(pts)
    near = shapely.distance(P, shapely.union_all([q.boundary for q, _ in parts]))
    own = [inside_mask(q, P) for q, _ in parts]
    body = np.any(own, axis=0)
    got = np.zeros(len(P), int)
    gm = [None] * len(P)
    for q in new.geoms:
        w = inside_mask(q.geom if q.geom.is_valid else shapely.make_valid(q.geom), P)
        got += w
        for j in np.nonzero(w)[0]:
            gm[j] = q.material
        if q.geom.area > 1e-6 * size**2:
            control_ok(q, where, size)
    if amount < 0:
        edge = shapely.MultiLineString([u.exterior for u in getattr(union, "geoms", [union])]) if how == "exterior" else union.boundary
        yes, no = offset_expect(shapely.distance(P, edge), body, amount, res)
        yes, no = yes & (near > 1e-6 * size), no & (near > 1e-6 * size)
    else:
        dist = shapely.distance(P, union)
        yes = (near > 1e-6 * size) & (body | (dist < 0.95 * d))
        no = dist > 1.01 * d
        # corners are left open: the outline grows along its edges only
        c = np.vstack([np.array(r.coords) for q, _ in parts for r in (q.exterior, *q.interiors)])
        corner = np.hypot(pts[:, 0][:, None] - c[:, 0], pts[:, 1][:, None] - c[:, 1]).min(axis=1) < 1.5 * d
        yes &= body | ~corner
        # where two bands meet the material is either one's
    for name, m, n in (("inside", yes, 1), ("outside", no, 0)):
        bad = np.nonzero(m & (got != n))[0]
        if len(bad):
            j = bad[0]
            raise Violation(f"{where}: point {pts[j].tolist()} should be {name} the offset section, it lies in {got[j]} of its regions ({len(bad)} such points)")
    for (q, m), w in zip(parts, own):
        for j in np.nonzero(w & yes)[0]:
            ensure(gm[j] == m, f"{where}: point {pts[j].tolist()} has material {gm[j]}, expected {m}")
    if amount > 0:
        # a grown point takes the material of the region it grew from
        for j in np.nonzero(yes & ~body)[0]:
            k = int(np.argmin([q.distance(P[j]) for q, _ in parts]))
            ds = sorted(q.distance(P[j]) for q, _ in parts)
            if len(ds) == 1 or ds[1] - ds[0] > 0.1 * d:
                ensure(gm[j] == parts[k][1], f"{where}: grown point {pts[j].tolist()} has material {gm[j]}, expected {parts[k][1]}")
    return Info(nontrivial=bool(yes.any() and no.any() and len(parts) > 1), tags=(case["kind"], how, f"{len(parts)} regions to {len(new.geoms)}"))


# ------------------------------------------------------------------ moved points
@st.composite
def points_case(draw):
    c = draw(sut.single())
    c.pop("mesh")
    c["mat"] = draw(st.one_of(st.none(), gen.material()))
    c["idx"] = draw(st.one_of(ints(0, 60), st.lists(ints(0, 60), min_size=1, max_size=4)))
    c["d"] = [draw(st.one_of(st.none(), fl(-0.3, 0.3) if False else st.integers(-200, 200).map(lambda v: v / 1000))) for _ in range(2)]
    c["abs"] = [draw(st.one_of(st.none(), st.none(), st.just(0.0), st.integers(-200, 1200).map(lambda v: v / 1000))) for _ in range(2)]
    c["cp"] = draw(st.booleans())
    c["tol"] = draw(st.sampled_from([12, 12, 6]))
    c["zero"] = draw(st.booleans())  # move the section so that absolute zero is within it
    return c


def check_points(case):
    p, _ = sut.api()
    poly = gen.build_poly(case["shape"], case["place"])
    if case["zero"]:
        r = poly.representative_point()
        poly = shapely.affinity.translate(poly, -r.x, -r.y)
    x0, y0, x1, y1 = poly.bounds
    size = max(x1 - x0, y1 - y0)
    mat = default() if case["mat"] is None else gen.build_material(case["mat"])
    r = poly.representative_point()
    cp = (r.x, r.y) if case["cp"] else None
    digits = 12 if case["tol"] == 12 or size < 1 else case["tol"]
    g = p.Geometry(poly, material=mat, control_points=cp, tol=digits)
    snap = (g.geom.wkb, list(g.points), list(g.facets), list(g.control_points), list(g.holes))
    n = len(g.points)
    idx = case["idx"] % n if isinstance(case["idx"], int) else [i % n for i in case["idx"]]
    kw = {}
    for k, v in zip(("dx", "dy"), case["d"]):
        if v is not None:
            kw[k] = v * size
    for k, v, o in zip(("abs_x", "abs_y"), case["abs"], (x0, y0)):
        if v is not None:
            kw[k] = 0.0 if v == 0.0 and case["zero"] else o + v * size
    moved = {}
    pts = [tuple(q) for q in g.points]
    seq = [idx] if isinstance(idx, int) else idx
    for i in seq:
        x, y = pts[i]
        pts[i] = (kw["abs_x"] if "abs_x" in kw else x + kw.get("dx", 0.0), kw["abs_y"] if "abs_y" in kw else y + kw.get("dy", 0.0))
        moved[i] = True
    # rings of the original, in the order of the point list
    rings, cur = [], []
    for a, b in g.facets:
        cur.append(a)
        if b == cur[0]:
            rings.append(cur)
            cur = []
    ensure(not cur and sum(map(len, rings)) == n, "facets of the original do not form closed loops")
    want = Polygon([pts[i] for i in rings[0]], [[pts[i] for i in r] for r in rings[1:]])
    if not want.is_valid or want.area < 1e-6 * size**2 or any(Polygon([pts[i] for i in r]).area < 1e-9 * size**2 for r in rings):
        return Info(discard=True)
    # loops that touch at a vertex or edge change their number of rings
    for i, a in enumerate(rings):
        for b in rings[i + 1:]:
            if shapely.LinearRing([pts[k] for k in a]).distance(shapely.LinearRing([pts[k] for k in b])) < 1e-9 * size:
                return Info(discard=True)
    where = f"shift_points({idx}, {kw})"
    new = kept(g.shift_points, idx, **kw)
    ensure((g.geom.wkb, list(g.points), list(g.facets), list(g.control_points), list(g.holes)) == snap, f"{where}: the original was changed")
    tol = 2 * 10.0**-digits + 1e-12 * (abs(x0) + abs(y0) + size)
    sym = new.geom.symmetric_difference(want).area
    ensure(sym <= 4 * tol * want.length, f"{where}: the result differs from the requested outline by an area of {sym:.4g}")
    wv = np.array(pts)
    gv = np.vstack([np.array(q.coords)[:-1] for q in (new.geom.exterior, *new.geom.interiors)])
    # collinear or repeated points may be merged by the polygon operations; turning points may not
    d = np.hypot(wv[:, 0][:, None] - gv[:, 0], wv[:, 1][:, None] - gv[:, 1]).min(axis=1)
    for i in moved:
        on = new.geom.boundary.distance(shapely.Point(wv[i]))
        ensure(on <= 4 * tol, f"{where}: point {i} should be at {wv[i].tolist()}, the outline is {on:.3g} away")
    ensure(len(new.geom.interiors) == len(poly.interiors), f"{where}: {len(new.geom.interiors)} holes, expected {len(poly.interiors)}")
    ensure(new.material == mat, f"{where}: material {new.material}, expected {mat}")
    ensure(new.tol == digits, f"{where}: rounding tolerance {new.tol}, expected {digits}")
    control_ok(new, where, size)
    if cp is not None and want.contains(shapely.Point(cp)):
        c = new.control_points[0]
        ensure(math.hypot(c[0] - cp[0], c[1] - cp[1]) < 1e-9 * size + 1e-12, f"{where}: assigned control point {cp} became {c}")
    return Info(nontrivial=bool(kw) and sum(d > 1e-6 * size) == 0,
                tags=("one point" if isinstance(idx, int) else "list of points", *sorted(kw), "hole point" if any(i not in rings[0] for i in moved) else "outer point",
                      "assigned control point" if cp else "automatic control point"))


BX = {"shape": {"k": "plates", "f": "box", "d": 100, "b": 60, "b2": 60, "tf": 8, "tw": 5, "tf2": 10},
      "place": {"s": 1.0, "rot": 0, "dx": -20, "dy": -30}, "mat": None}
FIX_P = [
    {**BX, "idx": 1, "d": [None, None], "abs": [0.0, None], "cp": True, "tol": 12, "zero": True},
    {**BX, "idx": [1, 2], "d": [0.1, 0.1], "abs": [None, 0.0], "cp": True, "tol": 6, "zero": True},
    {**BX, "idx": 5, "d": [0.02, 0.01], "abs": [None, None], "cp": True, "tol": 6, "zero": False},
    {**BX, "shape": {"k": "reg", "n": 4, "rx": 50, "ry": 50}, "idx": 1, "d": [0.2, -0.9], "abs": [None, None], "cp": True, "tol": 12, "zero": True},
]
FIX_S = [{"shape": {"k": "cols", "c": [[8, 0, 20], [8, 1, 9], [8, 0, 26], [40, 17, 25], [8, 0, 63]]}, "place": {"s": 1.0, "rot": -1, "dx": 447, "dy": 0},
          "line": {"kind": "edge", "p": [0.0, 0.0], "a": 0, "i": 0, "j": 27, "by": "point", "len": 1.0, "miss": True}, "mat": None}]
FIX_D = [{"kind": "dilate", "w": [20, 30], "h": 25, "m": [0, 1], "same_h": True, "amount": 2, "ax": "x", "at": [0, 0], "gap": True},
         {"kind": "dilate", "w": [20], "h": 25, "m": [0], "same_h": True, "amount": 2, "ax": "x", "at": [0, 0], "gap": False}]

@st.composite
def many_case(draw):
    c, m = draw(split_case()), draw(sut.many(20))
    return dict(c, comp=m["comp"], place=m["place"])


FAMILIES = [
    Family("split", split_case, check_split, 1700, 17000, fixed=FIX_S, rule="any line given by two points or a vector; non-trivial = the line cuts the section"),
    Family("offset", offset_case, check_offset, 1100, 11000, rule="single geometries, all sides; non-trivial = points judged on both sides of the new outline"),
    Family("compound_offset", comp_offset_case, check_comp_offset, 600, 6000, fixed=FIX_D, rule="erosion of connected compounds, dilation of side-by-side regions; non-trivial = two or more regions"),
    Family("points", points_case, check_points, 1100, 11000, fixed=FIX_P, rule="relative and absolute moves of one or more points; non-trivial = every moved vertex is a vertex of the result"),
    Family("many", many_case, check_split, 120, 1200, rule="up to 36 connected regions of up to 12 materials; non-trivial = the line cuts the section"),
]
