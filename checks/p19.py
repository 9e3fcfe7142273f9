"""P19: points, facets, control points and holes describe a geometry losslessly.

Oracle: our own reading of the linework.  Loops are traced through the facets, voids are
computed from the exact union of the regions, and the geometry rebuilt from the lists is
compared region by region with the original polygons.
"""

from __future__ import annotations

import numpy as np
import shapely
import shapely.affinity
from hypothesis import strategies as st
from shapely import LinearRing, Point, Polygon

from vkit import gen, oracle, sut
from vkit.core import Family, Info, Violation, close, ensure, kept

ASSUMPTIONS = [
    "compounds with a region embedded in another's hole cannot be expressed through from_points and are refused; the check accepts the refusal or the right result",
    "outlines with repeated vertices (closer than 1e-9 of the size) are outside the claim",
    "voids narrower than 1e-6 of the size are not judged",
]
ints = st.integers


def default():
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    return DEFAULT_MATERIAL


def loops_of(points, facets):
    """Closed loops of point indices in the order of the facets."""
    out, cur = [], []
    for a, b in facets:
        if cur:
            ensure(a == cur[-1], f"facet ({a}, {b}) does not continue the loop at point {cur[-1]}")
        else:
            cur = [a]
        if b == cur[0]:
            out.append(cur)
            cur = []
        else:
            cur.append(b)
    ensure(not cur, f"the facets end in an open chain {cur}")
    return out


def indices_ok(g, what):
    n = len(g.points)
    for f in g.facets:
        ensure(len(f) == 2 and all(isinstance(i, (int, np.integer)) and 0 <= i < n for i in f) and f[0] != f[1],
               f"{what}: facet {f} does not connect two of the {n} points")
    used = {i for f in g.facets for i in f}
    ensure(used == set(range(n)), f"{what}: points {sorted(set(range(n)) - used)} belong to no facet")


def same_poly(got, want, size, what):
    sym = got.symmetric_difference(want).area
    ensure(sym <= 1e-9 * size**2, f"{what}: differs from the original by an area of {sym:.4g}")
    ensure(len(got.interiors) == len(want.interiors), f"{what}: {len(got.interiors)} holes, expected {len(want.interiors)}")


def describe_region(g, poly, size, what):
    """A single geometry against its polygon."""
    indices_ok(g, what)
    rings = [poly.exterior, *poly.interiors]
    ls = loops_of(g.points, g.facets)
    ensure(len(ls) == len(rings), f"{what}: {len(ls)} loops, expected {len(rings)}")
    ensure(len(g.points) == sum(len(r.coords) - 1 for r in rings), f"{what}: {len(g.points)} points for {sum(len(r.coords) - 1 for r in rings)} vertices")
    polys = [Polygon([g.points[i] for i in l]) for l in ls]
    same_poly(Polygon(polys[0].exterior, [p.exterior for p in polys[1:]]), poly, size, f"{what}: the facets")
    ensure(len(g.control_points) == 1 and poly.contains(Point(g.control_points[0])), f"{what}: control points {g.control_points} of one region")
    ensure(len(g.holes) == len(poly.interiors), f"{what}: {len(g.holes)} hole points for {len(poly.interiors)} holes")
    left = [Polygon(r) for r in poly.interiors]
    for h in g.holes:
        k = [i for i, q in enumerate(left) if q.contains(Point(h))]
        ensure(len(k) == 1, f"{what}: hole point {h} lies in {len(k)} of the remaining holes")
        left.pop(k[0])


# ------------------------------------------------------------------------ single
@st.composite
def single_case(draw):
    c = draw(sut.single())
    c.pop("mesh")
    c["mat"] = draw(st.one_of(st.none(), gen.material()))
    c["start"] = [draw(ints(0, 20)) for _ in range(5)]
    c["rev"] = [draw(st.booleans()) for _ in range(5)]
    c["order"] = draw(st.permutations(range(6)))
    c["perm"] = draw(st.booleans())  # renumber the points
    c["cp"] = draw(st.booleans())
    return c


def check_single(case):
    p, _ = sut.api()
    poly = gen.build_poly(case["shape"], case["place"])
    mat = default() if case["mat"] is None else gen.build_material(case["mat"])
    g = p.Geometry(poly, material=mat)
    poly = g.geom  # rounded to the tolerance
    x0, y0, x1, y1 = poly.bounds
    size = max(x1 - x0, y1 - y0)
    describe_region(g, poly, size, "geometry")
    kw = {} if case["mat"] is None else {"material": mat}

    def rebuilt(points, facets, cps, holes, what):
        r = kept(p.Geometry.from_points, points=points, facets=facets, control_points=cps, holes=holes, **kw)
        ensure(type(r) is p.Geometry, f"{what}: a {type(r).__name__}")
        same_poly(r.geom, poly, size, what)
        ensure(r.material == mat, f"{what}: material {r.material}, expected {mat}")
        c = np.array(r.control_points[0])
        ensure(np.hypot(*(c - np.array(cps[0]))) <= 1e-9 * size, f"{what}: control point {c.tolist()}, given {cps[0]}")
        describe_region(r, poly, size, what)

    rebuilt(g.points, g.facets, g.control_points, g.holes or None, "rebuilt from its own lists")
    # the same outline described differently: other starting points, directions, numbering and hole order
    ls = loops_of(g.points, g.facets)
    tail = [l for _, l in sorted(zip(case["order"], ls[1:]))]
    mine = []
    for k, l in enumerate([ls[0], *tail]):
        s = case["start"][k % 5] % len(l)
        l = l[s:] + l[:s]
        mine.append(l[::-1] if case["rev"][k % 5] else l)
    pts = list(g.points)
    if case["perm"]:
        n = len(pts)
        new = [(7 * i + 3) % n if n % 7 else n - 1 - i for i in range(n)]
        q = [None] * n
        for i, j in enumerate(new):
            q[j] = pts[i]
        pts = q
        mine = [[new[i] for i in l] for l in mine]
    facets = [(a, b) for l in mine for a, b in zip(l, l[1:] + l[:1])]
    holes = [Polygon(r).representative_point().coords[0] for r in poly.interiors][::-1]
    cp = g.control_points[0]
    if case["cp"]:
        v = np.array(poly.exterior.coords[0])
        c = 0.9 * np.array(cp) + 0.1 * v
        if poly.contains(Point(c)):
            cp = (float(c[0]), float(c[1]))
    rebuilt(pts, facets, [cp], holes, "rebuilt from a re-ordered description")
    return Info(nontrivial=len(g.points) > 3, tags=(f"{len(poly.interiors)} holes", "renumbered" if case["perm"] else "same numbering"))


# ---------------------------------------------------------------------- compound
@st.composite
def comp_case(draw):
    c = draw(sut.comp_case(connected=draw(st.booleans()), same=True))
    c.pop("mesh")
    c["turn"] = [draw(ints(0, 12)) for _ in range(8)]
    c["mats"] = draw(st.booleans())
    c["then"] = draw(st.sampled_from([None, None, "shift", "rotate", "mirror", "minus"]))
    return c


def describe_compound(g, parts, size, what):
    indices_ok(g, what)
    n = len(g.points)
    ensure(len(set(map(tuple, g.points))) == n, f"{what}: points are listed twice")
    # the linework of the facets is the linework of all regions
    segs = shapely.linestrings([[g.points[a], g.points[b]] for a, b in g.facets])
    want = shapely.union_all([q.boundary for q in parts])
    mid = shapely.points([(0.39 * np.array(g.points[a]) + 0.61 * np.array(g.points[b])) for a, b in g.facets])
    d = shapely.distance(mid, want)
    ensure(d.max() <= 1e-8 * size, f"{what}: a facet runs {d.max():.3g} away from every outline")
    exp = sum(q.boundary.length for q in parts)
    close(f"{what}: total length of the facets", sum(s.length for s in segs), exp, 1e-9)
    lines = shapely.MultiLineString(list(segs))
    for i, q in enumerate(parts):
        c = np.array(q.exterior.coords)
        ds = shapely.distance(shapely.points((c[1:] * 0.3 + c[:-1] * 0.7)), lines)
        ensure(ds.max() <= 1e-8 * size, f"{what}: part of the outline of region {i} has no facet")
    ensure(len(g.control_points) == len(parts), f"{what}: {len(g.control_points)} control points for {len(parts)} regions")
    for i, c in enumerate(g.control_points):
        inside = [j for j, q in enumerate(parts) if q.contains(Point(c))]
        ensure(inside == [i], f"{what}: control point {i} at {c} lies in the regions {inside}")
    # voids: the enclosed areas of the closing of the union
    gap = 1e-7 * size
    solid = oracle.union(parts).buffer(gap, join_style="mitre")
    voids = []
    for u in getattr(solid, "geoms", [solid]):
        voids += [Polygon(r) for r in u.interiors]
    v = shapely.union_all(voids) - solid if voids else Polygon()
    v = [q for q in getattr(v, "geoms", [v]) if q.area > 1e-6 * size**2]
    ensure(len(g.holes) >= len(v), f"{what}: {len(g.holes)} hole points for {len(v)} voids")
    body = oracle.union(parts)
    for h in g.holes:
        ensure(not body.intersects(Point(h)), f"{what}: hole point {h} lies in the material")
        ensure(solid.intersects(Point(h)) or any(q.contains(Point(h)) for q in v) or any(q.contains(Point(h)) for q in voids),
               f"{what}: hole point {h} lies outside the section")
    for q in v:
        ensure(sum(q.contains(Point(h)) for h in g.holes) == 1, f"{what}: the void around {q.representative_point()} holds {sum(q.contains(Point(h)) for h in g.holes)} hole points")
    return v


def check_compound(case):
    p, _ = sut.api()
    ps = sut.parts_of(case)
    ms = sut.materials_of(case)
    parts, mats = [], []
    for k, (q, i) in enumerate(ps):
        # other starting points, so that regions may start at a shared vertex
        r = []
        for j, ring in enumerate((q.exterior, *q.interiors)):
            c = list(ring.coords)[:-1]
            s = (case["turn"][k % 8] + j) % len(c)
            r.append(c[s:] + c[:s])
        parts.append(Polygon(r[0], r[1:]))
        mats.append(ms[i] if case["mats"] else default())
    g = p.CompoundGeometry([p.Geometry(q, material=m) for q, m in zip(parts, mats)])
    b = np.array([q.bounds for q in parts])
    size = float(max(b[:, 2:].max(axis=0) - b[:, :2].min(axis=0)))
    t = case["then"]
    if t == "shift":
        g = g.shift_section(0.3 * size, -0.7 * size)
    elif t == "rotate":
        if case["comp"]["parts"]["k"] != "stack":
            g = g.rotate_section(31)
    elif t == "mirror":
        g = g.mirror_section("y")
    elif t == "minus":
        c = (b[0, :2] + b[0, 2:]) / 2
        g = g - p.Geometry(shapely.box(c[0] - 0.07 * size, c[1] - 0.05 * size, c[0] + 0.06 * size, c[1] + 0.05 * size))
    parts = [q.geom for q in g.geoms]
    mats = [q.material for q in g.geoms]
    if any(not q.is_valid or q.area < 1e-6 * size**2 for q in parts) or not parts:
        return Info(discard=True)
    if any(np.hypot(*np.diff(np.array(c.coords), axis=0).T).min() < 1e-9 * size for q in parts for c in (q.exterior, *q.interiors)):
        return Info(discard=True)  # repeated vertices (the cut runs through a vertex to within rounding)
    for i, (q, r) in enumerate(zip(g.geoms, parts)):
        describe_region(q, r, size, f"region {i}")
    voids = describe_compound(g, parts, size, "compound")
    # embedded: the outline of one region lies inside the outer outline of another
    outer = [Polygon(q.exterior) for q in parts]
    embedded = any(i != j and a.contains(Point(g.control_points[j])) for i, a in enumerate(outer) for j in range(len(parts)))
    kw = {"materials": mats} if case["mats"] else {}
    tags = [case["comp"]["parts"]["k"], "embedded" if embedded else "side by side", f"{len(voids)} voids", f"{min(len(parts), 5)} regions"]
    try:
        r = kept(p.CompoundGeometry.from_points, points=g.points, facets=g.facets, control_points=g.control_points, holes=g.holes or None, **kw)
    except ValueError as e:
        if embedded:
            return Info(nontrivial=False, tags=(*tags, "refused"))
        raise Violation(f"rebuilding the compound from its own lists was refused: {e!r}") from None
    ensure(type(r) is p.CompoundGeometry, f"rebuilt as a {type(r).__name__}")
    ensure(len(r.geoms) == len(parts), f"rebuilt with {len(r.geoms)} regions, expected {len(parts)}")
    for i, (q, w, m) in enumerate(zip(r.geoms, parts, mats)):
        same_poly(q.geom, w, size, f"rebuilt region {i}")
        ensure(q.material == m, f"rebuilt region {i}: material {q.material}, expected {m}")
        ensure(np.hypot(*(np.array(q.control_points[0]) - np.array(g.control_points[i]))) <= 1e-9 * size,
               f"rebuilt region {i}: control point {q.control_points[0]}, given {g.control_points[i]}")
    describe_compound(r, parts, size, "rebuilt compound")
    return Info(nontrivial=len(parts) > 1 and not embedded, tags=tuple(tags))


def sq(x, y, w, h):
    return [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]


# two squares that start at a shared vertex, and an embedded region that starts where its hole does
def check_raw(case):
    p, _ = sut.api()
    ms = [gen.build_material({"E": e, "nu": 0.2, "fy": 10, "rho": 1.0}, name=f"m{i}") for i, e in enumerate((1, 20, 300, 4000))]
    w, h = case["w"], case["h"]
    nx, ny = len(w), len(h)
    X, Y = np.concatenate([[0], np.cumsum(w)]) + case["at"][0], np.concatenate([[0], np.cumsum(h)]) + case["at"][1]
    pts = [(float(X[i]), float(Y[j])) for j in range(ny + 1) for i in range(nx + 1)]
    cells = [(i, j) for j in range(ny) for i in range(nx) if (j * nx + i) not in case["off"]]
    if not cells:
        return Info(discard=True)
    facets, cps, mats, want = [], [], [], []
    for k, (i, j) in enumerate(cells):
        a = j * (nx + 1) + i
        l = [a, a + 1, a + nx + 2, a + nx + 1]
        s = case["turn"][k % 6] % 4
        l = l[s:] + l[:s]
        if case["rev"][k % 6]:
            l = l[::-1]
        facets += list(zip(l, l[1:] + l[:1]))
        cps.append((float(X[i] * 0.6 + X[i + 1] * 0.4), float(Y[j] * 0.3 + Y[j + 1] * 0.7)))
        mats.append(ms[case["m"][k % 6]])
        want.append(shapely.box(X[i], Y[j], X[i + 1], Y[j + 1]))
    r = kept(p.CompoundGeometry.from_points, points=pts, facets=facets, control_points=cps, materials=mats)
    ensure(len(r.geoms) == len(want), f"{len(r.geoms)} regions, expected {len(want)}")
    size = float(max(X[-1] - X[0], Y[-1] - Y[0]))
    for i, (q, u, m) in enumerate(zip(r.geoms, want, mats)):
        same_poly(q.geom, u, size, f"region {i}")
        ensure(q.material == m, f"region {i}: material {q.material}, expected {m}")
        ensure(tuple(q.control_points[0]) == cps[i], f"region {i}: control point {q.control_points[0]}, given {cps[i]}")
    describe_compound(r, want, size, "grid of cells")
    return Info(nontrivial=len(cells) > 1, tags=(f"{len(cells)} cells",))


@st.composite
def raw_case(draw):
    nx, ny = draw(ints(1, 3)), draw(ints(1, 3))
    return {"w": [draw(ints(1, 9)) for _ in range(nx)], "h": [draw(ints(1, 9)) for _ in range(ny)], "at": [draw(ints(-9, 9)), draw(ints(-9, 9))],
            "off": draw(st.lists(ints(0, 8), max_size=3)), "turn": [draw(ints(0, 3)) for _ in range(6)], "rev": [draw(st.booleans()) for _ in range(6)],
            "m": [draw(ints(0, 3)) for _ in range(6)]}


FIX_RAW = [{"w": [2, 3], "h": [4], "at": [0, 0], "off": [], "turn": [1, 0, 0, 0, 0, 0], "rev": [False] * 6, "m": [0, 1, 2, 3, 0, 1]}]
EMB = {"comp": {"parts": {"k": "nest", "o": {"k": "star", "r": [60] * 4, "j": [0] * 4}, "f": [50], "void": False, "m": [0, 1, 0]},
                "mats": [{"E": 1, "nu": 0.2, "fy": 1, "rho": 1.0}, {"E": 9, "nu": 0.2, "fy": 1, "rho": 1.0}]},
       "place": {"s": 1.0, "rot": 0, "dx": 0, "dy": 0}, "turn": [0, 0, 0, 0, 0, 0, 0, 0], "mats": True, "then": None}
FIX_C = [EMB, {**EMB, "turn": [3, 0, 0, 0, 0, 0, 0, 0]}, {**EMB, "turn": [0, 1, 0, 0, 0, 0, 0, 0]}]

@st.composite
def many_case(draw):
    c, m = draw(comp_case()), draw(sut.many(20))
    return dict(c, comp=m["comp"], place=m["place"])


# ------------------------------------------------------------------------- slots
@st.composite
def slot_case(draw):
    """Blocks side by side that enclose narrow slots, in any unit of length."""
    n = draw(ints(2, 4))
    return {"w": [draw(ints(20, 60)) for _ in range(n)], "h": draw(ints(15, 60)),
            "slot": [{"on": draw(st.booleans()) or k == 0, "w": draw(st.sampled_from([3e-1, 3e-2, 3e-3, 1e-3])),
                      "lo": draw(ints(1, 4)), "hi": draw(ints(6, 9)), "one": draw(st.booleans())} for k in range(n - 1)],
            "s": draw(st.sampled_from([1e-4, 1e-2, 1.0, 10.0, 1e3, 1e4, 1e5])), "q": draw(ints(0, 3)),
            "far": draw(st.booleans()), "extra": draw(st.booleans())}


def check_slots(case):
    p, _ = sut.api()
    k, h = case["s"], case["h"]
    x = np.concatenate([[0.0], np.cumsum(case["w"])])
    parts = [shapely.box(a, 0, b, h) for a, b in zip(x[:-1], x[1:])]
    for i, c in enumerate(case["slot"]):
        if c["on"]:
            y0, y1, m = h * c["lo"] / 10, h * c["hi"] / 10, x[i + 1]
            parts[i] = parts[i] - shapely.box(m - c["w"], y0, m + 1, y1)
            if not c["one"]:
                parts[i + 1] = parts[i + 1] - shapely.box(m - 1, y0, m + c["w"], y1)
    if case["extra"]:  # something that does not touch the rest
        parts.append(shapely.box(x[-1] + 5, 0, x[-1] + 15, h))
    parts = [shapely.affinity.scale(q, k, k, origin=(0, 0)) for q in parts]
    turn = [[1, 0, 0, 1], [0, -1, 1, 0], [-1, 0, 0, -1], [0, 1, -1, 0]][case["q"]]
    parts = [shapely.affinity.affine_transform(q, [*turn, *((37 * k, -11 * k) if case["far"] else (0, 0))]) for q in parts]
    g = p.CompoundGeometry([p.Geometry(q) for q in parts])
    parts = [q.geom for q in g.geoms]
    b = np.array([q.bounds for q in parts])
    size = float(max(b[:, 2:].max(axis=0) - b[:, :2].min(axis=0)))
    describe_compound(g, parts, size, "blocks")
    solid = oracle.union(parts)
    slots = [Polygon(r) for u in getattr(solid, "geoms", [solid]) for r in u.interiors]
    ensure(len(g.holes) == len(slots), f"{len(g.holes)} hole points for {len(slots)} slots")
    for q in slots:
        ensure(sum(q.contains(Point(c)) for c in g.holes) == 1, f"no hole point in the slot around {q.representative_point()}")
    narrow = min(c["w"] for c in case["slot"] if c["on"])
    return Info(nontrivial=len(slots) > 0, tags=(f"unit {k:g}", f"slot {narrow:g}", f"{len(slots)} slots"))


FIX_SLOT = [{"w": [40, 40], "h": 40, "slot": [{"on": True, "w": 1e-3, "lo": 3, "hi": 7, "one": False}], "s": 1e5, "q": 0, "far": False, "extra": e}
            for e in (False, True)]

FAMILIES = [
    Family("slots", slot_case, check_slots, 300, 3000, fixed=FIX_SLOT, rule="blocks enclosing slots down to some millionths of the size, in units from 0.1 mm to kilometres; non-trivial = there is a slot"),
    Family("single", single_case, check_single, 1600, 16000, rule="one region with any holes, rebuilt from its own lists and from a re-ordered description; non-trivial = more than three points"),
    Family("compound", comp_case, check_compound, 1100, 11000, fixed=FIX_C, rule="composites and disconnected regions, also moved or cut; non-trivial = several side-by-side regions rebuilt"),
    Family("cells", raw_case, check_raw, 1200, 12000, fixed=FIX_RAW, rule="grids of cells described by hand, with voids; non-trivial = two or more cells"),
    Family("many", many_case, check_compound, 100, 1000, rule="up to 36 connected regions of up to 12 materials; non-trivial = several side-by-side regions rebuilt"),
]
