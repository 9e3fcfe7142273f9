"""P04: the mesh tiles exactly the material of the geometry, region by region."""

from __future__ import annotations

import math
import os

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import Polygon

from vkit import gen, oracle, sut
from vkit.core import Family, Info, close, ensure

ASSUMPTIONS = ["positions are compared to 1e-9 of the section size plus rounding of far-away coordinates",
               "the minimum angle is only required where input edges meet at 60 degrees or more"]


def tri_area(c):
    a, b, d = c[:, 0], c[:, 1], c[:, 2]
    return 0.5 * ((b[:, 0] - a[:, 0]) * (d[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (d[:, 0] - a[:, 0]))


def min_angles(c):
    out = []
    for i in range(3):
        u, v = c[:, (i + 1) % 3] - c[:, i], c[:, (i + 2) % 3] - c[:, i]
        cr = u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0]
        out.append(np.degrees(np.arctan2(cr, (u * v).sum(1))))
    return np.min(out, axis=0)


def input_angle(poly):
    """Smallest angle between two adjacent edges of the outline, in degrees."""
    best = 180.0
    for r in [poly.exterior, *poly.interiors]:
        c = np.asarray(r.coords)[:-1]
        n = len(c)
        for i in range(n):
            u, v = c[i - 1] - c[i], c[(i + 1) % n] - c[i]
            cs = (u @ v) / (np.linalg.norm(u) * np.linalg.norm(v))
            best = min(best, math.degrees(math.acos(max(-1.0, min(1.0, cs)))))
    return best


def exempt(t, regions, size):
    """The mesher's documented exemption: the shortest edge spans two input edges that
    meet at a vertex at equal distance from it."""
    k = min(range(3), key=lambda i: np.linalg.norm(t[(i + 1) % 3] - t[(i + 2) % 3]))
    a, b = t[(k + 1) % 3], t[(k + 2) % 3]
    band = shapely.union_all([r.boundary for r in regions]).buffer(1e-7 * size)
    for poly in regions:
        for v in shapely.get_coordinates(poly):
            da, db = np.linalg.norm(a - v), np.linalg.norm(b - v)
            if da > 0 and db > 0 and abs(da / db - 1) < 2e-3 and all(
                    band.contains(shapely.LineString([v, p])) for p in (a, b)):
                return True
    return False


def check_mesh(mesh, regions, sizes, q=None, bounded=True):
    """regions: polygons in the order of the control points; sizes: maximum areas (0 = none)."""
    allp = oracle.union(regions)
    x0, y0, x1, y1 = allp.bounds
    size = max(x1 - x0, y1 - y0)
    far = max(abs(x0), abs(y0), abs(x1), abs(y1), size)
    tol = 1e-9 * size + 1e-11 * far + 4e-12
    xy = np.asarray(mesh["vertices"], dtype=float)
    tr = np.asarray(mesh["triangles"], dtype=int)
    at = np.asarray(mesh["triangle_attributes"]).ravel().astype(int)
    ensure(tr.ndim == 2 and tr.shape[1] == 6, f"elements have {tr.shape} nodes, expected six each")
    ensure(len(at) == len(tr), "an element has no region attribute")
    used = np.unique(tr)
    ensure(len(np.unique(xy[used], axis=0)) == len(used), "two mesh nodes coincide")
    c = xy[tr]
    ar = tri_area(c)
    ensure((ar > 0).all(), "an element is degenerate or clockwise")
    # mid-side nodes (opposite to corner k, the convention of the mesher)
    for k in range(3):
        mid = (c[:, (k + 1) % 3] + c[:, (k + 2) % 3]) / 2
        d = np.abs(c[:, 3 + k] - mid).max()
        ensure(d <= tol, f"a mid-side node is {d:.3g} away from the middle of its edge")
    ensure(set(at) == set(range(len(regions))), f"regions {sorted(set(at))} for {len(regions)} regions")
    # conforming: an edge belongs to at most two elements, with one mid-side node
    edges = {}
    for e, t in enumerate(tr):
        for k in range(3):
            i, j, m = t[(k + 1) % 3], t[(k + 2) % 3], t[3 + k]
            edges.setdefault((min(i, j), max(i, j)), []).append((m, i < j, e))
    for key, lst in edges.items():
        ensure(len(lst) <= 2, "an edge belongs to more than two elements")
        if len(lst) == 2:
            ensure(lst[0][0] == lst[1][0], "neighbouring elements do not share the mid-side node")
            ensure(lst[0][1] != lst[1][1], "two elements lie on the same side of an edge")
    # mesh boundary lies on the boundary of the material
    outer = np.array([k for k, lst in edges.items() if len(lst) == 1])
    bd_all = shapely.union_all([r.boundary for r in regions])
    pts = np.concatenate([xy[outer[:, 0]], xy[outer[:, 1]], (xy[outer[:, 0]] + xy[outer[:, 1]]) / 2])
    d = shapely.distance(bd_all, shapely.points(pts)).max()
    ensure(d <= tol * 10, f"the mesh boundary leaves the outline by {d:.3g}")
    cen = c[:, :3].mean(axis=1)
    for i, poly in enumerate(regions):
        sel = at == i
        close(f"area of the elements of region {i}", ar[sel].sum(), poly.area, 1e-9, far * size, 1e-11)
        shapely.prepare(poly)
        inside = shapely.contains_xy(poly, cen[sel, 0], cen[sel, 1])
        ensure(inside.all(), f"an element assigned to region {i} lies outside of it")
        dist = shapely.distance(poly, shapely.points(c[sel].reshape(-1, 2))).max()
        ensure(dist <= tol, f"a node of region {i} lies {dist:.3g} outside of it")
        if bounded and sizes[i] > 0:
            big = ar[sel].max()
            ensure(big <= sizes[i] * (1 + 1e-9), f"an element of region {i} has area {big:.6g}, limit {sizes[i]:.6g}")
    close("area of the mesh", ar.sum(), sum(r.area for r in regions), 1e-9, far * size, 1e-11)
    if q is not None:
        ang = min_angles(c[:, :3])
        for e in np.nonzero(ang < q - 1e-4)[0]:
            ensure(exempt(c[e, :3], regions, size),
                   f"an element has a corner of {ang[e]:.4f} degrees, {q} requested")
    return len(tr)


def settings(case):
    """The arguments of create_mesh, some of the defaults left out."""
    kw = {"min_angle": case["mesh"]["ang"], "coarse": case["coarse"]}
    if case["mesh"]["n"] % 2:
        if kw["min_angle"] == 30.0:
            del kw["min_angle"]
        if not kw["coarse"]:
            del kw["coarse"]
    return kw


def check_single(case):
    geom, poly = sut.geom_of(case)
    m = case["mesh"]
    size = gen.mesh_size(poly.area, m["n"])
    args = [size, [size]][case["aslist"]]
    if case["again"]:
        geom.create_mesh(mesh_sizes=poly.area / 3)
    ret = geom.create_mesh(mesh_sizes=args, **settings(case))
    ensure(ret is geom, "create_mesh does not return the geometry")
    ensure(args in (size, [size]), f"create_mesh changed the list of mesh sizes to {args}")
    sharp = input_angle(poly)
    q = None if case["coarse"] or sharp < 60.5 else m["ang"]
    n = check_mesh(geom.mesh, [poly], [size], q, not case["coarse"])
    tags = (case["shape"]["k"], "coarse" if case["coarse"] else "refined",
            "min angle checked" if q else "small input angle")
    return Info(nontrivial=n > 2, tags=tags)


def check_comp(case):
    parts = sut.parts_of(case)
    mats = sut.materials_of(case)
    geom = sut.comp_geom(case, parts, mats)
    ns = case["ns"]
    if case["mode"] == "one":
        n = case["mesh"]["n"]
        a = sum(p.area for p, _ in parts)
        sizes = [gen.mesh_size(a, n)] * len(parts)
        arg = sizes[0]
    elif case["mode"] == "list1":
        a = sum(p.area for p, _ in parts)
        sizes = [gen.mesh_size(a, ns[0])] * len(parts)
        arg = sizes[:1]
    else:
        sizes = [gen.mesh_size(p.area, ns[i % len(ns)]) for i, (p, _) in enumerate(parts)]
        arg = list(sizes)
    given = list(arg) if isinstance(arg, list) else arg
    geom.create_mesh(mesh_sizes=arg, **settings(case))
    ensure(arg == given, f"create_mesh changed the list of mesh sizes {given} to {arg}")
    q = None
    if not case["coarse"] and case["comp"]["parts"]["k"] == "stack":
        q = case["mesh"]["ang"]
    check_mesh(geom.mesh, [p for p, _ in parts], sizes, q, not case["coarse"])
    ensure(len(geom.control_points) == len(parts), "one control point per region expected")
    for i, (cp, (p, _)) in enumerate(zip(geom.control_points, parts)):
        ensure(p.contains(shapely.Point(cp)), f"control point {i} lies outside its region")
    return Info(nontrivial=len(parts) > 1, tags=(case["comp"]["parts"]["k"], case["mode"],
                                                  "coarse" if case["coarse"] else "refined"))


@st.composite
def single(draw):
    c = draw(sut.single(nmax=60))
    c["aslist"] = draw(st.booleans())
    c["coarse"] = draw(st.sampled_from([False, False, False, True]))
    c["again"] = draw(st.booleans())
    c["mesh"]["ang"] = draw(st.sampled_from([30.0, 30.0, 20.0, 25.5, 31.0, 32.0, 5.0]))
    return c


@st.composite
def comp(draw):
    c = draw(sut.comp_case(connected=False))
    c["ns"] = draw(st.lists(st.sampled_from([0, 1, 3, 10, 30]), min_size=1, max_size=5))
    c["mode"] = draw(st.sampled_from(["one", "list1", "each", "each"]))
    c["coarse"] = draw(st.sampled_from([False, False, False, True]))
    return c


@st.composite
def many_case(draw):
    c, m = draw(comp()), draw(sut.many(20))
    c["ns"] = [draw(st.sampled_from([0, 1, 3, 10, 30])) for _ in range(5)]
    return dict(c, comp=m["comp"], place=m["place"])


# ------------------------------------------------- holes that touch at a vertex
@st.composite
def touching_case(draw):
    """A rectangle with a row of diamonds that touch each other or the outline at a vertex."""
    n = draw(st.integers(1, 3))
    return {"r": [draw(st.integers(1, 4)) for _ in range(n)], "h": [draw(st.integers(1, 5)) for _ in range(n)],
            "gap": [draw(st.sampled_from([0, 0, 1, 2])) for _ in range(n)], "node": draw(st.booleans()),
            "q": draw(st.sampled_from([0, 1, 2, 3, 0.1, 0.7])), "s": draw(st.sampled_from([1.0, 0.01, 0.3, 50.0])),
            "turn": [draw(st.integers(0, 3)) for _ in range(n)], "n": draw(st.sampled_from([0, 5, 20, 60])),
            "coarse": draw(st.booleans()), "compound": draw(st.booleans())}


def touching_poly(case):
    x, rings = 0, []
    for r, h, gap, t in zip(case["r"], case["h"], case["gap"], case["turn"]):
        x += gap
        d = [(x, 6), (x + r, 6 - h), (x + 2 * r, 6), (x + r, 6 + h)]
        rings.append(d[t:] + d[:t])
        x += 2 * r
    x += 2
    left = [(0, 6)] if case["node"] else []
    poly = Polygon([(0, 0), (x, 0), (x, 12), (0, 12), *left], rings)
    a = case["q"]
    c, v = (round(math.cos(a * math.pi / 2)), round(math.sin(a * math.pi / 2))) if a in (0, 1, 2, 3) else (math.cos(a), math.sin(a))
    return shapely.transform(poly, lambda xy: xy @ np.array([[c, v], [-v, c]]) * case["s"])


def in_child(fn):
    """Runs fn in a child process, so that a crash of the mesher is reported instead of ending the check."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = b""
        try:
            fn()
        except BaseException as e:  # noqa: BLE001
            out = (str(e) or repr(e)).encode()[:2000]
        os.write(w, out)
        os._exit(1 if out else 0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        msg = f.read().decode()
    _, status = os.waitpid(pid, 0)
    ensure(not os.WIFSIGNALED(status), f"the mesher crashed with signal {os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0}")
    ensure(status == 0, msg or "the child failed")


def check_touching(case):
    poly = touching_poly(case)
    if not poly.is_valid:
        return Info(discard=True)
    p, _ = sut.api()

    def run():
        g = p.Geometry(poly)
        if case["compound"]:
            g = p.CompoundGeometry([g])
        size = gen.mesh_size(poly.area, case["n"])
        g.create_mesh(mesh_sizes=[size], coarse=case["coarse"])
        check_mesh(g.mesh, [q.geom for q in g.geoms] if case["compound"] else [g.geom], [size], None, not case["coarse"])

    in_child(run)
    touch = sum(1 for g in case["gap"] if g == 0)
    return Info(nontrivial=touch > 0, tags=(f"{touch} contacts", "coarse" if case["coarse"] else "refined", "compound" if case["compound"] else "single"))


FIX_T = [{"r": [1, 1], "h": [1, 1], "gap": g, "node": True, "q": 0, "s": 1.0, "turn": [0, 0], "n": 5, "coarse": False, "compound": c}
         for g in ([0, 1], [1, 0]) for c in (False, True)]

FAMILIES = [
    Family("touching", touching_case, check_touching, 300, 3000, fixed=FIX_T,
           rule="a region whose holes touch each other or the outline at a vertex; non-trivial = there is a contact"),
    Family("single", single, check_single, 4000, 40000,
           rule="random polygon with holes, mesh size, angle, coarse flag; non-trivial = more than two elements"),
    Family("regions", comp, check_comp, 4000, 40000,
           rule="random composite with per-region sizes; non-trivial = more than one region"),
    Family("many", many_case, check_comp, 150, 2000, rule="the same for up to 36 connected regions of up to 12 materials"),
]
