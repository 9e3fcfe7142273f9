"""P16: motions and alignment move outlines, holes, regions and control points as requested.

Oracle: an affine model of our own.  Every region is a list of rings of coordinates; each
operation becomes x -> M x + t computed from the model, never from the code under test.
"""

from __future__ import annotations

import math

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import Polygon

from vkit import gen, sut
from vkit.core import Family, Info, Violation, ensure

ASSUMPTIONS = [
    "a compound used as the target of a centre alignment has one elastic modulus, so that its centroid is unambiguous",
    "vertices may differ from the exact motion by the geometry's rounding tolerance per step",
]
ints = st.integers
fl = lambda a, b: st.integers(a * 100, b * 100).map(lambda v: v / 100.0)

pt = st.one_of(st.just([0.0, 0.0]), st.tuples(fl(-3, 3), fl(-3, 3)).map(list))

def default():
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    return DEFAULT_MATERIAL


SIDES = ["left", "right", "bottom", "top"]


def target():
    """Something to align to, in units of the section size."""
    boxy = st.tuples(fl(-3, 3), fl(-3, 3), fl(1, 3), fl(1, 3)).map(list)
    return st.one_of(
        st.fixed_dictionaries({"t": st.just("point"), "p": pt}),
        st.fixed_dictionaries({"t": st.just("geom"), "b": boxy, "tri": st.booleans()}),
        st.fixed_dictionaries({"t": st.just("comp"), "b": boxy, "b2": boxy}),
    )


@st.composite
def op(draw):
    k = draw(st.sampled_from(["shift", "rotate", "mirror", "to", "to", "centre", "shift", "rotate", "mirror"]))
    about = st.one_of(st.just("center"), pt)
    if k == "shift":
        return {"op": k, "x": draw(st.one_of(st.just(None), fl(-5, 5))), "y": draw(st.one_of(st.just(None), fl(-5, 5)))}
    if k == "rotate":
        return {"op": k, "a": draw(st.one_of(st.sampled_from([90, -90, 180, 45, 30, 360, 0]), fl(-400, 400))),
                "rad": draw(st.booleans()), "about": draw(about)}
    if k == "mirror":
        return {"op": k, "ax": draw(st.sampled_from(["x", "y"])), "about": draw(about)}
    if k == "to":
        return {"op": k, "on": draw(st.sampled_from(SIDES)), "inner": draw(st.booleans()), "to": draw(target())}
    return {"op": k, "to": draw(st.one_of(st.just(None), target()))}


@st.composite
def case_(draw, comp=False):
    if comp:
        c = draw(sut.comp_case(connected=draw(st.booleans()), same=draw(st.booleans())))
    else:
        c = draw(sut.single())
        c["mat"] = draw(st.one_of(st.none(), gen.material()))
    c.pop("mesh")
    c["tol"] = draw(st.sampled_from([None, None, 12, 9, 4, 3]))  # decimals relative to the size
    if comp and draw(st.integers(0, 3)) == 0:
        c["tols"] = [draw(st.sampled_from([12, 9, 5, 3])) for _ in range(8)]  # a rounding tolerance for each region
    c["cp"] = [draw(st.booleans()) for _ in range(8)]
    c["assign"] = draw(st.integers(0, 2)) == 0
    c["made"] = draw(st.sampled_from(["list", "plus", "nested"]))
    c["meshed"] = draw(st.integers(0, 5)) == 0
    c["ops"] = draw(st.lists(op(), min_size=1, max_size=6))
    return c


class Model:
    """Regions as rings of coordinates."""

    def __init__(self, parts, cps):
        self.rings = [[np.array(r.coords)[:-1] for r in (p.exterior, *p.interiors)] for p in parts]
        self.cps = [None if c is None else np.array(c, float) for c in cps]

    def move(self, m, t):
        self.rings = [[r @ m.T + t for r in rs] for rs in self.rings]
        self.cps = [None if c is None else m @ c + t for c in self.cps]

    def about(self, m, c):
        c = np.asarray(c, float)
        self.move(m, c - m @ c)

    def bounds(self):
        p = np.vstack([r for rs in self.rings for r in rs])
        return p.min(axis=0), p.max(axis=0)

    def centre(self):
        lo, hi = self.bounds()
        return (lo + hi) / 2

    @staticmethod
    def _moments(ring):
        o = ring[0]
        p = ring - o
        q = np.roll(p, -1, axis=0)
        w = p[:, 0] * q[:, 1] - q[:, 0] * p[:, 1]
        a = w.sum() / 2
        c = ((p + q) * w[:, None]).sum(axis=0) / 6
        return (a, c + a * o) if a > 0 else (-a, -c - a * o)

    def area_moment(self, i):
        a, c = self._moments(self.rings[i][0])
        for h in self.rings[i][1:]:
            b, d = self._moments(h)
            a, c = a - b, c - d
        return a, c

    def centroid(self, weights):
        num, den = np.zeros(2), 0.0
        for i, w in enumerate(weights):
            a, c = self.area_moment(i)
            num, den = num + w * c, den + w * a
        return num / den

    def poly(self, i):
        return Polygon(self.rings[i][0], self.rings[i][1:])


def snapshot(g):
    gs = getattr(g, "geoms", [g])
    return (g.geom.wkb, list(g.points), list(g.facets), list(g.control_points), list(g.holes),
            [(q.geom.wkb, q.material, q.tol, None if q.assigned_control_point is None else q.assigned_control_point.wkb)
             for q in gs], g.mesh is None)


def same_region(got, model, i, mat, tol, digits, cp, where):
    want = model.poly(i)
    pw = np.vstack(model.rings[i])
    rg = [np.array(r.coords)[:-1] for r in (got.geom.exterior, *got.geom.interiors)]
    pg = np.vstack(rg)
    ensure(len(rg) == len(model.rings[i]) and len(pg) == len(pw),
           f"{where}: region {i} has {len(rg)} rings, {len(pg)} vertices; expected {len(model.rings[i])} and {len(pw)}")
    d = np.hypot(pw[:, 0][:, None] - pg[:, 0], pw[:, 1][:, None] - pg[:, 1]).min(axis=1)
    k = int(d.argmax())
    ensure(d[k] <= tol, f"{where}: region {i} has no vertex at {pw[k].tolist()}, nearest is {d[k]:.3g} away (tolerance {tol:.3g})")
    sym = shapely.area(shapely.make_valid(got.geom).symmetric_difference(shapely.make_valid(want)))
    lim = 2 * tol * want.length + 1e-12 * want.area
    ensure(sym <= lim, f"{where}: region {i} differs from the requested one by an area of {sym:.3g} (tolerance {lim:.3g})")
    ensure(got.material == mat, f"{where}: region {i} has material {got.material}, expected {mat}")
    ensure(got.tol == digits, f"{where}: rounding tolerance of region {i} is {got.tol}, expected {digits}")
    ensure(np.array_equal(np.round(pg, digits), pg), f"{where}: vertices of region {i} are not rounded to {digits} decimals")
    ensure(len(got.control_points) == 1, f"{where}: region {i} has control points {got.control_points}")
    c = np.array(got.control_points[0])
    if cp is None:
        ensure(shapely.Point(c).within(want.buffer(tol)), f"{where}: control point {c} of region {i} is outside it")
    else:
        ensure(np.hypot(*(c - cp)) <= tol, f"{where}: control point of region {i} is {c.tolist()}, expected {cp.tolist()}")
    a, mom = model.area_moment(i)
    ext = got.calculate_extents()
    lo, hi = pw.min(axis=0), pw.max(axis=0)
    ensure(max(abs(ext[0] - lo[0]), abs(ext[1] - hi[0]), abs(ext[2] - lo[1]), abs(ext[3] - hi[1])) <= tol,
           f"{where}: extents {ext} of region {i}, expected {(lo[0], hi[0], lo[1], hi[1])}")
    ensure(abs(got.calculate_area() - a) <= lim, f"{where}: area {got.calculate_area()} of region {i}, expected {a}")
    c = np.array(got.calculate_centroid())
    size = max(hi - lo)
    ensure(np.hypot(*(c - mom / a)) <= tol + lim / a * size, f"{where}: centroid {c} of region {i}, expected {mom / a}")
    ensure(abs(got.calculate_perimeter() - want.exterior.length) <= 4 * tol * len(pw),
           f"{where}: perimeter of region {i} is {got.calculate_perimeter()}, expected {want.exterior.length}")


def build_target(to, size, base):
    """(object to pass, bounds or None, centroid)."""
    p, _ = sut.api()
    m0 = np.asarray(base)
    if to["t"] == "point":
        q = m0 + np.array(to["p"]) * size
        return (float(q[0]), float(q[1])), (q, q), q

    def box(b):
        o = m0 + np.array(b[:2]) * size
        return o, o + np.array(b[2:]) * size

    o, e = box(to["b"])
    if to["t"] == "geom":
        if to["tri"]:
            g = p.Geometry(Polygon([o, (e[0], o[1]), (o[0], e[1])]))
            return g, (o, e), o + (e - o) / 3
        return p.Geometry(Polygon([o, (e[0], o[1]), e, (o[0], e[1])])), (o, e), (o + e) / 2
    o2, e2 = box(to["b2"])
    if o2[0] < e[0] + 0.1 * size:
        sh = np.array([e[0] + 0.1 * size - o2[0], 0.0])
        o2, e2 = o2 + sh, e2 + sh
    g = p.CompoundGeometry([p.Geometry(shapely.box(*o, *e)), p.Geometry(shapely.box(*o2, *e2))])
    a1, a2 = np.prod(e - o), np.prod(e2 - o2)
    return g, (np.minimum(o, o2), np.maximum(e, e2)), (a1 * (o + e) / 2 + a2 * (o2 + e2) / 2) / (a1 + a2)


def check(case):
    p, _ = sut.api()
    comp = "comp" in case
    if comp:
        parts = sut.parts_of(case)
        ms = sut.materials_of(case)
        mats = [ms[i] for _, i in parts]
        polys = [g for g, _ in parts]
    else:
        polys = [gen.build_poly(case["shape"], case["place"])]
        mats = [default() if case["mat"] is None else gen.build_material(case["mat"])]
    b = np.array([q.bounds for q in polys])
    size = float(max(b[:, 2:].max(axis=0) - b[:, :2].min(axis=0)))
    digits = 12

    def decimals(t):
        return min(12, max(0, t - math.floor(math.log10(size))))

    if case["tol"] is not None:
        digits = decimals(case["tol"])
    mixed = "tols" in case
    own = [decimals(case["tols"][i % 8]) if mixed else digits for i in range(len(polys))]
    digits = min(own)
    cps = []
    for i, q in enumerate(polys):
        if case["cp"][i % len(case["cp"])]:
            # an own point inside the region: part of the way from the inner point to a vertex
            r = q.representative_point()
            v = q.exterior.coords[i % 3]
            c = ((3 * r.x + v[0]) / 4, (3 * r.y + v[1]) / 4)
            cps.append(c if shapely.Point(c).within(q) else (r.x, r.y))
        else:
            cps.append(None)
    geoms = []
    for n, (q, m, c, t) in enumerate(zip(polys, mats, cps, own)):
        if c is not None and case.get("assign"):
            base = p.Geometry(geom=q, material=m, tol=t)
            was = snapshot(base)
            geoms.append(base.assign_control_point(c))
            ensure(snapshot(base) == was, "assign_control_point changed the geometry it was called on")
        else:
            geoms.append(p.Geometry(geom=q, material=m, control_points=c, tol=t))
    if not comp:
        g = geoms[0]
    elif case["made"] == "plus" and len(geoms) > 1:
        g = geoms[0] + geoms[1]
        for q in geoms[2:]:
            g = g + q
    elif case["made"] == "nested" and len(geoms) > 1:
        g = p.CompoundGeometry([p.CompoundGeometry(geoms[:1]), p.CompoundGeometry(geoms[1:])])
    else:
        g = p.CompoundGeometry(geoms)
    model = Model(polys, cps)
    eps = 10.0 ** -digits
    far = float(np.abs(b).max())
    tol = eps + 1e-13 * far
    start = [10.0 ** -t for t in own]
    fine = [t + 1e-13 * far for t in start] if mixed else None
    if case["meshed"] and digits > 6:
        g.create_mesh(mesh_sizes=0.0)
    tags = []

    def compare(g, where):
        gs = g.geoms if comp else [g]
        ensure(len(gs) == len(polys), f"{where}: {len(gs)} regions, expected {len(polys)}")
        for i, q in enumerate(gs):
            same_region(q, model, i, mats[i], fine[i] if mixed else tol, own[i], model.cps[i], where)
        if comp:
            ensure(len(g.control_points) == len(gs), f"{where}: {len(g.control_points)} control points for {len(gs)} regions")
            for i, q in enumerate(gs):
                ensure(tuple(g.control_points[i]) == tuple(q.control_points[0]), f"{where}: control point {i} of the compound differs from its region's")
            lo, hi = model.bounds()
            ext = g.calculate_extents()
            ensure(max(abs(ext[0] - lo[0]), abs(ext[1] - hi[0]), abs(ext[2] - lo[1]), abs(ext[3] - hi[1])) <= tol,
                   f"{where}: extents {ext}, expected {(lo[0], hi[0], lo[1], hi[1])}")
            a = sum(model.area_moment(i)[0] for i in range(len(polys)))
            ensure(abs(g.calculate_area() - a) <= 1e-9 * a + 2 * tol * sum(q.length for q in polys), f"{where}: area {g.calculate_area()}, expected {a}")

    compare(g, "as built")
    for n, o in enumerate(case["ops"]):
        where = f"after step {n} {o}"
        before, snap = g, snapshot(g)
        if mixed:
            # each step is judged from the regions as they stand, rounded in their own ways
            model = Model([q.geom for q in g.geoms], [None if c is None else q.control_points[0] for q, c in zip(g.geoms, model.cps)])
            tol = 0.0
        lo, hi = model.bounds()
        base = (lo + hi) / 2
        k = o["op"]
        tname = None
        if k == "shift":
            x, y = (o["x"] or 0.0) * size, (o["y"] or 0.0) * size
            kw = {}
            if o["x"] is not None:
                kw["x_offset"] = x
            if o["y"] is not None:
                kw["y_offset"] = y
            g = g.shift_section(**kw)
            model.move(np.eye(2), np.array([x, y]))
        elif k in ("rotate", "mirror"):
            kw = {}
            if o["about"] == "center":
                c = model.centre()
                if n % 2:
                    kw["rot_point" if k == "rotate" else "mirror_point"] = "center"
            else:
                c = base + np.array(o["about"]) * size if n % 3 else np.array(o["about"]) * size
                kw["rot_point" if k == "rotate" else "mirror_point"] = (float(c[0]), float(c[1]))
            if k == "rotate":
                a = math.radians(o["a"])
                if o["rad"] or abs(o["a"]) > 60:  # degrees by default
                    kw["use_radians"] = o["rad"]
                g = g.rotate_section(angle=a if o["rad"] else o["a"], **kw)
                m = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
            else:
                if o["ax"] == "y" or n % 2:  # about a line along x by default
                    kw["axis"] = o["ax"]
                g = g.mirror_section(**kw)
                m = np.diag([1.0, -1.0]) if o["ax"] == "x" else np.diag([-1.0, 1.0])
            model.about(m, c)
        elif k == "to":
            obj, (tlo, thi), _ = build_target(o["to"], size, base)
            ts = None if isinstance(obj, tuple) else snapshot(obj)
            on, inner = o["on"], o["inner"]
            ax = 0 if on in ("left", "right") else 1
            low = on in ("left", "bottom")
            edge = (tlo if low else thi)[ax]
            mine = (hi if low else lo)[ax] if not inner else (lo if low else hi)[ax]
            kw = {"inner": inner} if inner or n % 3 == 0 else {}
            g = g.align_to(obj, on=on, **kw) if n % 2 else g.align_to(other=obj, on=on, **kw)
            t = np.zeros(2)
            t[ax] = edge - mine
            model.move(np.eye(2), t)
            ensure(ts is None or snapshot(obj) == ts, f"{where}: the target of the alignment was changed")
            tname = o["to"]["t"]
        else:
            cen = model.centroid([m.elastic_modulus for m in mats] if comp else [1.0])
            if o["to"] is None:
                obj, tc = None, np.zeros(2)
            else:
                obj, _, tc = build_target(o["to"], size, base)
            g = g.align_center(obj) if obj is not None or n % 2 else g.align_center()
            model.move(np.eye(2), tc - cen)
            tname = "origin" if o["to"] is None else o["to"]["t"]
            tol += eps
            if not mixed:
                # rounded vertices change the weight of thin regions
                w = [m.elastic_modulus for m in mats] if comp else [1.0]
                am = [model.area_moment(i) for i in range(len(w))]
                ea = sum(e * a for e, (a, _) in zip(w, am))
                tol += 0.75 * tol * sum(e * model.poly(i).length * max(np.hypot(*(r - tc).T).max() for r in model.rings[i]) for i, e in enumerate(w)) / ea
        plo, phi = model.bounds()
        far = max(far, float(np.abs(plo).max()), float(np.abs(phi).max()))
        if k in ("rotate", "mirror") and o["about"] != "center":
            far = max(far, float(np.abs(c).max()))
        tol += 1.5 * eps + 4e-15 * far + 1e-14 * size
        if mixed:
            fine = [1.5 * t + 1e-12 + 1e-13 * (far + size) for t in start]
        if digits < 9 and tol > 0.02 * size:
            break
        ensure(snapshot(before) == snap, f"{where}: the original geometry was changed")
        if before.mesh is not None and g.mesh is not None:
            v = np.asarray(g.mesh["vertices"])
            ensure((np.abs(v.min(axis=0) - plo) <= tol).all() and (np.abs(v.max(axis=0) - phi) <= tol).all(),
                   f"{where}: the moved geometry keeps the mesh of the original position")
        compare(g, where)
        tags.append(k + ("" if tname is None else " " + tname))
    lo, hi = model.bounds()
    return Info(nontrivial=len(case["ops"]) >= 2 or any(c is not None for c in cps),
                tags=(*sorted(set(tags)), "assigned control point" if any(c is not None for c in cps) else "automatic control point",
                      "own tolerances" if mixed else "one tolerance", f"{len(polys)} regions" if comp else "single"))


def B(ops, **kw):
    return {"shape": {"k": "plates", "f": "L", "d": 100, "b": 60, "b2": 60, "tf": 8, "tw": 5, "tf2": 10}, "mat": None,
            "place": {"s": 1.0, "rot": 20, "dx": 30, "dy": -10}, "tol": None, "cp": [True], "made": "list", "meshed": False,
            "ops": ops, **kw}


P1 = {"t": "point", "p": [1.3, -0.7]}
FIX_S = [B([{"op": "mirror", "ax": ax, "about": "center"}]) for ax in "xy"] + [
    B([{"op": "to", "on": s, "inner": i, "to": P1}]) for s in SIDES for i in (False, True)]
C1 = {"comp": {"parts": {"k": "stack", "p": [[100, 20, 0], [30, 50, 20], [60, 10, -20]], "m": [0, 1, 0]},
               "mats": [{"E": 1, "nu": 0.2, "fy": 5, "rho": 1.0}, {"E": 10, "nu": 0.3, "fy": 5, "rho": 1.0}]},
      "place": {"s": 1.0, "rot": 90, "dx": 5, "dy": 7}, "tol": None, "cp": [True, False, True], "made": "plus", "meshed": False}
FIX_C = [{**C1, "ops": [{"op": "mirror", "ax": ax, "about": "center"}]} for ax in "xy"] + [
    {**C1, "ops": [{"op": "to", "on": s, "inner": True, "to": P1}]} for s in SIDES]

R = "chain of one to six motions; non-trivial = two or more motions or an assigned control point"
@st.composite
def many_case(draw):
    c, m = draw(case_(True)), draw(sut.many(20))
    return dict(c, comp=m["comp"], place=m["place"])


FAMILIES = [
    Family("single", lambda: case_(False), check, 2600, 26000, rule="one region; " + R, fixed=FIX_S),
    Family("compound", lambda: case_(True), check, 1500, 15000, rule="composite or disconnected regions; " + R, fixed=FIX_C),
    Family("many", many_case, check, 100, 1000, rule="up to 36 connected regions of up to 12 materials; " + R),
]
