"""P17: set operations follow point-set algebra and keep each region's material.

Oracle: membership.  Sample points (a lattice over both operands plus points just either
side of every edge) are classified in every operand before the operation; the result must
contain exactly the points the operation asks for, in regions of the right material.  The
area is compared with the one shapely gives for the *valid* unions of the operands, and
the result must consist of valid, simple regions that do not overlap.
"""

from __future__ import annotations

import operator

import numpy as np
import shapely
import shapely.affinity as aff
from hypothesis import strategies as st
from shapely import Polygon

from vkit import gen, sut
from vkit.core import Family, Info, Violation, ensure

ASSUMPTIONS = [
    "points closer than 1e-6 of the section size to an outline are not judged",
    "the material of |, & and ^ is checked for two plain geometries, where it is the first operand's; it is not documented for compounds",
    "an overlay that GEOS itself refuses as numerically degenerate (nearly coincident edges) is an accepted refusal",
    "results with regions thinner than the rounding tolerance are compared by area only",
]
ints = st.integers
OPS = {"|": operator.or_, "&": operator.and_, "^": operator.xor, "-": operator.sub, "+": operator.add}


@st.composite
def lattice(draw):
    """A rectilinear region on an integer lattice, so that operands touch and coincide."""
    k = draw(st.sampled_from(["box", "box", "frame", "L", "cols", "tri"]))
    x, y = draw(ints(0, 6)), draw(ints(0, 6))
    w, h = draw(ints(1, 6)), draw(ints(1, 6))
    return {"k": k, "x": x, "y": y, "w": w, "h": h, "c": [draw(ints(1, 4)) for _ in range(4)]}


def build_lattice(s):
    x, y, w, h = s["x"], s["y"], s["w"], s["h"]
    if s["k"] == "box":
        return shapely.box(x, y, x + w, y + h)
    if s["k"] == "tri":
        return Polygon([(x, y), (x + w, y), (x, y + h)])
    if s["k"] == "frame":
        w, h = w + 2, h + 2
        return Polygon([(x, y), (x + w, y), (x + w, y + h), (x, y + h)],
                       [[(x + 1, y + 1), (x + w - 1, y + 1), (x + w - 1, y + h - 1), (x + 1, y + h - 1)]])
    if s["k"] == "L":
        return Polygon([(x, y), (x + w + 1, y), (x + w + 1, y + 1), (x + 1, y + 1), (x + 1, y + h + 1), (x, y + h + 1)])
    pts = [(x, y)]
    top = []
    for i, c in enumerate(s["c"]):
        top += [(x + i, y + c), (x + i + 1, y + c)]
    pts += [(x + 4, y), *top[::-1]]
    out = []
    for q in pts:
        if not out or out[-1] != q:
            out.append(q)
    return Polygon(out).simplify(0)


@st.composite
def operand(draw):
    """One region or several, each with a material index."""
    kind = draw(st.sampled_from(["lat", "lat", "lat", "latc", "latc", "gen", "gen", "comp"]))
    if kind == "lat":
        return {"o": kind, "s": draw(lattice()), "m": draw(ints(0, 2))}
    if kind == "latc":
        return {"o": kind, "s": [draw(lattice()) for _ in range(draw(ints(2, 4)))], "m": [draw(ints(0, 2)) for _ in range(4)]}
    at = [draw(ints(-4, 8)), draw(ints(-4, 8))]
    if kind == "gen":
        return {"o": kind, "s": draw(gen.shape()), "at": at, "rot": draw(st.sampled_from([0, 90, 37])), "m": draw(ints(0, 2)),
                "size": draw(ints(1, 8))}
    return {"o": kind, "c": draw(gen.composite(connected=False)), "at": at, "size": draw(ints(2, 8))}


def build_operand(s):
    """[(polygon, material index)] with disjoint interiors."""
    if s["o"] == "lat":
        return [(build_lattice(s["s"]), s["m"])]
    if s["o"] == "latc":
        out, seen = [], None
        for i, q in enumerate(s["s"]):
            g = build_lattice(q)
            if seen is not None:
                g = g - seen
            for part in getattr(g, "geoms", [g]):
                if isinstance(part, Polygon) and part.area > 0:
                    out.append((part, s["m"][i]))
            seen = build_lattice(q) if seen is None else seen | build_lattice(q)
        return out
    k = s["size"] / 100.0
    if s["o"] == "gen":
        g = aff.scale(gen.build_shape(s["s"]), k, k, origin=(0, 0))
        return [(aff.translate(aff.rotate(g, s["rot"], origin=(0, 0)), *s["at"]), s["m"])]
    return [(aff.translate(aff.scale(g, k, k, origin=(0, 0)), *s["at"]), i % 3) for g, i in gen.build_parts(s["c"])]


@st.composite
def case_(draw, n):
    ops = [draw(operand()) for _ in range(n)]
    for i in range(1, n):
        # sometimes the same operand again, exactly or moved by whole units
        if draw(ints(0, 5)) == 0:
            ops[i] = {"o": "again", "of": draw(ints(0, i - 1)), "by": [draw(ints(-2, 2)), draw(ints(-2, 2))], "m": draw(ints(0, 2))}
    return {"operands": ops, "ops": [draw(st.sampled_from("|&^-+" if n == 2 else "|&^--+")) for _ in range(n - 1)],
            "left": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 50.0, 0.01]))}


def mats():
    return [gen.build_material({"E": e, "nu": 0.2, "fy": 10, "rho": 1.0}, name=f"m{i}") for i, e in enumerate((1, 20, 300))]


def default():
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    return DEFAULT_MATERIAL


class Value:
    """An operand: the object, its point set as a valid shapely geometry and membership of the samples."""

    def __init__(self, obj, poly, inside, mat, plain):
        self.obj, self.poly, self.inside, self.mat, self.plain = obj, poly, inside, mat, plain


def regions(obj):
    return list(getattr(obj, "geoms", [obj]))


def snapshot(g):
    return [(q.geom.wkb, q.material, tuple(q.points), tuple(q.facets), tuple(q.control_points), tuple(q.holes), q.tol) for q in regions(g)] + [
        tuple(g.points), tuple(g.facets), tuple(g.control_points), tuple(g.holes), g.geom.wkb]


def check(case):
    p, _ = sut.api()
    ms = [*mats(), default()]  # combining compounds may fall back on the default material
    k = case["scale"]
    built = []
    for o in case["operands"]:
        if o["o"] == "again":
            src = built[o["of"]]
            parts = [(aff.translate(g, o["by"][0], o["by"][1]), (i + o["m"]) % 3) for g, i in src]
        else:
            parts = build_operand(o)
        built.append(parts)
    built = [[(aff.scale(g, k, k, origin=(0, 0)), i) for g, i in parts] for parts in built]
    b = np.array([g.bounds for parts in built for g, _ in parts])
    lo, hi = b[:, :2].min(axis=0), b[:, 2:].max(axis=0)
    size = float(max(hi - lo))
    # samples: a jittered lattice and both sides of every edge
    gx, gy = np.meshgrid((np.arange(23) + 0.317) / 23, (np.arange(23) + 0.621) / 23)
    pts = [np.c_[gx.ravel(), gy.ravel()] * (hi - lo) + lo]
    for parts in built:
        for g, _ in parts:
            for r in (g.exterior, *g.interiors):
                c = np.array(r.coords)
                mid, d = (c[1:] * 0.43 + c[:-1] * 0.57), c[1:] - c[:-1]
                ln = np.hypot(d[:, 0], d[:, 1])
                nrm = np.c_[-d[:, 1], d[:, 0]] / np.maximum(ln, 1e-300)[:, None]
                pts += [mid + 1e-3 * size * nrm, mid - 1e-3 * size * nrm]
    pts = np.vstack(pts)
    if len(pts) > 3000:
        pts = pts[:: len(pts) // 3000 + 1]
    lines = shapely.union_all([g.boundary for parts in built for g, _ in parts])
    P = shapely.points(pts)
    keep = shapely.distance(P, lines) > 1e-6 * size
    pts, P = pts[keep], P[keep]

    def member(g):
        shapely.prepare(g)
        return shapely.contains_properly(g, P)

    vals = []
    for n, parts in enumerate(built):
        if not parts:
            return Info(discard=True)
        geoms = [p.Geometry(g, material=ms[i]) for g, i in parts]
        obj = geoms[0] if len(geoms) == 1 else p.CompoundGeometry(geoms)
        mat = np.full(len(P), -1)
        for g, i in parts:
            mat[member(g)] = i
        poly = shapely.union_all([g for g, _ in parts], grid_size=None)
        vals.append(Value(obj, poly, mat >= 0, mat, len(geoms) == 1))
    tags = []
    nontrivial = False
    acc = vals[0] if case["left"] or len(vals) == 2 else vals[-1]
    rest = vals[1:] if case["left"] or len(vals) == 2 else vals[:-1]
    known = True  # materials of the accumulated value are determined
    for sym, v in zip(case["ops"], rest):
        a, c = (acc, v) if case["left"] or len(vals) == 2 else (v, acc)
        where = f"{sym} of {[o['o'] for o in case['operands']]}"
        if sym == "+" and a.poly.intersection(c.poly).area > 0:
            sym = "-"  # overlapping regions are not a section
        snaps = snapshot(a.obj), snapshot(c.obj)
        try:
            r = OPS[sym](a.obj, c.obj)
        except ValueError as e:
            if isinstance(e.__cause__, shapely.errors.GEOSException):
                return Info(discard=True)  # numerically degenerate overlay, refused
            raise Violation(f"{where} refused: {e!r} caused by {e.__cause__!r}") from None
        ensure((snapshot(a.obj), snapshot(c.obj)) == snaps, f"{where}: an operand was changed")
        ins = {"|": a.inside | c.inside, "&": a.inside & c.inside, "^": a.inside ^ c.inside,
               "-": a.inside & ~c.inside, "+": a.inside | c.inside}[sym]
        poly = {"|": a.poly.union, "&": a.poly.intersection, "^": a.poly.symmetric_difference,
                "-": a.poly.difference, "+": a.poly.union}[sym](c.poly)
        if sym in "-":
            mat = np.where(ins, a.mat, -1)
        elif sym == "+":
            mat = np.where(a.inside, a.mat, np.where(c.inside, c.mat, -1))
        else:
            first = np.unique(a.mat[a.inside])
            mat = np.where(ins, first[0] if len(first) else -2, -1)
            if not (a.plain and c.plain and len(first)):
                known = False
        rs = regions(r)
        got = np.zeros(len(P), int)
        gm = np.full(len(P), -1)
        for i, q in enumerate(rs):
            if q.geom.is_empty:
                continue
            ensure(isinstance(q.geom, Polygon), f"{where}: region {i} is a {type(q.geom).__name__}")
            w = shapely.contains_properly(q.geom, P) if q.geom.is_valid else member(shapely.make_valid(q.geom))
            got += w
            ix = [j for j, m in enumerate(ms) if m == q.material]
            ensure(len(ix) == 1, f"{where}: region {i} has material {q.material}")
            gm[w] = ix[0]
        bad = np.nonzero(got != ins)[0]
        if len(bad):
            j = bad[0]
            raise Violation(f"{where}: point {pts[j].tolist()} lies in {got[j]} regions of the result, expected {int(ins[j])} "
                            f"({len(bad)} such points of {len(pts)})")
        area = sum(q.geom.area for q in rs)
        ensure(abs(area - poly.area) <= 1e-9 * (a.poly.area + c.poly.area), f"{where}: area {area:.12g}, expected {poly.area:.12g}")
        ensure(abs(r.calculate_area() - area) <= 1e-9 * size**2, f"{where}: area of the result is {r.calculate_area()}, its regions make up {area}")
        if known:
            bad = np.nonzero(ins & (gm != mat))[0]
            if len(bad):
                j = bad[0]
                raise Violation(f"{where}: point {pts[j].tolist()} has material m{gm[j]}, expected m{mat[j]} ({len(bad)} such points)")
        else:
            mat = gm
            known = True
        live = [q for q in rs if not q.geom.is_empty]
        ok = not shapely.is_empty(poly) and all(q.geom.is_valid for q in live)
        if len(live) == len(rs) and ok:
            ensure(len(r.control_points) == len(rs), f"{where}: {len(r.control_points)} control points for {len(rs)} regions")
            for i, q in enumerate(rs):
                if q.geom.area > 1e-6 * size**2:
                    ensure(q.geom.buffer(1e-9 * size).contains(shapely.Point(q.control_points[0])),
                           f"{where}: control point {q.control_points[0]} of region {i} is outside it")
                    holes = [shapely.Point(h) for h in q.holes]
                    ensure(len(holes) == len(q.geom.interiors) and not any(q.geom.contains(h) for h in holes),
                           f"{where}: hole points {q.holes} of region {i} with {len(q.geom.interiors)} holes")
        shared = (a.inside & c.inside).any()
        tags.append(sym + (" overlapping" if shared else " touching" if a.poly.distance(c.poly) < 1e-12 * size else " disjoint"))
        if not ins.any() or poly.is_empty:
            tags.append("empty result")
        if not (a.plain and c.plain):
            tags.append("compound operand")
        if (a.inside == c.inside).all():
            tags.append("equal operands")
        elif not (a.inside & ~c.inside).any() or not (c.inside & ~a.inside).any():
            tags.append("nested operands")
        nontrivial |= bool(shared) or sym in "+-"
        acc = Value(r, poly, ins, mat, not hasattr(r, "geoms"))
    return Info(nontrivial=nontrivial, tags=tuple(sorted(set(tags))))


@st.composite
def control_(draw):
    o = [draw(operand()) for _ in range(2)]
    if draw(ints(0, 2)):
        while o[0]["o"] not in ("lat", "gen"):
            o[0] = {"o": "lat", "s": draw(lattice()), "m": draw(ints(0, 2))}
    return {"operands": o, "op": draw(st.sampled_from("||--&^")), "cp": [[draw(ints(0, 2)), draw(ints(1, 99)), draw(ints(1, 99))] for _ in range(5)],
            "other": draw(st.booleans()), "tol": draw(st.sampled_from([None, None, 9, 6])), "assign": draw(st.booleans()),
            "move": [draw(ints(-50, 50)), draw(ints(-50, 50))]}


def interior_point(g, c):
    """A point well inside a region, chosen by two percentages."""
    lo, hi = np.array(g.bounds[:2]), np.array(g.bounds[2:])
    size = float(max(hi - lo))
    for k in range(12):
        q = shapely.Point(*(lo + (hi - lo) * (np.array([c[1], c[2]]) * (1 + 7 * k) % 100) / 100.0))
        if g.contains(q) and g.boundary.distance(q) > 1e-3 * size:
            return (q.x, q.y)
    q = g.representative_point()
    return (q.x, q.y)


def check_control(case):
    p, _ = sut.api()
    ms = mats()
    sym = case["op"]
    a, b = (build_operand(o) for o in case["operands"])
    if not a or not b:
        return Info(discard=True)
    assigned = []

    def make(parts, own):
        out = []
        for n, (g, i) in enumerate(parts):
            kind = case["cp"][n % 5]
            c = interior_point(g, kind) if own and kind[0] else None
            if c is None:
                q = p.Geometry(g, ms[i], tol=case["tol"] or 12)
            elif case["assign"]:
                base = p.Geometry(g, ms[i], tol=case["tol"] or 12)
                was = snapshot(base)
                q = base.assign_control_point(c)
                ensure(snapshot(base) == was, "assign_control_point changed the geometry it was called on")
                ensure(q.geom.equals(base.geom) and q.material == base.material and q.tol == base.tol and q.control_points == [c],
                       f"assign_control_point({c}) gave control points {q.control_points}, material {q.material}, tolerance {q.tol}")
            else:
                q = p.Geometry(g, ms[i], control_points=c, tol=case["tol"] or 12)
            out.append((q, c))
        return out

    ga, gb = make(a, True), make(b, case["other"])
    one = lambda gs: gs[0][0] if len(gs) == 1 else p.CompoundGeometry([q for q, _ in gs])
    A, B = one(ga), one(gb)
    try:
        r = OPS[sym](A, B)
    except ValueError as e:
        if isinstance(e.__cause__, shapely.errors.GEOSException):
            return Info(discard=True)
        raise Violation(f"{sym} refused: {e!r} caused by {e.__cause__!r}") from None
    where = f"{sym} of {[o['o'] for o in case['operands']]}"
    tags = [sym]
    live = [q for q in regions(r) if not q.geom.is_empty and q.geom.area > 1e-9]
    if not live or not all(isinstance(q.geom, Polygon) and q.geom.is_valid for q in live):
        return Info(discard=True)
    dist = lambda q, c: q.geom.boundary.distance(shapely.Point(c))
    for q in live:
        ensure(len(q.control_points) == 1 and q.geom.buffer(1e-9).contains(shapely.Point(q.control_points[0])),
               f"{where}: control point {q.control_points} is outside its region")
    near = lambda x, y: abs(x[0] - y[0]) + abs(x[1] - y[1]) < 1e-12 * (1 + abs(y[0]) + abs(y[1]))
    nontrivial = False
    kept = None
    if sym == "-" and len(ga) >= 1:
        # region by region: kept where the point is still inside and the region stays in one piece
        other = shapely.union_all([g for g, _ in b])
        for (q, c), (g, _) in zip(ga, a):
            left = g - other
            if c is None or not isinstance(left, Polygon) or left.is_empty or left.area < 1e-6:
                continue
            mine = [w for w in live if w.geom.buffer(1e-9).contains(left.representative_point())]
            if len(mine) != 1:
                continue
            d = left.boundary.distance(shapely.Point(c))
            if d < 1e-6:
                continue
            if left.contains(shapely.Point(c)):
                ensure(near(mine[0].control_points[0], c), f"{where}: the assigned control point {c} is still inside, but is now {mine[0].control_points[0]}")
                tags.append("still inside")
                kept = (mine[0], c) if len(ga) == 1 and len(live) == 1 else kept
            else:
                tags.append("no longer inside")
            nontrivial = True
    elif sym == "|" and len(ga) == 1 and not hasattr(r, "geoms") and ga[0][1] is not None:
        c = ga[0][1]
        ensure(near(r.control_points[0], c), f"{where}: the assigned control point {c} became {r.control_points[0]}")
        ensure(r.tol == A.tol, f"{where}: rounding to {A.tol} decimals became {r.tol}")
        nontrivial, kept = True, (r, c)
        tags.append("united")
    elif sym in "&^":
        for q in live:
            auto = p.Geometry(q.geom, tol=q.tol).control_points[0]
            ensure(near(q.control_points[0], auto), f"{where}: control point {q.control_points[0]}, the automatic one is {auto}")
        nontrivial = any(c is not None for _, c in ga + gb)
    if kept is not None:
        t = np.array(case["move"], float)
        m = r.shift_section(*t)
        q = regions(m)[0] if len(regions(r)) == 1 else None
        if q is not None:
            want = np.array(kept[1]) + t
            ensure(np.hypot(*(np.array(q.control_points[0]) - want)) < 1e-9, f"{where}, then shifted by {t}: control point {q.control_points[0]}, expected {want}")
        tags.append("moved on")
    return Info(nontrivial=nontrivial, tags=tuple(sorted(set(tags))))


def L(x, y, w, h, m=0, k="box"):
    return {"o": "lat", "s": {"k": k, "x": x, "y": y, "w": w, "h": h, "c": [1, 2, 3, 1]}, "m": m}


def C(*ls):
    return {"o": "latc", "s": [q["s"] for q in ls], "m": [q["m"] for q in ls] + [0] * (4 - len(ls))}


def F(ops, *operands, left=True):
    return {"operands": list(operands), "ops": list(ops), "left": left, "scale": 1.0}


FIXED = [
    *[F([o], L(0, 0, 3, 3), L(0, 0, 3, 3, 1)) for o in OPS],            # equal
    *[F([o], L(0, 0, 3, 3), L(3, 0, 3, 3, 1)) for o in OPS],            # touching along an edge
    *[F([o], L(0, 0, 3, 3), L(3, 3, 3, 3, 1)) for o in OPS],            # touching at a vertex
    *[F([o], L(0, 0, 5, 5), L(1, 1, 2, 2, 1)) for o in OPS],            # nested
    *[F([o], L(0, 0, 1, 1), L(4, 4, 1, 1, 1)) for o in OPS],            # disjoint
    *[F(["-", o], L(0, 0, 3, 3), L(0, 0, 3, 3, 1), L(1, 1, 4, 4, 2)) for o in OPS],   # empty first operand
    *[F(["-", o], L(0, 0, 3, 3), L(0, 0, 3, 3, 1), L(1, 1, 4, 4, 2), left=False) for o in OPS],
    *[F([o], C(L(0, 0, 3, 3), L(3, 0, 2, 3, 1)), L(1, 1, 5, 1, 2)) for o in OPS],
    *[F([o], L(1, 1, 5, 1, 2), C(L(0, 0, 3, 3), L(3, 0, 2, 3, 1))) for o in OPS],
    *[F([o], C(L(0, 0, 3, 3), L(3, 0, 2, 3, 1)), C(L(2, 0, 3, 3), L(5, 0, 2, 3, 1))) for o in OPS],
    F(["-"], C(L(0, 0, 3, 3), L(3, 0, 2, 3, 1)), L(3, 0, 2, 3)),        # a whole region removed
    F(["-"], C(L(0, 0, 3, 3), L(3, 0, 2, 3, 1)), L(0, 1, 6, 1)),        # every region cut in two
]

NEST = {"o": "comp", "c": {"parts": {"k": "nest", "o": {"k": "star", "r": [25] * 4, "j": [0] * 4}, "f": [50, 25], "void": False, "m": [0, 0, 0]},
                           "mats": []}, "at": [0, 0], "size": 8}
FIXED += [F([o], a, b) for o in "|&^-" for a, b in ((NEST, NEST), (L(0, 0, 3, 3), NEST), (NEST, L(0, 0, 3, 3)))]

R = "non-trivial = the operands overlap or the operation is a subtraction or an addition"
FAMILIES = [
    Family("pair", lambda: case_(2), check, 2600, 26000, rule="two operands, lattice or general, single or compound; " + R, fixed=FIXED),
    Family("chain", lambda: st.integers(3, 4).flatmap(case_), check, 1500, 15000, rule="three or four operands combined from the left or right; " + R),
    Family("control point", control_, check_control, 1500, 15000,
           rule="an operand with an assigned control point; non-trivial = the rule for the control point applies to the result"),
]
