"""P20: CAD import reproduces the drawn outlines.

Oracle: the drawing is generated from outlines we know.  Files are written with the CAD
libraries themselves (ezdxf, rhino3dm), in a scratch directory, in many equivalent ways:
closed polylines, loose lines in any order and direction, circles, arcs and bulges.  The
imported regions are matched one by one with the regions expected by the even-odd rule.
"""

from __future__ import annotations

import math
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import Polygon

from vkit import gen, sut
from vkit.core import Family, Info, Violation, close, ensure

ASSUMPTIONS = [
    "DXF entities: LINE, LWPOLYLINE without bulges, 2D POLYLINE with bulges, CIRCLE, ARC, SPLINE of degree 1 to 3; the DXF reader in use (cad_to_shapely) ignores the bulges of LWPOLYLINE entities",
    "drawn outlines do not cross; they touch only along shared lines (cells) or at corners of a hole (islands)",
    "arcs: the imported curve may leave the true arc by the sagitta of one and a half segments",
]
ints = st.integers


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="p20_")
        return pathlib.Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def quiet(fn, *a, **k):
    import logging

    logging.disable(logging.CRITICAL)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    finally:
        logging.disable(logging.NOTSET)


def regions_of(g):
    return [q.geom for q in getattr(g, "geoms", [g])]


def match(got, want, size, tol, what):
    """Regions one to one, to an area tolerance of tol * perimeter."""
    ensure(len(got) == len(want), f"{what}: {len(got)} regions with areas {[round(q.area, 6) for q in got]}, drawn were {len(want)} with {[round(q.area, 6) for q in want]}")
    left = list(range(len(want)))
    for q in got:
        ensure(q.is_valid and not q.is_empty, f"{what}: invalid region")
        d = [(q.symmetric_difference(want[i]).area, i) for i in left]
        s, i = min(d)
        w = want[i]
        allow = 1e-9 * size**2 + tol * w.length
        ensure(s <= allow, f"{what}: a region differs from the nearest drawn one by an area of {s:.5g} (allowed {allow:.3g}); its area is {q.area:.6g}, drawn {w.area:.6g}")
        ensure(len(q.interiors) == len(w.interiors), f"{what}: a region with {len(q.interiors)} holes, drawn {len(w.interiors)}")
        left.remove(i)


# ------------------------------------------------------------------------ drawing
@st.composite
def outline(draw):
    k = draw(st.sampled_from(["poly", "poly", "poly", "circle", "rounded", "slot", "bulged", "spline"]))
    o = {"k": k}
    if k == "poly":
        o["s"] = draw(st.one_of(gen.star(), gen.columns(), gen.plates().filter(lambda s: s["f"] != "box")))
    elif k == "circle":
        o["parts"] = draw(ints(0, 4))  # 0: CIRCLE, otherwise that many arcs
        o["a"] = draw(ints(0, 359))
    elif k == "rounded":
        o.update(w=draw(ints(30, 100)), h=draw(ints(30, 100)), r=draw(ints(3, 14)))
    elif k == "slot":
        o.update(w=draw(ints(20, 80)), r=draw(ints(5, 30)))
    elif k == "bulged":
        o["s"] = draw(gen.star(4, 7))
        o["b"] = [draw(st.sampled_from([0, 0, 0.1, 0.25, -0.1, 0.5])) for _ in range(7)]
    else:
        o["s"] = draw(gen.star(5, 9))
        o["deg"] = draw(ints(1, 3))
    o["how"] = draw(st.sampled_from(["lw", "lw", "pl", "lines", "open", "mixed"]))
    o["perm"] = draw(st.permutations(range(12)))
    o["rev"] = [draw(st.booleans()) for _ in range(12)]
    return o


@st.composite
def dxf_case(draw):
    return {"top": [draw(tree(2)) for _ in range(draw(ints(1, 3)))], "scale": draw(st.sampled_from([1.0, 10.0, 0.02])),
            "at": [draw(ints(-300, 300)), draw(ints(-300, 300))], "rot": draw(st.sampled_from([0, 0, 17, 90, 201])),
            "deg": draw(st.sampled_from([1.0, 1.0, 5.0, 0.5, 10.0])), "delta": draw(st.sampled_from([0.1, 0.02])),
            "layer": draw(st.booleans()), "junk": draw(st.booleans()), "shuffle": draw(st.booleans()), "path": draw(st.booleans())}


@st.composite
def tree(draw, depth):
    t = {"o": draw(outline()), "in": []}
    if depth and draw(ints(0, 2)) > 0:
        t["in"] = [draw(tree(depth - 1)) for _ in range(draw(ints(1, 2)))]
    return t


def base_poly(o):
    """The outline in its own frame, with curves drawn very finely."""
    k = o["k"]
    if k in ("poly", "bulged", "spline"):
        return gen.build_shape(o["s"])
    if k == "circle":
        return Polygon([(50 * math.cos(a), 50 * math.sin(a)) for a in np.linspace(0, 2 * math.pi, 2000, endpoint=False)])
    if k == "rounded":
        r = o["r"]
        return shapely.box(r, r, o["w"] - r, o["h"] - r).buffer(r, quad_segs=500)
    r = o["r"]
    return shapely.LineString([(0, 0), (o["w"], 0)]).buffer(r, quad_segs=500)


def bulge_pts(p, q, b, n=400):
    """Points strictly between p and q on the arc with bulge b (left of the chord is negative y)."""
    p, q = np.array(p, float), np.array(q, float)
    if b == 0:
        return []
    th = 4 * math.atan(b)
    u = np.hypot(*(q - p))
    r = u / (2 * math.sin(th / 2))
    # positive bulge: counter-clockwise arc from p to q, centre to the left of the chord for th < pi
    mid, nrm = (p + q) / 2, np.array([-(q - p)[1], (q - p)[0]]) / u
    c = mid + nrm * r * math.cos(th / 2)
    a0 = math.atan2(*(p - c)[::-1])
    return [tuple(c + abs(r) * np.array([math.cos(a0 + th * t), math.sin(a0 + th * t)])) for t in np.linspace(0, 1, n)[1:-1]]


class Drawing:
    """Collects drawing commands; everything is placed by a similarity."""

    def __init__(self, case):
        self.case = case
        self.ents = []
        self.arc = 0.0  # largest radius drawn with segments
        self.k = 0

    def place(self, poly, m):
        """Poly scaled and moved by m = (s, dx, dy), then by the drawing's similarity."""
        g = shapely.affinity.affine_transform(poly, [m[0], 0, 0, m[0], m[1], m[2]])
        c = self.case
        g = shapely.affinity.rotate(g, c["rot"], origin=(0, 0))
        return shapely.affinity.affine_transform(g, [c["scale"], 0, 0, c["scale"], c["at"][0], c["at"][1]])

    def pt(self, p, m):
        g = self.place(shapely.Point(p), m)
        return (g.x, g.y)

    def add(self, o, m):
        """Draw one outline and return the polygon it encloses."""
        c = self.case
        s = m[0] * c["scale"]
        k, e = o["k"], []
        P = lambda p: self.pt(p, m)  # noqa: E731
        ang = c["rot"]
        want = self.place(base_poly(o), m)
        if k == "poly":
            pts = [P(p) for p in list(base_poly(o).exterior.coords)[:-1]]
            n = len(pts)
            how = o["how"]
            if how in ("lw", "pl"):
                e.append((how, pts, True))
            elif how == "open":  # open polyline that returns to its start
                e.append(("lw", [*pts, pts[0]], False))
            elif how == "lines":
                e += [("line", pts[i], pts[(i + 1) % n]) for i in range(n)]
            else:
                h = n // 2
                e.append(("pl", pts[: h + 1], False))
                e += [("line", pts[i], pts[(i + 1) % n]) for i in range(h, n)]
        elif k == "circle":
            q = P((0, 0))
            if o["parts"] == 0:
                e.append(("circle", q, 50 * s))
            else:
                n = max(o["parts"], 2)
                e += [("arc", q, 50 * s, (o["a"] + 360 * i / n) % 360, (o["a"] + 360 * (i + 1) / n) % 360) for i in range(n)]
            self.arc = max(self.arc, 50 * s)
        elif k == "rounded":
            w, h, r = o["w"], o["h"], o["r"]
            e += [("line", P((r, 0)), P((w - r, 0))), ("line", P((w, r)), P((w, h - r))), ("line", P((w - r, h)), P((r, h))), ("line", P((0, h - r)), P((0, r)))]
            for x, y, a in ((r, r, 180), (w - r, r, 270), (w - r, h - r, 0), (r, h - r, 90)):
                e.append(("arc", P((x, y)), r * s, (a + ang) % 360, (a + 90 + ang) % 360))
            self.arc = max(self.arc, r * s)
        elif k == "slot":
            w, r = o["w"], o["r"]
            e += [("line", P((0, -r)), P((w, -r))), ("line", P((w, r)), P((0, r)))]
            e += [("arc", P((0, 0)), r * s, (90 + ang) % 360, (270 + ang) % 360), ("arc", P((w, 0)), r * s, (270 + ang) % 360, (90 + ang) % 360)]
            self.arc = max(self.arc, r * s)
        elif k == "bulged":
            pts = [P(p) for p in list(base_poly(o).exterior.coords)[:-1]]
            n = len(pts)
            b = [o["b"][i % 7] for i in range(n)]
            ring = []
            for i in range(n):
                ring.append(pts[i])
                q = bulge_pts(pts[i], pts[(i + 1) % n], b[i])
                ring += q
                if b[i]:
                    u = math.hypot(pts[i][0] - pts[(i + 1) % n][0], pts[i][1] - pts[(i + 1) % n][1])
                    self.arc = max(self.arc, abs(u / (2 * math.sin(2 * math.atan(b[i])))))
            want = Polygon(ring)
            e.append(("bulge", pts, b))
        else:  # closed spline
            pts = [P(p) for p in list(base_poly(o).exterior.coords)]
            deg = o["deg"]
            e.append(("spline", pts, deg))
            want = Polygon(bspline(pts, deg, c["delta"]))
        if not want.is_valid or want.area <= 0:
            return None
        e = [e[i] for i in sorted(range(len(e)), key=lambda i: o["perm"][i % 12])]
        out = []
        for i, x in enumerate(e):
            if x[0] == "line" and o["rev"][i % 12]:
                x = ("line", x[2], x[1])
            out.append(x)
        self.ents += out
        return want


def knots(n, deg):
    """Clamped uniform knot vector."""
    inner = n - deg - 1
    return [0.0] * (deg + 1) + [(i + 1) / (inner + 1) for i in range(inner)] + [1.0] * (deg + 1)


def bspline(pts, deg, delta):
    from scipy.interpolate import BSpline

    pts = np.array(pts, float)
    t = np.linspace(0, 1, 1001 if deg > 1 else 2)
    if deg == 1:
        # sampled at multiples of delta: the corners of a polyline are cut
        t = np.linspace(0, 1, 20001)
    k = BSpline(np.array(knots(len(pts), deg)), pts, deg)
    return k(t)[:-1]


def build(d, tree_, m, want, depth=0):
    """Draw an outline tree; children sit inside their parent."""
    poly = d.add(tree_["o"], m)
    if poly is None:
        return None
    kids = []
    if tree_["in"]:
        base = base_poly(tree_["o"])
        # place the children in the parent's inscribed circle, side by side
        c = shapely.maximum_inscribed_circle(base, tolerance=0.5)
        if tree_["o"]["k"] == "spline" or tree_["o"]["k"] == "bulged":
            f = 0.4
        else:
            f = 0.9
        (cx, cy), r = c.coords[0], c.length * f
        n = len(tree_["in"])
        for i, t in enumerate(tree_["in"]):
            b = base_poly(t["o"])
            x0, y0, x1, y1 = b.bounds
            if n == 1:
                rr, ox = r * 0.8, cx
            else:
                rr, ox = r * 0.42, cx + (i - 0.5) * r
            k = rr / (0.5 * math.hypot(x1 - x0, y1 - y0)) * (0.7 if t["o"]["k"] in ("bulged",) else 1)
            mx, my = (x0 + x1) / 2, (y0 + y1) / 2
            mm = (m[0] * k, m[1] + m[0] * (ox - k * mx), m[2] + m[0] * (cy - k * my))
            q = build(d, t, mm, want, depth + 1)
            if q is None:
                return None
            if not poly.contains(q) or poly.exterior.distance(q) < 1e-3 * math.sqrt(q.area):
                return None
            for z in kids:
                if z.distance(q) < 1e-3 * math.sqrt(q.area):
                    return None
            kids.append(q)
    if depth % 2 == 0:
        want.append(Polygon(poly.exterior, [q.exterior for q in kids]))
    return poly


def write_dxf(path, ents, layer, junk, extra):
    import ezdxf

    doc = ezdxf.new()
    m = doc.modelspace()
    for i, e in enumerate(ents):
        at = {"layer": f"L{i % 3}"} if layer else {}
        if e[0] == "line":
            m.add_line(e[1], e[2], dxfattribs=at)
        elif e[0] == "lw":
            m.add_lwpolyline(e[1], close=e[2], dxfattribs=at)
        elif e[0] == "pl":
            m.add_polyline2d(e[1], close=e[2], dxfattribs=at)
        elif e[0] == "circle":
            m.add_circle(e[1], e[2], dxfattribs=at)
        elif e[0] == "arc":
            m.add_arc(e[1], e[2], e[3], e[4], dxfattribs=at)
        elif e[0] == "bulge":
            m.add_polyline2d([(*p, b) for p, b in zip(e[1], e[2])], format="xyb", close=True, dxfattribs=at)
        elif e[0] == "spline":
            s = m.add_spline(degree=e[2], dxfattribs={**at, "flags": 8})
            s.control_points = [(*p, 0) for p in e[1]]
            s.knots = knots(len(e[1]), e[2])
    if junk:  # things that are no outlines
        m.add_text("section", dxfattribs={"insert": extra})
        m.add_point(extra)
        m.add_line(extra, (extra[0] + 1, extra[1] + 2))
    doc.saveas(str(path))


def check_dxf(case):
    p, _ = sut.api()
    d = Drawing(case)
    want, tops = [], []
    x = 0.0
    for t in case["top"]:
        b = base_poly(t["o"]).bounds
        q = build(d, t, (1.0, x - b[0], -b[1]), want)
        if q is None or any(z.distance(q) < 1e-3 * math.sqrt(q.area) for z in tops):
            return Info(discard=True)
        tops.append(q)
        x += b[2] - b[0] + 40
    ents = d.ents[::-1] if case["shuffle"] else d.ents
    ev = shapely.union_all(want).bounds
    size = max(ev[2] - ev[0], ev[3] - ev[1])
    if min(q.area for q in want) < 1e-6 * size**2:
        return Info(discard=True)
    # every segment of an arc leaves it by at most its sagitta; the reader drops up to two segments
    dev = d.arc * (1 - math.cos(math.radians(case["deg"] * 1.5)))
    kinds = {e[0] for e in ents}
    if "arc" in kinds or "bulge" in kinds or "circle" in kinds:
        # at least a dozen segments per quarter for the reader to be meaningful
        if case["deg"] > 5:
            dev *= 3
    if any(t_["k"] == "spline" for t_ in all_outlines(case)):
        dev = max(dev, spline_dev(case, d))
    with Scratch() as tmp:
        path = tmp / "a.dxf"
        write_dxf(path, ents, case["layer"], case["junk"], (ev[0] - 3 * size, ev[1]))
        try:
            g = quiet(p.Geometry.from_dxf, path if case["path"] else str(path), spline_delta=case["delta"], degrees_per_segment=case["deg"])
        except Exception as e:
            raise Violation(f"a drawing with {len(want)} regions was refused: {e!r}") from None
    ensure(isinstance(g, p.CompoundGeometry) == (len(want) > 1), f"{len(want)} regions were imported as a {type(g).__name__}")
    match(regions_of(g), want, size, dev, "dxf")
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    for q in getattr(g, "geoms", [g]):
        ensure(q.material == DEFAULT_MATERIAL, f"imported with the material {q.material.name}")
    return Info(nontrivial=len(kinds) > 1 or len(want) > 1 or any(q.interiors for q in want),
                tags=(f"{min(len(want), 4)} regions", f"{min(sum(len(q.interiors) for q in want), 3)} holes", *sorted(kinds)))


def all_outlines(case):
    out, todo = [], list(case["top"])
    while todo:
        t = todo.pop()
        out.append(t["o"])
        todo += t["in"]
    return out


def spline_dev(case, d):
    """A chord of the sampled spline leaves the curve by less than half the largest arc step."""
    dev = 0.0
    for e in d.ents:
        if e[0] == "spline":
            pts = np.array(e[1])
            length = np.hypot(*np.diff(pts, axis=0).T).sum()
            # parameter steps of delta; the speed is at most degree * max control leg * number of spans
            leg = np.hypot(*np.diff(pts, axis=0).T).max() * (len(pts) - e[2]) * e[2]
            dev = max(dev, min(leg * case["delta"] * 0.5, length * 0.1))
    return dev


# -------------------------------------------------------------------- shared lines
@st.composite
def cells_case(draw):
    nx, ny = draw(ints(1, 3)), draw(ints(1, 3))
    return {"w": [draw(ints(2, 9)) for _ in range(nx)], "h": [draw(ints(2, 9)) for _ in range(ny)], "at": [draw(ints(-9, 9)), draw(ints(-9, 9))],
            "rev": [draw(st.booleans()) for _ in range(24)], "perm": draw(st.permutations(range(24))), "hole": draw(st.booleans())}


def check_cells(case):
    """A grid drawn line by line: every cell is a region."""
    p, _ = sut.api()
    X = np.concatenate([[0], np.cumsum(case["w"])]) + case["at"][0]
    Y = np.concatenate([[0], np.cumsum(case["h"])]) + case["at"][1]
    ents = []
    for j in range(len(Y)):
        ents += [("line", (float(X[i]), float(Y[j])), (float(X[i + 1]), float(Y[j]))) for i in range(len(X) - 1)]
    for i in range(len(X)):
        ents += [("line", (float(X[i]), float(Y[j])), (float(X[i]), float(Y[j + 1]))) for j in range(len(Y) - 1)]
    ents = [("line", e[2], e[1]) if case["rev"][k % 24] else e for k, e in enumerate(ents)]
    ents = [ents[k] for k in sorted(range(len(ents)), key=lambda k: case["perm"][k % 24])]
    want = [shapely.box(X[i], Y[j], X[i + 1], Y[j + 1]) for i in range(len(X) - 1) for j in range(len(Y) - 1)]
    if case["hole"]:
        x0, y0 = X[0] + 0.5, Y[0] + 0.25
        h = [(x0, y0), (x0 + 1, y0), (x0 + 1, y0 + 1)]
        ents.insert(len(ents) // 2, ("lw", h, True))
        want[0] = Polygon(want[0].exterior, [h])
    size = float(max(X[-1] - X[0], Y[-1] - Y[0]))
    with Scratch() as tmp:
        path = tmp / "a.dxf"
        write_dxf(path, ents, False, False, (0, 0))
        try:
            g = quiet(p.Geometry.from_dxf, str(path))
        except Exception as e:
            raise Violation(f"a grid of {len(want)} cells was refused: {e!r}") from None
    match(regions_of(g), want, size, 0.0, "grid of lines")
    return Info(nontrivial=len(want) > 1, tags=(f"{len(want)} cells",))


# ------------------------------------------------------------ outlines that touch
@st.composite
def touch_case(draw):
    return {"n": draw(ints(4, 9)), "e": draw(ints(5, 10)), "rot": draw(ints(0, 359)), "at": [draw(ints(-300, 300)), draw(ints(-300, 300))],
            "hole": draw(ints(3, 7)), "scale": draw(st.sampled_from([1.0, 10.0, 0.02])),
            "tips": draw(st.lists(st.tuples(ints(0, 8), ints(2, 7), ints(1, 3), st.booleans()), min_size=0, max_size=3, unique_by=lambda t: t[0])),
            "how": [draw(st.sampled_from(["lw", "pl", "lines"])) for _ in range(5)], "perm": draw(st.permutations(range(40)))}


def check_touch(case):
    """Islands in a hole whose tips lie on corners of the hole, with a void of their own or none."""
    p, _ = sut.api()
    n, S = case["n"], 40.0 * case["scale"]
    ring = np.array([[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n) * case["e"] / 10] for i in range(n)])
    a = math.radians(case["rot"])
    ring = S * ring @ np.array([[math.cos(a), math.sin(a)], [-math.sin(a), math.cos(a)]])
    hole = ring * case["hole"] / 10
    want, rings = [Polygon(ring, [hole])], [ring, hole]
    done = []
    for at, length, wide, void in case["tips"]:
        if at % n in done:
            continue
        done.append(at % n)
        v = hole[at % n]
        q = v * (1 - 0.1 * length)
        side = np.array([-v[1], v[0]]) * 0.03 * wide
        tri = np.array([v, q + side, q - side])
        if length * 0.1 > 0.8 or any(Polygon(tri).distance(w) < 1e-6 * S for w in want[1:]) or not Polygon(hole).buffer(1e-9 * S).contains(Polygon(tri)):
            return Info(discard=True)
        inner = tri.mean(axis=0) + 0.4 * (tri - tri.mean(axis=0))
        want.append(Polygon(tri, [inner] if void else []))
        rings += [tri, inner] if void else [tri]
    rings = [r + np.array(case["at"]) for r in rings]
    want = [shapely.affinity.translate(w, *case["at"]) for w in want]
    ents = []
    for k, r in enumerate(rings):
        pts, how = [tuple(map(float, q)) for q in r], case["how"][k % 5]
        if how == "lines":
            ents += [("line", pts[i], pts[(i + 1) % len(pts)]) for i in range(len(pts))]
        else:
            ents.append((how, pts, True))
    ents = [ents[k] for k in sorted(range(len(ents)), key=lambda k: case["perm"][k % 40])]
    with Scratch() as tmp:
        path = tmp / "a.dxf"
        write_dxf(path, ents, False, False, (0, 0))
        try:
            g = quiet(p.Geometry.from_dxf, str(path))
        except Exception as e:
            raise Violation(f"outlines that touch were refused: {e!r}") from None
    match(regions_of(g), want, 2 * S, 0.0, "touching outlines")
    return Info(nontrivial=len(done) > 0, tags=(f"{len(done)} tips",))


# -------------------------------------------------------------------------- rhino
@st.composite
def rhino_case(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    items = []
    for _ in range(n):
        items.append({"s": draw(st.one_of(gen.star(4, 8), gen.columns(), gen.plates(), gen.holed()))})
    return {"items": items, "plane": draw(st.sampled_from(["xy", "xy", "yz", "zx", "tilt"])), "level": draw(ints(-20, 20)),
            "scale": draw(st.sampled_from([1.0, 0.1, 10.0])), "at": [draw(ints(-300, 300)), draw(ints(-300, 300))],
            "parallel": draw(st.booleans()), "via": draw(st.sampled_from(["file", "file", "pathlib", "encoding"])), "other": draw(st.booleans()),
            "compound": draw(st.booleans())}


FRAMES = {"xy": ((1, 0, 0), (0, 1, 0)), "yz": ((0, 1, 0), (0, 0, 1)), "zx": ((0, 0, 1), (1, 0, 0)), "tilt": ((1, 2, 2), (2, 1, -2))}


def brep_of(poly, e1, e2, e3, level):
    """A planar single surface brep (the cap of an extrusion), exactly oriented."""
    import rhino3dm as rh

    def curve(ring):
        pts = list(ring.coords)
        pl = rh.Polyline(len(pts))
        for x, y in pts:
            pl.Add(x, y, 0)
        return pl.ToPolylineCurve()

    if poly.interiors:
        ex = rh.Extrusion.CreateWithPlane(curve(poly.exterior), rh.Plane.WorldXY(), 5.0, True)
        for r in poly.interiors:
            if not ex.AddInnerProfile(curve(r)):
                return None
        b = ex.ToBrep(False)
        n = sum(len(r.coords) - 1 for r in (poly.exterior, *poly.interiors))
        caps = [f for f in (b.Faces[i].DuplicateFace(False) for i in range(len(b.Faces))) if len(f.Edges) == n]
        caps = [c for c in caps if abs(c.GetBoundingBox().Max.Z) < 1e-12]
        if len(caps) != 1:
            return None
        brep = caps[0]
    else:
        brep = rh.Brep.CreateTrimmedPlane(rh.Plane.WorldXY(), curve(poly.exterior))
    t = rh.Transform(1.0)
    cols = (e1, e2, e3)
    off = np.array(e3) * level
    for i in range(3):
        for j in range(3):
            setattr(t, f"M{i}{j}", float(cols[j][i]))
        setattr(t, f"M{i}3", float(off[i]))
    brep.Transform(t)
    return brep


def check_rhino(case):
    import rhino3dm as rh

    p, _ = sut.api()
    v1, v2 = (np.array(v, float) for v in FRAMES[case["plane"]])
    e1 = v1 / np.linalg.norm(v1)
    e3 = np.cross(v1, v2) / np.linalg.norm(np.cross(v1, v2))
    e2 = np.cross(e3, e1)
    want, x = [], 0.0
    breps = []
    for it in case["items"]:
        q = gen.build_shape(it["s"])
        b = q.bounds
        q = shapely.affinity.affine_transform(q, [case["scale"], 0, 0, case["scale"], case["scale"] * (x - b[0]) + case["at"][0], case["at"][1]])
        x += b[2] - b[0] + 30
        br = brep_of(q, e1, e2, e3, case["level"])
        if br is None or not br.IsValid:
            return Info(discard=True)
        want.append(q)
        breps.append(br)
    size = max(b[2] - b[0] for b in [shapely.union_all(want).bounds])
    kw = {}
    if case["plane"] != "xy":
        kw = {"vec1": v1, "vec2": v2}
    if case["parallel"] and case["plane"] != "tilt":
        kw["parallel"] = True
        # a surface in another plane is to be left out
    if case["via"] == "encoding":
        g = quiet(p.Geometry.from_rhino_encoding, breps[0].Encode(), **kw)
        want = want[:1]
    else:
        with Scratch() as tmp:
            path = tmp / "a.3dm"
            m = rh.File3dm()
            for br in breps:
                m.Objects.AddBrep(br)
            if case["other"]:  # objects that are no planar surfaces
                m.Objects.AddPoint(1, 2, 3)
                m.Objects.AddLine(rh.Point3d(0, 0, 0), rh.Point3d(1, 1, 0))
                m.Objects.AddBrep(rh.Brep.CreateFromSphere(rh.Sphere(rh.Point3d(0, 0, 0), 3)))
            if "parallel" in kw and case["other"]:
                q = brep_of(shapely.box(0, 0, 7, 5), e2, e3, e1, 2)
                m.Objects.AddBrep(q)
            m.Write(str(path), 7)
            path = path if case["via"] == "pathlib" else str(path)
            comp = case["compound"] or len(want) > 1
            if comp and not case["compound"]:
                try:
                    quiet(p.Geometry.from_3dm, path, **kw)
                except RuntimeError:
                    pass
                else:
                    raise Violation(f"Geometry.from_3dm accepted a file with {len(want)} surfaces")
            cls = p.CompoundGeometry if comp else p.Geometry
            g = quiet(cls.from_3dm, path, **kw)
            ensure(type(g) is cls, f"{cls.__name__}.from_3dm returned a {type(g).__name__}")
    match(regions_of(g), want, size, 0.0, f"rhino ({case['plane']})")
    return Info(nontrivial=len(want) > 1 or bool(want[0].interiors) or case["plane"] != "xy", tags=(case["plane"], case["via"], f"{len(want)} surfaces", "holes" if any(q.interiors for q in want) else "solid"))


# ------------------------------------------------------------- curves, resolution
@st.composite
def curve_case(draw):
    return {"k": draw(st.sampled_from(["circle", "spline", "rhino"])), "r": draw(ints(5, 100)), "at": [draw(ints(-300, 300)), draw(ints(-300, 300))],
            "deg": draw(st.sampled_from([0.5, 1.0, 2.0, 3.0, 5.0, 7.5, 10.0, 15.0])), "delta": draw(st.sampled_from([0.1, 0.05, 0.02, 0.01, 0.005])),
            "default": draw(st.booleans()), "s": draw(gen.star(5, 9)), "n": draw(ints(1, 12))}


def check_curves(case):
    """The sampling arguments set the number of points, and all points lie on the curve."""
    p, _ = sut.api()
    x, y = (float(v) for v in case["at"])
    k, r = case["k"], float(case["r"])
    with Scratch() as tmp:
        if k == "rhino":
            import rhino3dm as rh

            b = rh.Brep.CreateTrimmedPlane(rh.Plane.WorldXY(), rh.Circle(rh.Point3d(x, y, 0.0), r).ToNurbsCurve())
            m = rh.File3dm()
            m.Objects.AddBrep(b)
            m.Write(str(tmp / "a.3dm"), 7)
            kw = {} if case["default"] else {"refine_num": case["n"]}
            g = quiet(p.Geometry.from_3dm, tmp / "a.3dm", **kw)
            e = quiet(p.Geometry.from_rhino_encoding, b.Encode(), **kw)
            n = 8 * ((1 if case["default"] else case["n"]) + 1)  # a circle has eight intervals of nine points
            for q in (g, e):
                ensure(len(q.points) == n, f"rhino circle: {len(q.points)} points, expected {n}")
        else:
            path = tmp / "a.dxf"
            kw = {} if case["default"] else {"spline_delta": case["delta"], "degrees_per_segment": case["deg"]}
            deg, delta = (1.0, 0.1) if case["default"] else (case["deg"], case["delta"])
            if k == "circle":
                write_dxf(path, [("circle", (x, y), r)], False, False, None)
                n = 360 / deg
            else:
                pts = list(gen.build_shape(case["s"]).exterior.coords)
                pts = [(u + x, v + y) for u, v in pts]
                write_dxf(path, [("spline", pts, 2)], False, False, None)
                n = 1 / delta
            g = quiet(p.Geometry.from_dxf, path, **kw)
            ensure(abs(len(g.points) - n) <= 2.01, f"{k}: {len(g.points)} points, asked for {n:g} ({kw})")
        if k != "spline":
            d = max(abs(math.hypot(u - x, v - y) - r) for u, v in g.points)
            ensure(d <= 1e-9 * (r + abs(x) + abs(y)), f"{k}: a point lies {d:.3g} away from the circle of radius {r:g}")
        else:
            line = shapely.LinearRing(bspline(pts, 2, delta))
            d = max(shapely.distance(shapely.points(np.array(g.points)), line))
            ensure(d <= 1e-3 * 100, f"spline: a point lies {d:.3g} away from the curve")
    return Info(nontrivial=not case["default"], tags=(k,))


# ------------------------------------------------------------------------ refusals
@st.composite
def bad_case(draw):
    return {"what": draw(st.sampled_from(["missing dxf", "missing 3dm", "wrong ending", "open", "empty dxf", "text", "no surface", "not planar", "encoding", "junk dxf", "directory"])),
            "n": draw(ints(1, 5)), "str": draw(st.booleans())}


def check_bad(case):
    import ezdxf
    import rhino3dm as rh

    p, _ = sut.api()
    w, n = case["what"], case["n"]
    exc = (ValueError, RuntimeError)
    with Scratch() as tmp:
        def cast(q):
            return str(q) if case["str"] else q

        if w == "missing dxf":
            f, exc = (lambda: p.Geometry.from_dxf(cast(tmp / "nothing.dxf"))), (ValueError,)
        elif w == "missing 3dm":
            f, exc = (lambda: (p.CompoundGeometry if n % 2 else p.Geometry).from_3dm(cast(tmp / "nothing.3dm"))), (ValueError,)
        elif w == "wrong ending":
            q = tmp / "a.dat"
            q.write_text("x")
            f, exc = (lambda: p.Geometry.from_3dm(cast(q))), (ValueError,)
        elif w in ("open", "empty dxf", "text"):
            doc = ezdxf.new()
            m = doc.modelspace()
            if w == "open":
                pts = [(i, i * i) for i in range(n + 1)]
                if n % 2:
                    m.add_lwpolyline(pts)
                else:
                    for a, b in zip(pts, pts[1:]):
                        m.add_line(a, b)
            if w == "text":
                m.add_text("no outline")
            q = tmp / "a.dxf"
            doc.saveas(str(q))
            f, exc = (lambda: p.Geometry.from_dxf(cast(q))), (Exception,)
        elif w == "junk dxf":
            q = tmp / "a.dxf"
            q.write_text("no dxf\n" * n)
            f, exc = (lambda: p.Geometry.from_dxf(cast(q))), (Exception,)
        elif w == "directory":
            f, exc = (lambda: p.Geometry.from_dxf(cast(tmp))), (Exception,)
        elif w in ("no surface", "not planar"):
            m = rh.File3dm()
            if w == "no surface":
                m.Objects.AddPoint(1, 2, 3)
            else:
                m.Objects.AddBrep(rh.Brep.CreateFromSphere(rh.Sphere(rh.Point3d(0, 0, 0), float(n))))
            q = tmp / "a.3dm"
            m.Write(str(q), 7)
            f, exc = (lambda: (p.CompoundGeometry if n % 2 else p.Geometry).from_3dm(cast(q))), (RuntimeError,)
        else:
            b = rh.Brep.CreateFromSphere(rh.Sphere(rh.Point3d(0, 0, 0), float(n)))
            f = lambda: p.Geometry.from_rhino_encoding(b.Encode())  # noqa: E731
        try:
            g = quiet(f)
        except exc:
            return Info(tags=(w,))
        except Exception as e:
            raise Violation(f"{w}: refused with {e!r}, documented are {[x.__name__ for x in exc]}") from None
    raise Violation(f"{w}: accepted, giving a geometry of area {g.geom.area:.4g}")


def tree_(o, *kids):
    return {"o": o, "in": list(kids)}


def out_(k, **kw):
    return {"k": k, "how": "lw", "perm": list(range(12)), "rev": [False] * 12, **kw}


SQ = {"k": "star", "r": [60] * 4, "j": [0] * 4}
BASE = {"scale": 1.0, "at": [0, 0], "rot": 0, "deg": 1.0, "delta": 0.1, "layer": False, "junk": False, "shuffle": False, "path": False}
FIX = [
    # an outline of lines and arcs with a polyline hole; regions inside of holes
    {**BASE, "top": [tree_(out_("rounded", w=100, h=80, r=10), tree_(out_("poly", s=SQ)))]},
    {**BASE, "top": [tree_(out_("poly", s=SQ), tree_(out_("poly", s=SQ), tree_(out_("poly", s=SQ))))]},
]

FAMILIES = [
    Family("dxf", dxf_case, check_dxf, 400, 6000, fixed=FIX, rule="nested and disjoint outlines drawn with lines, polylines, circles, arcs, bulges and splines; non-trivial = several entity kinds, regions or holes"),
    Family("cells", cells_case, check_cells, 200, 3000, rule="grids drawn with shared lines; non-trivial = two or more cells"),
    Family("touch", touch_case, check_touch, 150, 2000, rule="islands in a hole that touch its corners; non-trivial = at least one"),
    Family("rhino", rhino_case, check_rhino, 400, 6000, rule="planar surfaces with holes in several planes; non-trivial = several surfaces, holes or another plane"),
    Family("curves", curve_case, check_curves, 150, 2000, rule="circles and splines at many resolutions; non-trivial = resolution other than the default"),
    Family("refused", bad_case, check_bad, 60, 300, rule="files without usable outlines; non-trivial = always"),
]
