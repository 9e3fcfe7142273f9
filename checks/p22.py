"""P22: reinforced concrete and laminated sections place every bar and layer as asked.

Oracle: the outline is drawn independently from the documented dimensions.  Beams, columns
and circular sections have their bar centres computed from the counts and covers; walls
have their bars read back and compared with the rows that follow the faces of the outline
at the requested cover (doubly reinforced) or the centre lines of the walls (singly).
"""

from __future__ import annotations

import math
import warnings

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import Point, Polygon, box

from vkit import gen, oracle
from vkit.core import Family, Info, Violation, close, ensure

ASSUMPTIONS = [
    "bars fit: every bar polygon lies inside the concrete and at least 5 % of its radius away from the next one",
    "clear cover is measured to the nominal bar diameter, as documented",
    "walls: doors leave a nib on both sides; the number of intervals may be computed from a length up to two nominal covers longer than the row (the documentation does not define the extent)",
]
ints = st.integers


class Unfit(Exception):
    pass


def circumradius(area, n):
    return math.sqrt(2 * area / (n * math.sin(2 * math.pi / n)))


def mats_of(case):
    if case["mats"] is None:
        return None, None
    return gen.build_material(case["mats"][0], "conc"), gen.build_material(case["mats"][1], "steel")


@st.composite
def mats(draw):
    if draw(ints(0, 4)) == 0:
        return None
    m = [draw(gen.material()), draw(gen.material())]
    if m[0] == m[1]:
        m[1] = dict(m[1], E=m[1]["E"] * 7)
    return m


def build(name, kw, case):
    import sectionproperties.pre.library as lib

    cm, sm = mats_of(case)
    if cm is not None:
        kw = dict(kw, conc_mat=cm, steel_mat=sm)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(lib, name)(**kw)


def check_regions(g, outline, amin, case, what, n_conc=1):
    """Splits the section in concrete and bars; everything but the bar positions."""
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    cm, sm = mats_of(case)
    if cm is None:
        cm = sm = DEFAULT_MATERIAL
    polys = [q.geom for q in g.geoms]
    ensure(all(p.is_valid and p.area > 0 for p in polys), f"{what}: a region is invalid or empty")
    bars = [q for q in g.geoms if q.geom.area <= amin * 1.5]
    conc = [q for q in g.geoms if q.geom.area > amin * 1.5]
    ensure(len(conc) == n_conc, f"{what}: {len(conc)} concrete regions, expected {n_conc}")
    ensure(all(q.material == cm for q in conc), f"{what}: the concrete does not carry the requested material")
    ensure(all(q.material == sm for q in bars), f"{what}: a bar does not carry the requested material")
    total = sum(p.area for p in polys)
    close(f"{what}: sum of all region areas (overlap or gap)", total, outline.area, 1e-9)
    un = oracle.union(polys)
    size = max(outline.bounds[2] - outline.bounds[0], outline.bounds[3] - outline.bounds[1])
    ensure(un.symmetric_difference(outline).area <= 1e-8 * size**2, f"{what}: the regions do not fill the requested outline")
    b, w = np.array(un.bounds), np.array(outline.bounds)
    ensure(np.all(abs(b - w) <= 1e-9 * size), f"{what}: bounding box {b.tolist()}, expected {w.tolist()}")
    return conc, bars, size


def centre(poly):
    return np.array(poly.exterior.coords[:-1]).mean(axis=0)


def check_bar(poly, area, n, size, what):
    ensure(not poly.interiors, f"{what}: a bar has a hole")
    pts = np.array(poly.exterior.coords[:-1])
    ensure(len(pts) == n, f"{what}: a bar is drawn with {len(pts)} points, asked for {n}")
    # coordinates are rounded to twelve decimals
    close(f"{what}: area of a bar", poly.area, area, 1e-8, n * math.sqrt(area), 4e-12)
    r = np.hypot(*(pts - centre(poly)).T)
    ensure(abs(r - circumradius(area, n)).max() <= 1e-9 * size + 4e-12, f"{what}: a bar is not a regular polygon")


def match_bars(bars, want, n, size, what):
    """want: list of (x, y, area)."""
    ensure(len(bars) == len(want), f"{what}: {len(bars)} bars, expected {len(want)}")
    left = [(centre(q.geom), q.geom) for q in bars]
    for x, y, a in want:
        k = min(range(len(left)), key=lambda i: float(np.hypot(*(left[i][0] - (x, y)))))
        c, q = left.pop(k)
        ensure(np.hypot(*(c - (x, y))) <= 1e-9 * size, f"{what}: no bar at ({x:.9g}, {y:.9g}); nearest remaining one is at ({c[0]:.9g}, {c[1]:.9g})")
        check_bar(q, a, n, size, what)


def fits(want, n, outline):
    """Every requested bar lies inside the outline and away from the others."""
    rs = [circumradius(a, n) for _, _, a in want]
    for (x, y, _), r in zip(want, rs):
        if not outline.contains(Point(x, y)) or outline.exterior.distance(Point(x, y)) < 1.02 * r:
            return False
    p = np.array([(x, y) for x, y, _ in want])
    for i in range(len(want)):
        for j in range(i):
            if np.hypot(*(p[i] - p[j])) < 1.05 * (rs[i] + rs[j]):
                return False
    return True


def check_analysis(g, case, outline, want, what):
    """The composite axial rigidity follows from the bars (a subset of the cases)."""
    if case["mats"] is None or not case["fea"]:
        return
    from sectionproperties.analysis import Section

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g.create_mesh(mesh_sizes=[0])
        s = Section(g)
        s.calculate_geometric_properties()
    ast = sum(want)
    ec, es = case["mats"][0]["E"], case["mats"][1]["E"]
    close(f"{what}: axial rigidity", s.get_ea(), ec * (outline.area - ast) + es * ast, 1e-6)


# ------------------------------------------------------------------ beams and columns
def frac(lo=1, hi=99):
    return ints(lo, hi).map(lambda v: v / 100.0)


@st.composite
def beam_case(draw):
    kind = draw(st.sampled_from(["rectangular", "tee", "column", "circular"]))
    return {"kind": kind, "f": [draw(frac()) for _ in range(10)], "s": draw(st.sampled_from([1.0, 1000.0, 0.025])),
            "n": [draw(ints(0, 6)), draw(ints(0, 6)), draw(ints(0, 4))], "nc": draw(ints(3, 16)),
            "side": draw(ints(0, 3)), "filled": draw(ints(0, 1)), "nconc": draw(ints(5, 40)),
            "mats": draw(mats()), "fea": draw(ints(0, 7)) == 0}


def bar_size(f, lim, g):
    """(diameter, area): bars of at most ``lim``, area between 0.6 and 1.1 of the nominal."""
    dia = lim * (0.15 + 0.85 * f)
    return dia, math.pi / 4 * dia**2 * (0.6 + 0.5 * g)


def rect_beam(c):
    f, s = c["f"], c["s"]
    tee = c["kind"] == "tee"
    d, b = s * (0.3 + 0.7 * f[0]), s * (0.2 + 0.6 * f[1])
    kw = {"d": d, "b": b}
    bt = b
    x0 = b / 2
    outline = box(0, 0, b, d)
    if tee:
        df, bf = d * (0.1 + 0.6 * f[8]), b * (1 + 2 * f[9])
        kw.update(d_f=df, b_f=bf)
        bt, x0 = bf, 0.0
        outline = shapely.union_all([box(-b / 2, 0, b / 2, d - df), box(-bf / 2, d - df, bf / 2, d)])
    nt, nb, ns = c["n"]
    dt, at = bar_size(f[2], min(b, d) * 0.15, f[3])
    db, ab = bar_size(f[3], min(b, d) * 0.15, f[2])
    ct, cb = dt * (0.5 + 2 * f[4]), db * (0.5 + 2 * f[5])
    kw.update(dia_top=dt, area_top=at, n_top=nt, c_top=ct, dia_bot=db, area_bot=ab, n_bot=nb, c_bot=cb, n_circle=c["nc"])
    side = None
    if c["side"]:
        ds, as_ = bar_size(f[6], min(b, d) * 0.12, f[7])
        cs = ds * (0.6 + 2 * f[7])
        kw.update(c_side=cs)
        side = cs
        if c["side"] >= 2:
            kw.update(dia_side=ds, area_side=as_, n_side=ns)
    want = []
    for n, dia, a, cv, y, w in ((nt, dt, at, ct, d - ct - dt / 2, bt), (nb, db, ab, cb, cb + db / 2, b)):
        e = (side if side else cv) + dia / 2
        if n == 1:
            want.append((x0, y, a))
        else:
            for i in range(n):
                want.append((x0 - w / 2 + e + (w - 2 * e) * i / (n - 1), y, a))
    if c["side"] >= 2:
        y1, y2 = cb + db / 2, d - ct - dt / 2
        e = side + kw["dia_side"] / 2
        for i in range(ns):
            y = y1 + (y2 - y1) * (i + 1) / (ns + 1)
            want += [(x0 - b / 2 + e, y, kw["area_side"]), (x0 + b / 2 - e, y, kw["area_side"])]
    return kw, outline, want, (2 if tee else 1)


def column(c):
    f, s = c["f"], c["s"]
    d, b = s * (0.2 + 0.8 * f[0]), s * (0.2 + 0.8 * f[1])
    dia, a = bar_size(f[2], min(b, d) * 0.15, f[3])
    cv = dia * (0.4 + 2 * f[4])
    nx, ny = c["n"][0], c["n"][1]
    kw = {"d": d, "b": b, "dia_bar": dia, "area_bar": a, "n_x": nx, "n_y": ny, "cover": cv, "n_circle": c["nc"], "filled": bool(c["filled"])}
    if nx < 2 or ny < 2:
        return kw, None, None, 1
    e = cv + dia / 2
    xs = [e + (b - 2 * e) * i / (nx - 1) for i in range(nx)]
    ys = [e + (d - 2 * e) * i / (ny - 1) for i in range(ny)]
    want = [(x, y, a) for i, x in enumerate(xs) for j, y in enumerate(ys) if c["filled"] or i in (0, nx - 1) or j in (0, ny - 1)]
    if b - 2 * e < 2 * dia or d - 2 * e < 2 * dia:
        raise Unfit
    return kw, box(0, 0, b, d), want, 1


def circular(c):
    f, s = c["f"], c["s"]
    d = s * (0.2 + 0.8 * f[0])
    dia, a = bar_size(f[2], d * 0.15, f[3])
    cv = dia * (0.4 + 2 * f[4])
    ac = math.pi / 4 * d**2 * (0.97 + 0.06 * f[5])
    nb = c["n"][0] * 2 + c["n"][2]
    kw = {"d": d, "area_conc": ac, "n_conc": c["nconc"], "dia_bar": dia, "area_bar": a, "n_bar": nb, "cover": cv, "n_circle": c["nc"]}
    if nb < 2:
        return kw, None, None, 1
    r = d / 2 - cv - dia / 2
    if r <= dia:
        raise Unfit
    want = [(r * math.cos(2 * math.pi * i / nb), r * math.sin(2 * math.pi * i / nb), a) for i in range(nb)]
    rc = circumradius(ac, c["nconc"])
    outline = Polygon([(rc * math.cos(2 * math.pi * i / c["nconc"]), rc * math.sin(2 * math.pi * i / c["nconc"])) for i in range(c["nconc"])])
    return kw, outline, want, 1


def check_beam(case):
    k = case["kind"]
    try:
        kw, outline, want, nconc = {"column": column, "circular": circular}.get(k, rect_beam)(case)
    except Unfit:
        return Info(discard=True)
    name = f"concrete_{k}_section"
    what = f"{name}({', '.join(f'{a}={v:.6g}' if isinstance(v, float) else f'{a}={v}' for a, v in kw.items())})"
    if want == []:
        return Info(discard=True)
    if want is None:
        try:
            build(name, kw, case)
        except ValueError:
            return Info(tags=(k, "refused"))
        raise Violation(f"{what} was not refused with a ValueError")
    if not fits(want, case["nc"], outline):
        return Info(discard=True)
    g = build(name, kw, case)
    _, bars, size = check_regions(g, outline, max(a for *_, a in want), case, what, nconc)
    match_bars(bars, want, case["nc"], size, what)
    check_analysis(g, case, outline, [a for *_, a in want], what)
    return Info(nontrivial=len(want) > 1, tags=(k,) + (("analysed",) if case["fea"] else ()))


# ------------------------------------------------------------------------------- walls
WALLS = ["rectangular_wall", "cee_wall", "tee_wall", "single_lift_core", "double_lift_core_a", "double_lift_core_b", "stairwell"]


@st.composite
def wall_case(draw):
    return {"kind": draw(st.sampled_from(WALLS)), "f": [draw(frac()) for _ in range(8)], "s": draw(st.sampled_from([1.0, 1000.0, 0.025])),
            "sp": draw(ints(1, 60)), "whole": draw(st.sampled_from([0, 0, 0, 0, 0, 1.0, 1.0, 0.999, 0.996, 0.985, 0.95, 1.001])), "double": draw(ints(0, 1)), "nc": draw(ints(3, 12)),
            "mats": draw(mats()), "fea": draw(ints(0, 15)) == 0}


def wall(c):
    """(kwargs, outline, jamb midpoints (double), segments (single))."""
    f, s, k = c["f"], c["s"], c["kind"]
    t1, t2 = s * (0.1 + 0.1 * f[0]), s * (0.1 + 0.1 * f[1])
    t = min(t1, t2)
    lim = t * (0.09 if c["double"] else 0.15)
    dia, a = bar_size(f[2], lim, f[3])
    e = t * (0.1 + 0.2 * f[4]) + dia / 2
    e = max(e, 0.95 * dia)
    cover = e - dia / 2
    d, b = s * (0.5 + 1.5 * f[5]), s * (0.5 + 1.2 * f[6])
    kw = {"d": d, "dia_bar": dia, "area_bar": a, "cover": cover, "double": bool(c["double"]), "n_circle": c["nc"]}
    h1, h2 = t1 / 2, t2 / 2
    if k == "rectangular_wall":
        kw["t"] = t1
        o = box(0, 0, t1, d)
        return kw, e, o, [(h1, e), (h1, d - e)], [((h1, e), (h1, d - e), 0, 0)]
    kw["b"] = b
    if k == "cee_wall":
        kw.update(t_f=t1, t_w=t2)
        o = box(0, 0, b, d).difference(box(t2, t1, b, d - t1))
        segs = [((h2, h1), (b - e, h1), 0, 0), ((h2, d - h1), (b - e, d - h1), 0, 0), ((h2, h1), (h2, d - h1), 0, 0)]
        return kw, e, o, [(b - e, h1), (b - e, d - h1)], segs
    if k == "tee_wall":
        kw.update(t_f=t1, t_w=t2)
        o = shapely.union_all([box(0, d - t1, b, d), box(b / 2 - h2, 0, b / 2 + h2, d)])
        segs = [((e, d - h1), (b - e, d - h1), 0, 0), ((b / 2, e), (b / 2, d - h1), 0, 1)]
        return kw, e, o, [(e, d - h1), (b - e, d - h1), (b / 2, e)], segs
    kw.update(t1=t1, t2=t2)
    o = box(0, 0, b, d)
    ring = [((h2, h1), (b - h2, h1), 0, 0), ((h2, d - h1), (b - h2, d - h1), 0, 0), ((h2, h1), (h2, d - h1), 0, 0)]
    free = d - 2 * t1
    xr, xi = b - h2, b - t2
    if k == "single_lift_core":
        kw["a"] = w = free * (0.2 + 0.6 * f[7])
        y1, y2 = (d - w) / 2, (d + w) / 2
        o = o.difference(box(t2, t1, xi, d - t1)).difference(box(xi, y1, b, y2))
        segs = ring + [((xr, h1), (xr, y1 - e), 0, 0), ((xr, y2 + e), (xr, d - h1), 0, 0)]
        return kw, e, o, [(xr, y1 - e), (xr, y2 + e)], segs
    if k == "stairwell":
        kw["a"] = w = free * (0.2 + 0.6 * f[7])
        y1, y2 = d - t1 - w, d - t1
        o = o.difference(box(t2, t1, xi, d - t1)).difference(box(xi, y1, b, y2))
        return kw, e, o, [(xr, y1 - e), (b - e, d - h1)], ring + [((xr, h1), (xr, y1 - e), 0, 0)]
    if k == "double_lift_core_a":
        kw["a1"] = w = free * (0.15 + 0.25 * f[7])
        kw["a2"] = p = (free - 2 * w) * (0.3 + 0.4 * f[0])
        o = o.difference(box(t2, t1, xi, d - t1))
    else:
        kw["t3"] = t3 = s * (0.1 + 0.1 * f[3])
        if free < 1.5 * t3:
            raise Unfit
        kw["a"] = w = (free - t3) / 2 * (0.2 + 0.6 * f[7])
        p = (free - 2 * w - t3) / 2 + t3
        o = o.difference(box(t2, t1, xi, (d - t3) / 2)).difference(box(t2, (d + t3) / 2, xi, d - t1))
        ring = ring + [((h2, d / 2), (xr, d / 2), 1, 1)]
    y = [d / 2 - p / 2 - w, d / 2 - p / 2, d / 2 + p / 2, d / 2 + p / 2 + w]
    o = o.difference(box(xi, y[0], b, y[1])).difference(box(xi, y[2], b, y[3]))
    segs = ring + [((xr, h1), (xr, y[0] - e), 0, 0), ((xr, y[3] + e), (xr, d - h1), 0, 0), ((xr, y[1] + e), (xr, y[2] - e), 0, 0)]
    return kw, e, o, [(xr, y[0] - e), (xr, y[1] + e), (xr, y[2] - e), (xr, y[3] + e)], segs


def inset_edges(o, e):
    q = o.buffer(-e, join_style="mitre", mitre_limit=10)
    parts = getattr(q, "geoms", [q])
    if q.is_empty or len(parts) != len(getattr(o, "geoms", [o])):
        raise Unfit
    # the first vertex of a ring may lie inside a side
    out = []
    for r in [r for p in parts for r in (p.exterior, *p.interiors)]:
        c = np.array(r.coords)[:-1]
        keep = [i for i in range(len(c)) if abs(np.cross(c[i] - c[i - 1], c[(i + 1) % len(c)] - c[i])) > 1e-9 * q.area]
        c = c[keep]
        out += [(c[i - 1], c[i]) for i in range(len(c))]
    return out


def row(pts, p0, p1, tol):
    """Positions along a segment of the bars that lie on it."""
    p0, p1 = np.array(p0, float), np.array(p1, float)
    n = float(np.hypot(*(p1 - p0)))
    u = (p1 - p0) / n
    rel = pts - p0
    along = rel @ u
    off = np.hypot(*(rel - np.outer(along, u)).T)
    on = (off <= tol) & (along >= -tol) & (along <= n + tol)
    return n, np.sort(along[on]), on


def check_wall(case):
    try:
        kw, e, o, jambs, segs = wall(case)
        edges = inset_edges(o, e)
    except Unfit:
        return Info(discard=True)
    k = case["kind"]
    rows = [(a, b, 0, 0) for a, b in edges] if case["double"] else segs
    lens = [float(np.hypot(*np.subtract(r[1], r[0]))) for r in rows]
    s = max(lens) * case["sp"] / 60.0
    if case["whole"]:
        s = lens[case["sp"] % len(lens)] / (1 + case["sp"] % 5) * case["whole"]
    kw["spacing"] = s
    R = circumradius(kw["area_bar"], case["nc"])
    if e < 1.02 * R or any(n / (math.ceil((n + 2 * e) / s) + 1) < 2.1 * R for n in lens) or kw.get("t3", 1e9) - 2 * e < 2.1 * R or sum(n / s for n in lens) > 150:
        return Info(discard=True)
    what = f"{k}({', '.join(f'{a}={v:.6g}' if isinstance(v, float) else f'{a}={v}' for a, v in kw.items())})"
    g = build(k, kw, case)
    _, bars, size = check_regions(g, o, kw["area_bar"], case, what, len(getattr(o, "geoms", [o])))
    for q in bars:
        check_bar(q.geom, kw["area_bar"], case["nc"], size, what)
    pts = np.array([centre(q.geom) for q in bars])
    tol = 1e-8 * size
    used = np.zeros(len(pts), bool)
    for (a, b, open0, open1), n in zip(rows, lens):
        n, at, on = row(pts, a, b, tol)
        used |= on
        mid = (np.array(a) + np.array(b)) / 2
        jamb = case["double"] and any(np.hypot(*(mid - j)) < 1e-6 * size for j in jambs)
        at = np.unique(np.round(at, 12)) if len(at) else at
        name = f"{what}: row from ({a[0]:.6g}, {a[1]:.6g}) to ({b[0]:.6g}, {b[1]:.6g})"
        ensure(len(at) >= (1 if open0 or open1 else 2) or (open0 and open1 and n <= 2 * s * (1 + 1e-9)), f"{name}: {len(at)} bars")
        ends = [0.0] if not len(at) else []
        if not ends:
            ensure(open0 or at[0] <= tol, f"{name}: no bar at its start")
            ensure(open1 or at[-1] >= n - tol, f"{name}: no bar at its end")
        if jamb:
            ensure(len(at) == 2, f"{name}: {len(at)} bars at the end of a wall")
            continue
        at = np.concatenate([[0.0], at[(at > tol) & (at < n - tol)], [n]])
        gaps = np.diff(at)
        ensure(gaps.max() <= s * (1 + 1e-9) + tol, f"{name}: spacing {gaps.max():.6g}, maximum asked for {s:.6g}")
        ensure(np.ptp(gaps) <= 1e-7 * size, f"{name}: uneven spacing {np.round(gaps, 6).tolist()}")
        ensure(len(gaps) <= math.ceil((n + 2 * e) / s * (1 + 1e-9)), f"{name}: {len(gaps)} intervals for a length of {n:.6g}, maximum spacing {s:.6g}")
    ensure(used.all(), f"{what}: bar at {pts[~used][0].tolist() if not used.all() else None} is on no row at the requested cover")
    check_analysis(g, case, o, [kw["area_bar"]] * len(pts), what)
    return Info(tags=(k, "double" if case["double"] else "single") + (("whole",) if case["whole"] else ()))


# ------------------------------------------------------------- refusals and added bars
@st.composite
def lift_case(draw):
    return {"b": draw(ints(0, 1)), "f": [draw(frac()) for _ in range(6)], "over": draw(ints(1, 50)) / 100.0, "double": draw(ints(0, 1))}


def check_lift(case):
    import sectionproperties.pre.library as lib

    f = case["f"]
    d, b, t = 1000 + 4000 * f[0], 1000 + 2000 * f[1], 100 + 100 * f[2]
    kw = {"d": d, "b": b, "t1": t, "t2": t * (0.7 + 0.6 * f[3]), "dia_bar": 12, "area_bar": 110, "spacing": 400, "cover": 20, "double": bool(case["double"])}
    if case["b"]:
        t3 = 100 + 100 * f[4]
        kw.update(t3=t3, a=0.5 * (d - 2 * t - t3) * (1 + case["over"]))
        fn = lib.double_lift_core_b
    else:
        a1 = (d - 2 * t) * (0.1 + 0.45 * f[4])
        kw.update(a1=a1, a2=max(0.05 * d, (d - 2 * t - 2 * a1)) * (1 + case["over"]))
        fn = lib.double_lift_core_a
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(**kw)
    except ValueError:
        return Info(tags=(fn.__name__,))
    raise Violation(f"{fn.__name__}({kw}) with doors larger than the opening was not refused")


@st.composite
def bars_case(draw):
    return {"shape": draw(gen.shape()), "place": draw(gen.place()), "n": draw(ints(3, 16)), "k": draw(ints(1, 5)),
            "f": [draw(frac()) for _ in range(12)], "one": draw(ints(0, 1)), "split": draw(ints(0, 2)), "mats": draw(mats()), "fea": False}


def check_bars(case):
    from sectionproperties.pre import CompoundGeometry, Geometry
    from sectionproperties.pre.library.concrete_sections import add_bar, add_bars
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    poly = gen.build_poly(case["shape"], case["place"])
    cm, sm = mats_of(case)
    cm, sm = cm or DEFAULT_MATERIAL, sm or DEFAULT_MATERIAL
    x0, y0, x1, y1 = poly.bounds
    size = max(x1 - x0, y1 - y0)
    f = case["f"]
    area = poly.area * 0.002 * (0.2 + f[0])
    R = circumradius(area, case["n"])
    want = []
    for i in range(case["k"]):
        x, y = x0 + (x1 - x0) * f[1 + 2 * i], y0 + (y1 - y0) * f[2 + 2 * i]
        if poly.contains(Point(x, y)) and poly.boundary.distance(Point(x, y)) > 1.1 * R and all(math.hypot(x - u, y - v) > 2.2 * R for u, v in want):
            want.append((x, y))
    if not want:
        return Info(discard=True)
    parts = [poly]
    if case["split"]:
        cut = x0 + (x1 - x0) * f[11]
        parts = [q for w in (box(x0 - size, y0 - size, cut, y1 + size), box(cut, y0 - size, x1 + size, y1 + size))
                 for q in getattr(poly.intersection(w), "geoms", [poly.intersection(w)]) if q.geom_type == "Polygon" and q.area > 1e-6 * size**2]
        if abs(sum(q.area for q in parts) - poly.area) > 1e-9 * poly.area or any(abs(x - cut) < 1.1 * R and abs(abs(x - cut) - R) < 0.05 * R for x, _ in want):
            return Info(discard=True)
    g = CompoundGeometry([Geometry(q, cm) for q in parts]) if len(parts) > 1 else Geometry(parts[0], cm)
    if case["one"]:
        for x, y in want:
            g = add_bar(geometry=g, area=area, material=sm, x=x, y=y, n=case["n"])
    else:
        g = add_bars(geometry=g, area=area, material=sm, x=[x for x, _ in want], y=[y for _, y in want], n=case["n"])
    bars = []
    geoms = list(g.geoms)
    what = f"{'add_bar' if case['one'] else 'add_bars'} with {len(want)} bars of area {area:.6g}"
    for x, y in want:
        hit = [q for q in geoms if len(q.geom.exterior.coords) == case["n"] + 1 and np.hypot(*(centre(q.geom) - (x, y))) <= 1e-9 * size + 1e-12 * (abs(x) + abs(y)) and abs(q.geom.area - area) <= 1e-6 * area]
        ensure(len(hit) == 1, f"{what}: {len(hit)} bars at ({x:.9g}, {y:.9g})")
        ensure(hit[0].material == sm, f"{what}: the bar does not carry its material")
        bars.append(hit[0])
        geoms.remove(hit[0])
    ensure(all(q.material == cm for q in geoms), f"{what}: the material of the original geometry changed")
    rest = oracle.union([q.geom for q in geoms])
    close(f"{what}: total area", sum(q.geom.area for q in g.geoms), poly.area, 1e-9)
    close(f"{what}: area left of the original geometry", rest.area, poly.area - area * len(want), 1e-9)
    for q in bars:
        ensure(rest.intersection(q.geom).area <= 1e-9 * area, f"{what}: a bar overlaps the original geometry")
    return Info(nontrivial=len(want) > 1 or len(parts) > 1, tags=(f"parts{min(len(parts), 3)}", "one" if case["one"] else "list"))


# ---------------------------------------------------------------------------- laminates
@st.composite
def clt_case(draw):
    n = draw(ints(1, 9))
    return {"d": [draw(st.sampled_from([10, 20, 20.5, 33, 40, 45, 0.7])) for _ in range(n)], "b": draw(st.sampled_from([1, 100, 1000, 12.5])),
            "m": [draw(ints(0, 2)) for _ in range(n)], "mats": [draw(gen.material()) for _ in range(3)], "s": draw(st.sampled_from([1.0, 0.001]))}


def check_clt(case):
    from sectionproperties.analysis import Section
    from sectionproperties.pre.library import clt_rectangular_section

    m = [gen.build_material(q, f"t{i}") for i, q in enumerate(case["mats"])]
    d = [v * case["s"] for v in case["d"]]
    b = case["b"] * case["s"]
    g = clt_rectangular_section(d=list(d), layer_mat=[m[i] for i in case["m"]], b=b)
    what = f"clt_rectangular_section(d={d}, b={b})"
    ensure(len(g.geoms) == len(d), f"{what}: {len(g.geoms)} layers")
    H = sum(d)
    order = sorted(g.geoms, key=lambda q: -q.geom.centroid.y)
    top = order[0].geom.bounds[3]
    x0 = order[0].geom.bounds[0]
    z = 0.0
    for q, t, i in zip(order, d, case["m"]):
        want = (x0, top - z - t, x0 + b, top - z)
        got = q.geom.bounds
        tol = 1e-9 * max(H, b)
        ensure(np.all(abs(np.subtract(got, want)) <= tol), f"{what}: layer {got}, expected {want} below a top at {top:.6g}")
        close(f"{what}: area of a layer", q.geom.area, b * t, 1e-9)
        ensure(q.material == m[i], f"{what}: layer at {want[1]:.6g} has material {q.material.name}, asked for {m[i].name}")
        z += t
    if len(d) > 1:
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            g.create_mesh(mesh_sizes=[0])
            s = Section(g)
        s.calculate_geometric_properties()
        close(f"{what}: axial rigidity", s.get_ea(), sum(b * t * case["mats"][i]["E"] for t, i in zip(d, case["m"])), 1e-8)
    return Info(nontrivial=len(d) > 1 and len(set(d)) > 1, tags=(f"layers{len(d)}",))


CLT = {"d": [40, 20, 33], "b": 100, "m": [0, 1, 0], "s": 1.0,
       "mats": [{"E": 9500, "nu": 0.3, "rho": 1.0, "fy": 5.0}, {"E": 317, "nu": 0.3, "rho": 1.0, "fy": 5.0}, {"E": 1, "nu": 0.3, "rho": 1.0, "fy": 5.0}]}

# a bar across the interface of flange and web, which used to hang the mesher
TEE = {"kind": "tee", "f": [0.13, 0.19, 0.68, 0.99, 0.94, 0.55, 0.56, 0.21, 0.21, 0.52], "s": 1.0, "n": [1, 2, 3], "nc": 4, "side": 3, "filled": 0, "nconc": 17,
       "mats": [{"E": 1, "nu": 0.49, "fy": 32, "rho": 7.85e-06}, {"E": 200000.0, "nu": 0.3, "fy": 500, "rho": 0.5}], "fea": True}
ONE_BAR = [dict(TEE, kind="column", n=n, fea=False) for n in ([1, 3, 0], [3, 1, 0])]
PIER = {"kind": "double_lift_core_b", "f": [0.5] * 8, "s": 1.0, "sp": 10, "whole": False, "double": 1, "nc": 4, "mats": None, "fea": False}

FAMILIES = [
    Family("beams", beam_case, check_beam, 900, 16000, fixed=[TEE, *ONE_BAR], rule="rectangular and tee beams, columns, circular sections, with and without side bars; non-trivial = two bars or more, or a refusal"),
    Family("walls", wall_case, check_wall, 1200, 20000, fixed=[dict(PIER, sp=k) for k in (4, 7, 10, 16, 25)], rule="all wall sections, single and double rows, spacings that do and do not divide a row; non-trivial = always"),
    Family("refused", lift_case, check_lift, 100, 1000, rule="lift cores whose doors exceed the opening; non-trivial = always"),
    Family("bars", bars_case, check_bars, 500, 6000, rule="bars added to any outline of one or more regions; non-trivial = several bars or regions"),
    Family("laminate", clt_case, check_clt, 400, 4000, fixed=[CLT], rule="layer stacks of different thickness and material; non-trivial = layers of different thickness"),
]
