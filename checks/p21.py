"""P21: library sections have the dimensions, area and material they are asked for.

Oracle: every section is drawn again from its documented parameters, as a sharp-cornered
outline whose corners are rounded by one generic routine (arcs of n points tangent to both
edges), or as a union of plates.  The two outlines are compared point for point.
"""

from __future__ import annotations

import math

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import Polygon, box

from vkit import gen, sut
from vkit.core import Family, Info, Violation, close, ensure

ASSUMPTIONS = [
    "radii fit into the outline (tangent arcs do not overlap)",
    "single-point arcs (n_r = 1) are only checked for validity and overall dimensions",
    "NASTRAN sections are compared up to a translation: the documented origins are those of the recovery points",
    "super T girders: the slope of the webs is approximate, the web thickness is claimed to 3 %",
]
ints = st.integers


class Unfit(Exception):
    """The radii do not fit."""


def rounded(pts, radii, n):
    """Corner points with radius r replaced by n points of the tangent arc."""
    pts = [np.array(p, float) for p in pts]
    m = len(pts)
    size = max(np.ptp([p[0] for p in pts]), np.ptp([p[1] for p in pts]))
    cut, out = [], []
    for i in range(m):
        a, p, b = pts[i - 1], pts[i], pts[(i + 1) % m]
        u, v = (a - p) / np.hypot(*(a - p)), (b - p) / np.hypot(*(b - p))
        r = radii[i]
        if r == 0:
            cut.append(0.0)
            out.append([p])
            continue
        half = 0.5 * math.acos(max(-1.0, min(1.0, float(u @ v))))
        t = r / math.tan(half)
        cut.append(t)
        w = (u + v) / np.hypot(*(u + v))
        c = p + w * r / math.sin(half)
        s, e = p + u * t - c, p + v * t - c
        a0 = math.atan2(s[1], s[0])
        da = math.atan2(s[0] * e[1] - s[1] * e[0], float(s @ e))
        k = max(1, n - 1)
        out.append([c + r * np.array([math.cos(a0 + da * j / k), math.sin(a0 + da * j / k)]) for j in range(n)])
    for i in range(m):
        length = np.hypot(*(pts[(i + 1) % m] - pts[i]))
        if cut[i] + cut[(i + 1) % m] > length * (1 + 1e-9):
            raise Unfit
    flat = [p for q in out for p in q]
    res = [p for i, p in enumerate(flat) if np.hypot(*(p - flat[i - 1])) > 1e-9 * size]
    return [tuple(map(float, p)) for p in res]


def poly(pts, holes=()):
    q = Polygon(pts, list(holes))
    if not q.is_valid or q.area <= 0:
        raise Unfit
    return q


def points_of(q):
    return sum(len(r.coords) - 1 for r in (q.exterior, *q.interiors))


def compare(g, want, what, shift=False, count=True):
    from sectionproperties.pre.geometry import CompoundGeometry

    got = g.geom
    if isinstance(g, CompoundGeometry):
        got = shapely.union_all([q.geom for q in g.geoms])
    ensure(got.is_valid and not got.is_empty, f"{what}: the outline is invalid ({shapely.is_valid_reason(got)})")
    b = np.array(got.bounds)
    w = np.array(want.bounds)
    size = max(w[2] - w[0], w[3] - w[1])
    if shift:
        got = shapely.affinity.translate(got, w[0] - b[0], w[1] - b[1])
        b = np.array(got.bounds)
    tol = 1e-9 * size + 1e-12 * abs(w).max() + 2e-12
    ensure(np.all(abs(b - w) <= tol), f"{what}: bounding box {b.tolist()}, expected {w.tolist()}")
    close(f"{what}: area", got.area, want.area, 1e-8, size**2, 1e-11)
    sym = got.symmetric_difference(want).area
    ensure(sym <= 1e-7 * size**2 * 1e-1 + 1e-11 * size * abs(w).max(), f"{what}: the outline differs from the requested one by an area of {sym:.4g} ({sym / want.area:.2%})")
    ensure(len(getattr(got, "interiors", [])) == len(want.interiors), f"{what}: {len(got.interiors)} holes, expected {len(want.interiors)}")
    if count:
        n = len(g.points)
        ensure(n == points_of(want), f"{what}: {n} points, expected {points_of(want)}")


def material_of(case):
    return None if case["mat"] is None else gen.build_material(case["mat"])


def same_material(g, mat, what):
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    for q in getattr(g, "geoms", [g]):
        ensure(q.material == (DEFAULT_MATERIAL if mat is None else mat), f"{what}: material {q.material}, asked for {mat}")


def call(name, args, mat):
    import sectionproperties.pre.library as lib

    kw = dict(args)
    if mat is not None:
        kw["material"] = mat
    return getattr(lib, name)(**kw)


def circle(n, a, b=None):
    b = a if b is None else b
    return [(a * math.cos(2 * math.pi * i / n), b * math.sin(2 * math.pi * i / n)) for i in range(n)]


# ------------------------------------------------------- sections with round corners
def frac(lo=1, hi=99):
    return ints(lo, hi).map(lambda v: v / 100.0)


NR = st.sampled_from([1, 2, 2, 3, 4, 5, 8, 8, 12, 16, 33, 70])
RAD = st.one_of(st.just(0.0), frac(1, 100))


@st.composite
def arcs_case(draw):
    name = draw(st.sampled_from(sorted(ARCS)))
    return {"name": name, "f": [draw(frac(1, 100)) for _ in range(8)], "rad": [draw(RAD) for _ in range(3)], "n": draw(NR),
            "k": draw(ints(3, 14)), "opt": [draw(st.booleans()) for _ in range(3)], "rot": draw(ints(-360, 360)),
            "size": draw(st.sampled_from([1.0, 100.0, 300.0, 0.2, 0.01, 2e4])), "mat": draw(st.one_of(st.none(), gen.material()))}


def sides(f):
    return 3 + int(60 * f) if f < 0.97 else 400


def a_rect(c, f, r, n, s):
    return {"d": s * f[0], "b": s * f[1]}, poly([(0, 0), (s * f[1], 0), (s * f[1], s * f[0]), (0, s * f[0])])


def a_tri(c, f, r, n, s):
    return {"b": s * f[0], "h": s * f[1]}, poly([(0, 0), (s * f[0], 0), (0, s * f[1])])


def a_trir(c, f, r, n, s):
    b = s * f[0]
    n = max(n, 2)
    arc = [(b + b * math.cos(1.5 * math.pi - 0.5 * math.pi * i / (n - 1)), b + b * math.sin(1.5 * math.pi - 0.5 * math.pi * i / (n - 1))) for i in range(n)]
    return {"b": b, "n_r": n}, poly([(0, 0), *arc])


def a_circ(c, f, r, n, s):
    k = sides(f[1])
    return {"d": s * f[0], "n": k}, poly(circle(k, s * f[0] / 2))


def a_circa(c, f, r, n, s):
    k = sides(f[1])
    a = (s * f[0]) ** 2
    # the polygon has exactly the area asked for
    rad = math.sqrt(2 * a / (k * math.sin(2 * math.pi / k)))
    q = poly(circle(k, rad))
    assert abs(q.area - a) < 1e-9 * a
    return {"area": a, "n": k}, q


def a_ell(c, f, r, n, s):
    k = sides(f[2])
    return {"d_x": s * f[0], "d_y": s * f[1], "n": k}, poly(circle(k, s * f[0] / 2, s * f[1] / 2))


def a_cross(c, f, r, n, s):
    d, b = s * (0.3 + 0.7 * f[0]), s * (0.3 + 0.7 * f[1])
    t = min(d, b) * (0.05 + 0.7 * f[2])
    rad = (min(d, b) - t) / 2 * r[0] * 0.98
    h, w, k = d / 2, b / 2, t / 2
    pts = [(-k, -h), (k, -h), (k, -k), (w, -k), (w, k), (k, k), (k, h), (-k, h), (-k, k), (-w, k), (-w, -k), (-k, -k)]
    rr = [0, 0, rad, 0, 0, rad, 0, 0, rad, 0, 0, rad]
    return {"d": d, "b": b, "t": t, "r": rad, "n_r": n}, poly(rounded(pts, rr, n))


def a_chs(c, f, r, n, s):
    k = sides(f[2])
    d = s * (0.2 + 0.8 * f[0])
    t = d / 2 * (0.02 + 0.9 * f[1])
    return {"d": d, "t": t, "n": k}, poly(circle(k, d / 2), [circle(k, d / 2 - t)])


def a_ehs(c, f, r, n, s):
    k = sides(f[3])
    dx, dy = s * (0.3 + 0.7 * f[0]), s * (0.3 + 0.7 * f[1])
    t = min(dx, dy) / 2 * (0.02 + 0.9 * f[2])
    return {"d_x": dx, "d_y": dy, "t": t, "n": k}, poly(circle(k, dx / 2, dy / 2), [circle(k, dx / 2 - t, dy / 2 - t)])


def a_rhs(c, f, r, n, s):
    d, b = s * (0.3 + 0.7 * f[0]), s * (0.3 + 0.7 * f[1])
    t = min(d, b) / 2 * (0.02 + 0.7 * f[2])
    tw = min(d, b) / 2 * (0.02 + 0.7 * f[3]) if c["opt"][0] else t
    ro = min(d, b) / 2 * r[0] * 0.98
    a = {"d": d, "b": b, "t": t, "r_out": ro, "n_r": n}
    if c["opt"][0]:
        a["t_w"] = tw
    if c["opt"][1]:
        ri = a["r_in"] = (min(d - 2 * t, b - 2 * tw) / 2) * r[1] * 0.98
    else:
        ri = max(ro - max(t, tw), 0)
    outer = rounded([(0, 0), (b, 0), (b, d), (0, d)], [ro] * 4, n)
    inner = rounded([(tw, t), (b - tw, t), (b - tw, d - t), (tw, d - t)], [ri] * 4, n)
    if not Polygon(outer).contains_properly(Polygon(inner)) or Polygon(outer).exterior.distance(Polygon(inner)) < 1e-6 * s:
        raise Unfit
    return a, poly(outer, [inner])


def a_poly(c, f, r, n, s):
    d, k = s * (0.3 + 0.7 * f[0]), c["k"]
    al = 2 * math.pi / k
    ao = d / 2 * math.cos(al / 2)
    t = ao * (0.03 + 0.8 * f[1])
    ai = ao - t
    a = {"d": d, "t": t, "n_sides": k}
    if c["opt"][0]:
        a["rot"] = float(c["rot"])
    rot = math.radians(a.get("rot", 0.0))
    ri = r[0] * ai * (1.3 if c["opt"][1] else 0.99)
    ro = 0.0
    if r[0] > 0:
        a.update(r_in=ri, n_r=n)
        ri = min(ri, ai)
        ro = ri + t

    def ring(apo, rad):
        big = apo / math.cos(al / 2)
        pts = [(big * math.cos(rot - math.pi / 2 + al / 2 + al * i), big * math.sin(rot - math.pi / 2 + al / 2 + al * i)) for i in range(k)]
        return rounded(pts, [rad] * k, n)

    return a, poly(ring(ao, ro), [ring(ai, ri)])


def i_pts(d, bt, bb, tt, tb, tw):
    x = max(bt, bb) / 2
    return [(x - bb / 2, 0), (x + bb / 2, 0), (x + bb / 2, tb), (x + tw / 2, tb), (x + tw / 2, d - tt), (x + bt / 2, d - tt),
            (x + bt / 2, d), (x - bt / 2, d), (x - bt / 2, d - tt), (x - tw / 2, d - tt), (x - tw / 2, tb), (x - bb / 2, tb)]


I_R = [0, 0, 0, 1, 1, 0, 0, 0, 0, 1, 1, 0]


def a_i(c, f, r, n, s):
    d, b = s * (0.3 + 0.7 * f[0]), s * (0.3 + 0.7 * f[1])
    tf, tw = d / 2 * (0.03 + 0.6 * f[2]), b * (0.03 + 0.7 * f[3])
    rad = min((b - tw) / 2, d / 2 - tf) * r[0] * 0.98
    return {"d": d, "b": b, "t_f": tf, "t_w": tw, "r": rad, "n_r": n}, poly(rounded(i_pts(d, b, b, tf, tf, tw), [rad * k for k in I_R], n))


def a_mono(c, f, r, n, s):
    d, bt, bb = s * (0.3 + 0.7 * f[0]), s * (0.3 + 0.7 * f[1]), s * (0.3 + 0.7 * f[2])
    tt, tb, tw = d / 2 * (0.03 + 0.6 * f[3]), d / 2 * (0.03 + 0.6 * f[4]), min(bt, bb) * (0.03 + 0.7 * f[5])
    rad = min((min(bt, bb) - tw) / 2, (d - tt - tb) / 2) * r[0] * 0.98
    a = {"d": d, "b_t": bt, "b_b": bb, "t_ft": tt, "t_fb": tb, "t_w": tw, "r": rad, "n_r": n}
    return a, poly(rounded(i_pts(d, bt, bb, tt, tb, tw), [rad * k for k in I_R], n))


def taper(c, f, r, s, span):
    """Common parameters of tapered flanges; span(b, tw) is the sloping length."""
    d, b = s * (0.5 + 0.5 * f[0]), s * (0.3 + 0.5 * f[1])
    tw = b * (0.05 + 0.3 * f[2])
    alpha = 14.0 * f[3] if not c["opt"][0] else 0.0
    ta = math.tan(math.radians(alpha))
    L = span(b, tw)
    tf = d * (0.06 + 0.2 * f[4]) + L / 2 * ta
    tip, root = tf - L / 2 * ta, tf + L / 2 * ta
    rf, rr = r[0] * min(tip, L / 2) * 0.9, r[1] * min(L / 2, d / 2 - root) * 0.9
    if rr < 0:
        raise Unfit
    return d, b, tw, alpha, tf, tip, root, rf, rr


def a_tfi(c, f, r, n, s):
    d, b, tw, alpha, tf, tip, root, rf, rr = taper(c, f, r, s, lambda b, tw: (b - tw) / 2)
    x1, x2 = (b - tw) / 2, (b + tw) / 2
    pts = [(0, 0), (b, 0), (b, tip), (x2, root), (x2, d - root), (b, d - tip), (b, d), (0, d), (0, d - tip), (x1, d - root), (x1, root), (0, tip)]
    rad = [0, 0, rf, rr, rr, rf, 0, 0, rf, rr, rr, rf]
    return {"d": d, "b": b, "t_f": tf, "t_w": tw, "r_r": rr, "r_f": rf, "alpha": alpha, "n_r": n}, poly(rounded(pts, rad, n))


def a_tfc(c, f, r, n, s):
    d, b, tw, alpha, tf, tip, root, rf, rr = taper(c, f, r, s, lambda b, tw: b - tw)
    pts = [(0, 0), (b, 0), (b, tip), (tw, root), (tw, d - root), (b, d - tip), (b, d), (0, d)]
    rad = [0, 0, rf, rr, rr, rf, 0, 0]
    return {"d": d, "b": b, "t_f": tf, "t_w": tw, "r_r": rr, "r_f": rf, "alpha": alpha, "n_r": n}, poly(rounded(pts, rad, n))


def a_pfc(c, f, r, n, s):
    d, b = s * (0.3 + 0.7 * f[0]), s * (0.3 + 0.7 * f[1])
    tf, tw = d / 2 * (0.03 + 0.6 * f[2]), b * (0.03 + 0.7 * f[3])
    rad = min(b - tw, d / 2 - tf) * r[0] * 0.98
    pts = [(0, 0), (b, 0), (b, tf), (tw, tf), (tw, d - tf), (b, d - tf), (b, d), (0, d)]
    return {"d": d, "b": b, "t_f": tf, "t_w": tw, "r": rad, "n_r": n}, poly(rounded(pts, [0, 0, 0, rad, rad, 0, 0, 0], n))


def a_tee(c, f, r, n, s):
    d, b = s * (0.3 + 0.7 * f[0]), s * (0.3 + 0.7 * f[1])
    tf, tw = d * (0.03 + 0.6 * f[2]), b * (0.03 + 0.7 * f[3])
    rad = min((b - tw) / 2, d - tf) * r[0] * 0.98
    x1, x2 = (b - tw) / 2, (b + tw) / 2
    pts = [(x1, 0), (x2, 0), (x2, d - tf), (b, d - tf), (b, d), (0, d), (0, d - tf), (x1, d - tf)]
    return {"d": d, "b": b, "t_f": tf, "t_w": tw, "r": rad, "n_r": n}, poly(rounded(pts, [0, 0, rad, 0, 0, 0, 0, rad], n))


def a_angle(c, f, r, n, s):
    d, b = s * (0.3 + 0.7 * f[0]), s * (0.3 + 0.7 * f[1])
    t = min(d, b) * (0.03 + 0.6 * f[2])
    rt = t * (1.0 if c["opt"][0] and r[1] else r[1])
    rr = (min(d, b) - t - (rt if rt else 0)) * r[0] * 0.98
    if rr < 0:
        raise Unfit
    pts = [(0, 0), (b, 0), (b, t), (t, t), (t, d), (0, d)]
    return {"d": d, "b": b, "t": t, "r_r": rr, "r_t": rt, "n_r": n}, poly(rounded(pts, [0, 0, rt, rr, rt, 0], n))


def lips(c, f, r, s, b, d):
    """Thickness, outer radius and lip of cold-formed sections."""
    t = min(d, b) * (0.02 + 0.15 * f[5])
    ro = min(b / 2, d / 2 - t) * r[0] * 0.95
    k = int(f[6] * 100) % 4
    if k == 0:
        lip = 0.0
    elif k == 1:
        lip = t * f[7]
    elif k == 2:
        lip = t + max(ro - t, 0) * f[7]
    else:
        lip = max(ro, t) * 1.02 + (d / 2 - max(ro, t)) * 0.9 * f[7]
    ri = max(ro - t, 0)
    rol, ril = ro, ri
    if lip <= ro:
        rol, ril = lip, max(lip - t, 0)
    return t, ro, ri, lip, rol, ril


def a_cee(c, f, r, n, s):
    d, b = s * (0.4 + 0.6 * f[0]), s * (0.3 + 0.5 * f[1])
    t, ro, ri, l, rol, ril = lips(c, f, r, s, b, d)
    if l <= t:
        pts = [(0, 0), (b, 0), (b, t), (t, t), (t, d - t), (b, d - t), (b, d), (0, d)]
        rad = [ro, 0, 0, ri, ri, 0, 0, ro]
    else:
        pts = [(0, 0), (b, 0), (b, l), (b - t, l), (b - t, t), (t, t), (t, d - t), (b - t, d - t), (b - t, d - l), (b, d - l), (b, d), (0, d)]
        rad = [ro, rol, 0, 0, ril, ri, ri, ril, 0, 0, rol, ro]
    return {"d": d, "b": b, "l": l, "t": t, "r_out": ro, "n_r": n}, poly(rounded(pts, rad, n))


def a_zed(c, f, r, n, s):
    d, bl, br = s * (0.4 + 0.6 * f[0]), s * (0.3 + 0.5 * f[1]), s * (0.3 + 0.5 * f[2])
    t, ro, ri, l, rol, ril = lips(c, f, r, s, min(bl, br), d)
    x = t - bl
    if l <= t:
        pts = [(0, 0), (br, 0), (br, t), (t, t), (t, d), (x, d), (x, d - t), (0, d - t)]
        rad = [ro, 0, 0, ri, ro, 0, 0, ri]
    else:
        pts = [(0, 0), (br, 0), (br, l), (br - t, l), (br - t, t), (t, t), (t, d), (x, d), (x, d - l), (x + t, d - l), (x + t, d - t), (0, d - t)]
        rad = [ro, rol, 0, 0, ril, ri, ro, rol, 0, 0, ril, ri]
    return {"d": d, "b_l": bl, "b_r": br, "l": l, "t": t, "r_out": ro, "n_r": n}, poly(rounded(pts, rad, n))


def a_box(c, f, r, n, s):
    d, bt, bb = s * (0.3 + 0.7 * f[0]), s * (0.3 + 0.7 * f[1]), s * (0.3 + 0.7 * f[2])
    if c["opt"][0]:
        bb = bt
    tt, tb, tw = d * (0.02 + 0.4 * f[3]), d * (0.02 + 0.4 * f[4]), min(bt, bb) / 2 * (0.02 + 0.6 * f[5])
    x = max(bt, bb) / 2
    outer = Polygon([(x - bb / 2, 0), (x + bb / 2, 0), (x + bt / 2, d), (x - bt / 2, d)])
    # inside: a distance t_w from both webs and between the flanges
    run = (bt - bb) / 2
    hyp = math.hypot(run, d)
    inner = []
    for y in (tb, d - tt):
        half = bb / 2 + run * y / d - tw * hyp / d
        if half <= 1e-3 * s:
            raise Unfit
        inner.append((y, half))
    (y0, h0), (y1, h1) = inner
    return {"d": d, "b_t": bt, "b_b": bb, "t_ft": tt, "t_fb": tb, "t_w": tw}, poly(outer.exterior, [[(x - h0, y0), (x + h0, y0), (x + h1, y1), (x - h1, y1)]])


def a_bulb(c, f, r, n, s):
    d = s * (0.5 + 0.5 * f[0])
    b, t = d * (0.05 + 0.2 * f[1]), d * (0.02 + 0.1 * f[2])
    rad = b * (0.1 + 0.4 * f[3])
    y = d - (rad + rad * math.tan(math.pi / 6) + b * math.tan(math.pi / 6))  # underside of the bulb at the web
    k = math.tan(math.pi / 6)
    pts = [(-t / 2, 0), (t / 2, 0), (t / 2, y), (t / 2 + b, y + b * k), (t / 2 + b, d), (-t / 2, d)]
    a = {"d": d, "b": b, "t": t, "r": rad, "n_r": n}
    if c["opt"][0]:
        a["d_b"] = d - y
    return a, poly(rounded(pts, [0, 0, rad, rad, rad, 0], n))


ARCS = {
    "rectangular_section": a_rect, "triangular_section": a_tri, "triangular_radius_section": a_trir, "circular_section": a_circ,
    "circular_section_by_area": a_circa, "elliptical_section": a_ell, "cruciform_section": a_cross, "circular_hollow_section": a_chs,
    "elliptical_hollow_section": a_ehs, "rectangular_hollow_section": a_rhs, "polygon_hollow_section": a_poly, "i_section": a_i,
    "mono_i_section": a_mono, "tapered_flange_i_section": a_tfi, "tapered_flange_channel": a_tfc, "channel_section": a_pfc,
    "tee_section": a_tee, "angle_section": a_angle, "cee_section": a_cee, "zed_section": a_zed, "box_girder_section": a_box,
    "bulb_section": a_bulb,
}


def check_arcs(case):
    name, n = case["name"], case["n"]
    try:
        args, want = ARCS[name](case, case["f"], case["rad"], n, case["size"])
    except Unfit:
        return Info(discard=True)
    x0, y0, x1, y1 = want.bounds
    if want.area < 1e-5 * max(x1 - x0, y1 - y0) ** 2:
        return Info(discard=True)
    mat = material_of(case)
    what = f"{name}({', '.join(f'{k}={v:g}' for k, v in args.items())})"
    try:
        g = call(name, args, mat)
    except Exception as e:
        raise Violation(f"{what} was refused: {e!r}") from None
    single = n == 1 and "n_r" in args and any(k.startswith("r") and v and k != "rot" for k, v in args.items()) and name != "triangular_radius_section"
    if single:
        q = g.geom
        ensure(q.is_valid and q.area > 0, f"{what}: the outline is invalid ({shapely.is_valid_reason(q)})")
        b, w = np.array(q.bounds), np.array(want.bounds)
        # a single point per arc: the outline may only be cut back at the rounded corners
        r = max([v for k, v in args.items() if k.startswith("r") and k != "rot"]) + args.get("t", 0.0)
        ensure(np.all(abs(b - w) <= r * 1.0000001) and q.buffer(1e-9 * case["size"]).area > 0, f"{what}: bounding box {b.tolist()}, expected about {w.tolist()}")
    else:
        compare(g, want, what)
    same_material(g, mat, what)
    return Info(nontrivial=not single, tags=(name, "single point" if single else "full"))


# ------------------------------------------------------------------- plate sections
def B(*r):
    """Union of boxes (x0, y0, x1, y1)."""
    u = shapely.union_all([box(*q) for q in r])
    if u.geom_type != "Polygon":
        raise Unfit
    return u


def hole(o, *holes):
    for h in holes:
        if not (h[0] < h[2] and h[1] < h[3]) or not box(*o).contains_properly(box(*h)):
            raise Unfit
    return Polygon(box(*o).exterior, [box(*h).exterior for h in holes])


def n_bar(p):
    w, h = p[:2]
    return [w, h], hole((0, 0, w, h))


def n_box(p):
    w, h, tv, th = p[0], p[1], p[2] * p[1], p[3] * p[0]
    return [w, h, tv, th], hole((0, 0, w, h), (th, tv, w - th, h - tv))


def n_box1(p):
    w, h = p[:2]
    top, bot, left, right = p[2] * h, p[3] * h, p[4] * w, p[5] * w
    return [w, h, top, bot, left, right], hole((0, 0, w, h), (left, bot, w - right, h - top))


def n_chan(p):
    w, h, tw, tf = p[0], p[1], p[2] * p[0], p[3] * p[1]
    if 2 * tf >= h:
        raise Unfit
    return [w, h, tw, tf], B((0, 0, tw, h), (0, 0, w, tf), (0, h - tf, w, h))


def n_chan1(p):
    out, tw, hi, h = p[0], p[2], p[1] * p[3], p[1]
    tf = (h - hi) / 2
    return [out, tw, hi, h], B((0, 0, tw, h), (0, 0, tw + out, tf), (0, h - tf, tw + out, h))


def n_chan2(p):
    w, h, tc, tw = p[0], p[1], p[2] * p[0], p[3] * p[1]
    if 2 * tc >= w:
        raise Unfit
    return [tc, tw, h, w], B((0, 0, w, tw), (0, 0, tc, h), (w - tc, 0, w, h))


def n_cross(p):
    out, tv, h, th = p[0], p[2], p[1], p[3] * p[1]
    return [out, tv, h, th], B((out / 2, 0, out / 2 + tv, h), (0, (h - th) / 2, out + tv, (h + th) / 2))


def n_fcross(p):
    h, w = p[0] + 0.2, p[1] + 0.2
    tv, th = 0.4 * p[2] * w, 0.4 * p[3] * h
    t6, t8 = p[4] * (h - th) / 2 * 0.95, p[5] * (w - tv) / 2 * 0.95
    l5, l7 = tv + (w - tv) * p[6] * 0.99, th + (h - th) * p[7] * 0.99
    if l5 >= w - 2 * t8 and l7 >= h - 2 * t6:
        raise Unfit
    u = B((-tv / 2, -h / 2, tv / 2, h / 2), (-w / 2, -th / 2, w / 2, th / 2), (-l5 / 2, h / 2 - t6, l5 / 2, h / 2), (-l5 / 2, -h / 2, l5 / 2, -h / 2 + t6),
          (w / 2 - t8, -l7 / 2, w / 2, l7 / 2), (-w / 2, -l7 / 2, -w / 2 + t8, l7 / 2))
    if u.interiors:
        raise Unfit
    return [h, w, tv, th, l5, t6, l7, t8], u


def n_dbox(p):
    w, h = p[0] + 0.2, p[1] + 0.2
    left, mid, right = 0.3 * p[2] * w, 0.3 * p[3] * w, 0.3 * p[4] * w
    x = left + mid / 2 + (w - left - right - mid) * (0.02 + 0.96 * p[5])  # centre line of the middle wall
    tl, bl, tr, br = p[6] * h * 0.49, p[7] * h * 0.49, p[8] * h * 0.49, p[9] * h * 0.49
    return [w, h, x, left, mid, right, tl, bl, tr, br], hole((0, 0, w, h), (left, bl, x - mid / 2, h - tl), (x + mid / 2, br, w - right, h - tr))


def n_gbox(p):
    w, h = p[0] + 0.2, p[1] + 0.2
    tt, tb = p[2] * h * 0.49, p[3] * h * 0.49
    tw = 0.3 * p[4] * w
    gap = (w - 2 * tw) * p[5] * 0.98
    c = w / 2
    u = B((0, 0, w, tb), (0, h - tt, w, h), (c - gap / 2 - tw, 0, c - gap / 2, h), (c + gap / 2, 0, c + gap / 2 + tw, h))
    return [w, h, tt, tb, tw, gap], u


def n_h(p):
    gap, tv2, h, tw = p[0], p[1], p[2], p[3] * p[2]
    t = tv2 / 2
    return [gap, tv2, h, tw], B((0, 0, t, h), (t + gap, 0, 2 * t + gap, h), (0, (h - tw) / 2, 2 * t + gap, (h + tw) / 2))


def hat(h, t, top, out):
    return B((0, 0, out + t, t), (out, 0, out + t, h), (out, h - t, out + top, h), (out + top - t, 0, out + top, h), (out + top - t, 0, 2 * out + top, t))


def n_hat(p):
    h, top, out = p[0], p[1], p[3]
    t = min(h, top) * p[2] * 0.49
    return [h, t, top, out], hat(h, t, top, out)


def n_hat1(p):
    w, h = p[0] + 0.2, p[1] + 0.2
    top = w * (0.1 + 0.88 * p[2])
    tp = h * 0.4 * p[3]
    t = min(h - tp, top) * p[4] * 0.49
    q = shapely.affinity.translate(hat(h - tp, t, top, (w - top) / 2), 0, tp)
    return [w, h, top, t, tp], shapely.union_all([q, box(0, 0, w, tp)])


def n_hexa(p):
    w, h, c = p[0] + 0.2, p[1], (p[0] + 0.2) * 0.49 * p[2]
    return [c, w, h], Polygon([(c, 0), (w - c, 0), (w, h / 2), (w - c, h), (c, h), (0, h / 2)])


def n_i(p):
    h, bb, bt = p[0], p[1], p[2]
    tw, tb, tt = min(bb, bt) * p[3] * 0.98, h * p[4] * 0.49, h * p[5] * 0.49
    return [h, bb, bt, tw, tb, tt], Polygon(i_pts(h, bt, bb, tt, tb, tw))


def n_i1(p):
    out2, tw, h, hi = p[0], p[1], p[2], p[3] * p[2] * 0.98
    b = out2 + tw
    t = (h - hi) / 2
    return [out2, tw, hi, h], Polygon(i_pts(h, b, b, t, t, tw))


def n_l(p):
    w, h = p[:2]
    tf, tw = p[2] * h * 0.98, p[3] * w * 0.98
    return [w, h, tf, tw], B((0, 0, w, tf), (0, 0, tw, h))


def n_rod(p):
    n = 3 + int(p[1] * 60)
    return [p[0], n], Polygon(circle(n, p[0]))


def n_tee(p):
    w, h = p[:2]
    tf, tw = p[2] * h * 0.98, p[3] * w * 0.98
    return [w, h, tf, tw], B((0, h - tf, w, h), ((w - tw) / 2, 0, (w + tw) / 2, h))


def n_tee1(p):
    h, ln, tf, tw = p[0], p[1], p[2], p[3] * p[0] * 0.98
    return [h, ln, tf, tw], B((ln, 0, ln + tf, h), (0, (h - tw) / 2, ln + tf, (h + tw) / 2))


def n_tee2(p):
    w, h = p[:2]
    tf, tw = p[2] * h * 0.98, p[3] * w * 0.98
    return [w, h, tf, tw], B((0, 0, w, tf), ((w - tw) / 2, 0, (w + tw) / 2, h))


def n_tube(p):
    n = 3 + int(p[2] * 60)
    r, ri = p[0], p[0] * p[1] * 0.98
    return [r, ri, n], Polygon(circle(n, r), [circle(n, ri)])


def n_tube2(p):
    n = 3 + int(p[2] * 60)
    r, t = p[0], p[0] * p[1] * 0.98
    return [r, t, n], Polygon(circle(n, r), [circle(n, r - t)])


def n_zed(p):
    a, tw, h, hi = p[0], p[1], p[2], p[3] * p[2] * 0.98
    t = (h - hi) / 2
    return [a, tw, hi, h], B((a, 0, a + tw, h), (a, 0, 2 * a + tw, t), (0, h - t, a + tw, h))


NAS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("n_")}
# dimensions that violate one condition each: (parameters, index to change, factor on the limit)
LIMIT = {
    "box": [(2, lambda d: d[1] / 2), (3, lambda d: d[0] / 2)],
    "box1": [(2, lambda d: d[1] - d[3]), (5, lambda d: d[0] - d[4])],
    "chan": [(3, lambda d: d[1] / 2), (2, lambda d: d[0])],
    "chan1": [(2, lambda d: d[3])],
    "chan2": [(0, lambda d: d[3] / 2), (1, lambda d: d[2])],
    "cross": [(3, lambda d: d[2])],
    "fcross": [(7, lambda d: d[1] / 2 - d[2] / 2), (5, lambda d: d[0] / 2 - d[3] / 2), (4, lambda d: d[1]), (6, lambda d: d[0]), (2, lambda d: d[4]), (3, lambda d: d[6])],
    "dbox": [(2, lambda d: d[0] - d[4] / 2 - d[5]), (3, lambda d: d[2] - d[4] / 2), (6, lambda d: d[1] - d[7]), (9, lambda d: d[1] - d[8]), (5, lambda d: d[0] - d[2] - d[4] / 2)],
    "gbox": [(2, lambda d: d[1] - d[3]), (5, lambda d: d[0] - 2 * d[4])],
    "h": [(3, lambda d: d[2])],
    "hat": [(1, lambda d: d[0] / 2), (1, lambda d: d[2] / 2)],
    "hat1": [(2, lambda d: d[0]), (3, lambda d: (d[1] - d[4]) / 2), (3, lambda d: d[2] / 2)],
    "hexa": [(0, lambda d: d[1] / 2)],
    "i": [(4, lambda d: d[0] - d[5]), (3, lambda d: d[1]), (3, lambda d: d[2])],
    "i1": [(2, lambda d: d[3])],
    "l": [(3, lambda d: d[0]), (2, lambda d: d[1])],
    "tee": [(3, lambda d: d[0]), (2, lambda d: d[1])],
    "tee1": [(3, lambda d: d[0])],
    "tee2": [(3, lambda d: d[0]), (2, lambda d: d[1])],
    "tube": [(1, lambda d: d[0])],
    "tube2": [(1, lambda d: d[0])],
    "zed": [(2, lambda d: d[3])],
}


@st.composite
def nastran_case(draw):
    return {"name": draw(st.sampled_from(sorted(NAS))), "p": [draw(frac(3, 97)) for _ in range(10)], "size": draw(st.sampled_from([1.0, 100.0, 7.5, 0.02, 5000.0])),
            "mat": draw(st.one_of(st.none(), gen.material())), "bad": draw(st.integers(0, 9)), "over": draw(st.sampled_from([1.0, 1.001, 1.5, 3.0])), "pos": draw(st.booleans())}


def check_nastran(case):
    import sectionproperties.pre.library as lib

    name = case["name"]
    s = case["size"]
    try:
        d, want = NAS[name](case["p"])
    except Unfit:
        return Info(discard=True)
    if not want.is_valid or want.area < 1e-4 or (name == "gbox" and len(want.interiors) != 1) or any(Polygon(r).area < 1e-6 for r in want.interiors):
        return Info(discard=True)
    want = shapely.affinity.scale(want, s, s, origin=(0, 0))
    curved = name in ("rod", "tube", "tube2")
    d = [v * s if not (curved and i == len(d) - 1) else v for i, v in enumerate(d)]
    mat = material_of(case)
    fn = getattr(lib, f"nastran_{name}")
    keys = [f"dim_{i + 1}" for i in range(len(d))]
    if curved:
        keys[-1] = "n"
    what = f"nastran_{name}({', '.join(f'{v:g}' for v in d)})"

    def make(vals):
        kw = {} if mat is None else {"material": mat}
        if case["pos"]:
            return fn(*vals, **kw)
        return fn(**dict(zip(keys, vals)), **kw)

    try:
        g = make(d)
    except Exception as e:
        raise Violation(f"{what} was refused: {e!r}") from None
    # drawn by plates, the points of the outline are those of the union without collinear points
    compare(g, want, what, shift=True, count=False)
    same_material(g, mat, what)
    ensure(len(g.recovery_points) == 4, f"{what}: {len(g.recovery_points)} recovery points")
    lim = LIMIT.get(name, [])
    if lim:
        i, f = lim[case["bad"] % len(lim)]
        bad = list(d)
        bad[i] = f(d) * case["over"] + (0 if case["over"] > 1 else 1e-9 * s)
        if name in ("fcross",) and i in (2, 3):
            bad[i] = f(d) * case["over"] + 1e-9 * s
        try:
            g = make(bad)
        except ValueError:
            pass
        except Exception as e:
            raise Violation(f"nastran_{name}{tuple(round(v, 6) for v in bad)} is impossible, but failed with {e!r}") from None
        else:
            raise Violation(f"nastran_{name}{tuple(round(v, 6) for v in bad)} is impossible, but gave an outline of area {g.geom.area:.6g}")
    return Info(nontrivial=True, tags=(name,))


# -------------------------------------------------------------- bridges and refusals
I_DIMS = {  # AS 5100.5 figure D1: top width, bottom width, web, depths from the top
    1: (200, 300, 120, 100, 40, 420, 90, 100), 2: (350, 450, 150, 100, 100, 450, 150, 100),
    3: (450, 500, 150, 130, 150, 545, 175, 150), 4: (500, 650, 150, 150, 175, 650, 250, 175)}
T_DIMS = {1: (675, 240, 100), 2: (925, 240, 100), 3: (1125, 260, 100), 4: (1425, 260, 100), 5: (1725, 325, 120)}


@st.composite
def bridge_case(draw):
    return {"k": draw(st.sampled_from(["i", "t", "t", "bad"])), "type": draw(ints(1, 5)), "sub": draw(ints(1, 2)), "w": draw(ints(1350, 2600)), "tf": draw(ints(70, 200)),
            "tw": draw(ints(80, 160)), "opt": [draw(st.booleans()) for _ in range(4)], "mat": draw(st.one_of(st.none(), gen.material())),
            "bad": draw(st.sampled_from(["i0", "i5", "t0", "t6", "sub0", "sub3", "t5s1", "toe", "sides", "tneg"])), "x": draw(ints(1, 50))}


def check_bridge(case):
    import sectionproperties.pre.library as lib

    mat = material_of(case)
    if case["k"] == "i":
        k = min(case["type"], 4)
        bt, bb, bw, *h = I_DIMS[k]
        g = call("i_girder_section", {"girder_type": k}, mat)
        y = [0]
        for v in h:
            y.append(y[-1] - v)
        half = [bt / 2, bt / 2, bw / 2, bw / 2, bb / 2, bb / 2]
        compare(g, Polygon([(a, b) for a, b in zip(half, y)] + [(-a, b) for a, b in zip(half[::-1], y[::-1])]), f"i_girder_section({k})")
        same_material(g, mat, f"i_girder_section({k})")
        return Info(nontrivial=False, tags=("i girder",))
    if case["k"] == "t":
        k = case["type"]
        args = {"girder_type": k}
        sub = 2
        if case["opt"][0]:
            sub = args["girder_subtype"] = 2 if k == 5 else case["sub"]
        w = args["w"] = float(case["w"]) if case["opt"][1] else 2100.0
        if not case["opt"][1]:
            args.pop("w")
        d, tb, tw = T_DIMS[k]
        if case["opt"][2]:
            tw = args["t_w"] = float(case["tw"])
        tf = args["t_f"] = float(case["tf"]) if case["opt"][3] else 75.0
        if not case["opt"][3]:
            args.pop("t_f")
        what = f"super_t_girder_section({args})"
        g = call("super_t_girder_section", args, mat)
        q = g.geom
        ensure(q.is_valid and q.geom_type == "Polygon" and not q.interiors, f"{what}: invalid outline")
        b = q.bounds
        for got, exp, nm in zip(b, (-w / 2, -d, w / 2, tf), ("left", "bottom", "right", "top")):
            close(f"{what}: {nm} edge", got, exp, 1e-9, 1.0)
        m = shapely.affinity.scale(q, -1, 1, origin=(0, 0))
        ensure(q.symmetric_difference(m).area <= 1e-6 * q.area, f"{what}: not symmetric")
        same_material(g, mat, what)
        # thicknesses along section lines
        col = q.intersection(shapely.LineString([(0, -d - 10), (0, tf + 10)]))
        close(f"{what}: thickness of the bottom flange", col.length, tb, 1e-6)
        col = q.intersection(shapely.LineString([(w / 2 - 20, -d - 10), (w / 2 - 20, tf + 10)]))
        close(f"{what}: thickness of the top flange", col.length, tf, 1e-6)
        y = -0.45 * (d - tb)
        row = q.intersection(shapely.LineString([(0, y), (w, y)]))
        slope = 10.556
        close(f"{what}: web thickness", row.length * slope / math.hypot(1, slope), tw, 0.03, 1.0, 0.03 * 100)
        return Info(tags=(f"super T{k}", f"subtype {sub}"))
    x = case["x"]
    bad = {
        "i0": lambda: lib.i_girder_section(girder_type=1 - x), "i5": lambda: lib.i_girder_section(girder_type=4 + x),
        "t0": lambda: lib.super_t_girder_section(girder_type=1 - x), "t6": lambda: lib.super_t_girder_section(girder_type=5 + x),
        "sub0": lambda: lib.super_t_girder_section(girder_type=case["type"], girder_subtype=1 - x),
        "sub3": lambda: lib.super_t_girder_section(girder_type=case["type"], girder_subtype=2 + x),
        "t5s1": lambda: lib.super_t_girder_section(girder_type=5, girder_subtype=1),
        "tneg": lambda: lib.super_t_girder_section(girder_type=-x),
        "toe": lambda: lib.angle_section(d=100 + x, b=90, t=x / 5, r_r=3, r_t=x / 5 * (1 + x / 100), n_r=case["sub"] + 3),
        "sides": lambda: lib.polygon_hollow_section(d=10 * x, t=x / 10, n_sides=x % 3),
    }[case["bad"]]
    try:
        g = bad()
    except ValueError:
        return Info(tags=("refused", case["bad"]))
    except Exception as e:
        raise Violation(f"{case['bad']}: failed with {e!r} instead of a ValueError") from None
    raise Violation(f"{case['bad']}: impossible parameters were accepted")


FAMILIES = [
    Family("steel", arcs_case, check_arcs, 4000, 60000, rule="all primitive and steel sections, radii from zero to the largest that fits; non-trivial = arcs of two or more points"),
    Family("nastran", nastran_case, check_nastran, 2500, 30000, rule="all NASTRAN sections, and dimensions that violate one condition; non-trivial = always"),
    Family("bridge", bridge_case, check_bridge, 400, 4000, rule="girders of all types and parameters, documented refusals; non-trivial = super T girders and refusals"),
]
