"""P14: the stress at a point is the stress of the element field at that point."""

from __future__ import annotations

import numpy as np
import shapely
from hypothesis import strategies as st

from checks.stress import ACTIONS, NORMAL, SHEAR, Stress, actions, base, scaled
from vkit import oracle, sut
from vkit.core import Family, Info, Violation, ensure, kept

ASSUMPTIONS = ["points within rounding of an element edge may be answered from either element",
               "a point of the boundary may be answered or not, as rounding places it"]

AGG = {"default": None, "max": max, "min": min, "first": lambda v: v[0]}


@st.composite
def point(draw):
    k = draw(st.sampled_from(["inside", "inside", "box", "box", "node", "edge", "hole", "nearhole", "far"]))
    return {"k": k, "i": draw(st.integers(0, 400)), "p": draw(st.integers(1, 18)), "q": draw(st.integers(1, 18)),
            "u": draw(st.integers(-40, 140)), "v": draw(st.integers(-40, 140))}


@st.composite
def case_(draw):
    b = draw(st.one_of(base(nmax=25), sut.comp_case(nmax=25, connected=False)))
    return {"base": b, "act": draw(actions()), "warp": draw(st.booleans()),
            "pts": draw(st.lists(point(), min_size=1, max_size=12)), "agg": draw(st.sampled_from(sorted(AGG))),
            "perm": draw(st.integers(0, 1000))}


def make_points(s, specs):
    r = s.ref
    union = [g for g, _ in s.parts]
    hull = oracle.union(union)
    out = []
    voids = []
    polys = list(hull.geoms) if hull.geom_type == "MultiPolygon" else [hull]
    for g in polys:
        voids += [shapely.Polygon(h.coords) for h in g.interiors]
    for d in specs:
        k = d["k"]
        if k in ("inside", "edge"):
            e = d["i"] % len(s.t)
            p, q = d["p"] / 20, d["q"] / 20
            if p + q > 0.97:
                p, q = 1 - p, 1 - q
                if p + q > 0.97:
                    p = q = 0.4
            L = np.array([p, q, 1 - p - q])
            if k == "edge":
                L = np.roll([p, 1 - p, 0.0], d["v"] % 3)
            pt = L @ s.v[s.t[e, :3]]
        elif k == "node":
            pt = s.v[s.t[d["i"] % len(s.t), d["p"] % 3]]
        elif k in ("hole", "nearhole") and voids:
            h = voids[d["i"] % len(voids)]
            c = np.array(h.representative_point().coords[0])
            if k == "nearhole":
                ring = np.asarray(h.exterior.coords)
                a = ring[d["p"] % (len(ring) - 1)]
                c = c + (a - c) * (1 + (d["u"] - 50) / 400.0)
            pt = c
        elif k == "far":
            pt = np.array([r.xmax + d["p"] * r.size, r.ymin - d["q"] * r.size])
        else:
            pt = np.array([r.xmin + (r.xmax - r.xmin) * (d["u"] + 0.37) / 100, r.ymin + (r.ymax - r.ymin) * (d["v"] + 0.23) / 100])
        out.append((float(pt[0]), float(pt[1])))
    return out


def bary(s, pt):
    """Barycentric coordinates of pt in every element."""
    c = s.v[s.t[:, :3]] - np.asarray(pt)
    a = [(c[:, (i + 1) % 3, 0] * c[:, (i + 2) % 3, 1] - c[:, (i + 1) % 3, 1] * c[:, (i + 2) % 3, 0]) for i in range(3)]
    return np.stack(a, 1) / (2 * s.el_area)[:, None]


def element_values(s, els, pt, L, act, warp):
    """(n, 3) values of zz, zx, zy at pt in elements els (barycentric L)."""
    p = np.repeat(np.asarray(pt)[None], len(els), axis=0)
    nz = s.normal(p, s.e_el[els], act)
    out = np.zeros((len(els), 3))
    out[:, 0] = sum(nz[a] for a in NORMAL)
    if warp:
        sh = s.shear_at(els, L)
        for a in SHEAR:
            out[:, 1:] += sh[a] * act[a]
    return out


def check(case):
    b = case["base"]
    island = "comp" in b and b["comp"]["parts"]["k"] == "island"
    warp = case["warp"] and not island
    s = Stress(b, warping=warp)
    sec = s.sec
    act = scaled(case["act"], s.size)
    if not warp:
        for a in SHEAR:
            act[a] = 0.0
    pts = make_points(s, case["pts"])
    kw = dict(act)
    agg = AGG[case["agg"]]
    if agg is not None:
        kw["agg_func"] = agg
    res = kept(sec.get_stress_at_points, pts=list(pts), **kw)
    ensure(len(res) == len(pts), f"{len(res)} answers for {len(pts)} points")
    rt = 1e-8 + 1e-11 * s.amp + 10 * s.local_noise
    emax = float(s.e_el.max())
    zz = sum(s.normal_scale(emax, act).values())
    zs = sum(float(np.abs(v).max()) * abs(act[a]) for a, v in s.shear_nodes().items()) if warp else 0.0
    scale = np.array([zz, zs, zs])
    mat = oracle.union([g for g, _ in s.parts])
    eps = 1e-9 * s.size + 1e-12 * s.ref.far
    tags = []
    multi = False
    for spec, pt, got in zip(case["pts"], pts, res):
        P = shapely.Point(pt)
        inside = shapely.contains(mat, P)
        dist = shapely.distance(shapely.boundary(mat), P)
        if not inside and dist > eps:
            ensure(got is None, f"stress {got} at {pt}, {dist:.4g} outside the section")
            tags.append("outside")
            continue
        if dist <= eps and spec["k"] != "node":
            tags.append("boundary")
            if got is None:
                continue
        else:
            ensure(got is not None, f"no stress at {pt}, inside the section")
        ensure(len(got) == 3, f"stress at a point is {got!r}")
        L = bary(s, pt)
        h = np.sqrt(s.el_area)
        tol_l = 1e-9 + 1e-12 * s.ref.far / h
        near = np.where((L >= -tol_l[:, None]).all(axis=1))[0]
        sure = np.where((L >= tol_l[:, None]).all(axis=1))[0]
        vals = element_values(s, near, pt, L[near], act, warp)
        g = np.array(got, dtype=float)
        tol = rt * scale + 1e-300
        if len(near) == 1 or len(sure) == 1:
            if len(sure) == 1:
                vals = element_values(s, sure, pt, L[sure], act, warp)
            bad = ~(np.abs(g - vals[0]) <= tol)
            if bad.any():
                raise Violation(f"stress at {pt} is {tuple(g)}, the element's field gives {tuple(vals[0])}")
            tags.append("interior")
        elif spec["k"] == "node" or case["agg"] == "default":
            multi = True
            # exactly at a vertex every element of the vertex counts
            # a point computed on an edge may be taken from one of them only
            cands = [vals.mean(axis=0)] if spec["k"] == "node" else [vals.mean(axis=0), *vals]
            if spec["k"] == "node" and case["agg"] != "default":
                f = {"max": lambda v: v.max(axis=0), "min": lambda v: v.min(axis=0), "first": None}[case["agg"]]
                cands = [f(vals)] if f else [vals[i] for i in range(len(vals))]
            if not any((np.abs(g - c) <= tol).all() for c in cands):
                raise Violation(f"stress at {pt} ({spec['k']}) is {tuple(g)}, expected {[tuple(map(float, c)) for c in cands][:3]} "
                                f"with {case['agg']} over {len(near)} elements")
            tags.append("vertex" if spec["k"] == "node" else "edge")
    # the answer for a point does not depend on the others or on their order
    n = len(pts)
    order = sorted(range(n), key=lambda i: ((i + 1) * (case["perm"] + 7)) % 101)
    res2 = sec.get_stress_at_points(pts=[pts[i] for i in order], **kw)
    for j, i in enumerate(order):
        ensure((res2[j] is None) == (res[i] is None) and (res[i] is None or np.allclose(res2[j], res[i], rtol=1e-12, atol=0)),
               f"stress at {pts[i]} is {res2[j]} in another order of points, {res[i]} before")
    one = sec.get_stress_at_points(pts=[pts[0]], **kw)
    ensure(len(one) == 1 and ((one[0] is None) == (res[0] is None)) and (one[0] is None or np.allclose(one[0], res[0], rtol=1e-12, atol=0)),
           f"stress at {pts[0]} alone is {one}, {res[0]} with other points")
    # agreement with the nodal field of one material
    post = sec.calculate_stress(**act)
    gr = s.groups(post)
    if len(gr) == 1 and case["agg"] == "default":
        d = gr[0][1]
        for spec, pt, got in zip(case["pts"], pts, res):
            if spec["k"] == "node" and got is not None:
                i = int(s.t[spec["i"] % len(s.t), spec["p"] % 3])
                want = np.array([d["sig_zz"][i], d["sig_zx"][i], d["sig_zy"][i]])
                ensure((np.abs(np.array(got) - want) <= rt * scale + 1e-300).all(),
                       f"stress at node {i} is {got}, the nodal field has {tuple(want)}")
                tags.append("nodal")
    kinds = set(tags)
    return Info(nontrivial=bool(kinds & {"interior", "vertex", "edge"}) and any(act[a] for a in ACTIONS),
                tags=(*sorted(kinds), "warping" if warp else "bending only", "composite" if s.comp else "single", case["agg"],
                      *(("several elements",) if multi else ())))


@st.composite
def element_case(draw):
    i = st.integers(-40, 40)
    return {"t": draw(st.lists(st.tuples(i, i), min_size=3, max_size=3, unique=True)), "s": draw(st.sampled_from([1.0, 0.001, 37.0])),
            "p": draw(st.lists(st.tuples(st.integers(-6, 18), st.integers(-6, 18)), min_size=1, max_size=8)),
            "flip": draw(st.booleans())}


def check_element(case):
    """Containment and local coordinates of one element against barycentric coordinates."""
    from sectionproperties.analysis.fea import Tri6
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    v = np.array(case["t"], dtype=float) * case["s"]
    a = (v[1, 0] - v[0, 0]) * (v[2, 1] - v[0, 1]) - (v[2, 0] - v[0, 0]) * (v[1, 1] - v[0, 1])
    size = np.abs(v - v[0]).max()
    if abs(a) < 0.02 * size**2:
        return Info(discard=True)
    if a < 0:
        v = v[::-1]
    c = np.vstack([v, (v[0] + v[1]) / 2, (v[1] + v[2]) / 2, (v[2] + v[0]) / 2]).T
    el = Tri6(0, c, list(range(6)), DEFAULT_MATERIAL)
    tags = set()
    for p, q in [*case["p"], (12, 0), (0, 12), (0, 0)]:
        L = np.array([p, q, 12 - p - q]) / 12
        pt = tuple((L @ v).tolist())
        edge = 0 in (p, q, 12 - p - q)
        corner = [i for i in range(3) if L[i] == 1.0 and np.count_nonzero(L) == 1]
        if corner:
            pt = tuple(v[corner[0]].tolist())
        if not edge or corner:
            want = bool((L >= 0).all())
            got = el.point_within_element(pt)
            if not corner or case["s"] == 1.0:
                ensure(got is want, f"point {pt} with area coordinates {L.tolist()} is {'in' if got else 'out'}side of the element {v.tolist()}")
        loc = np.array(el.local_coord(pt))
        ensure(np.abs(loc - L).max() <= 1e-9, f"area coordinates of {pt} are {loc.tolist()}, expected {L.tolist()}")
        tags.add("corner" if corner else "edge" if edge else "inside" if (L >= 0).all() else "outside")
    return Info(nontrivial="inside" in tags and "outside" in tags, tags=tuple(sorted(tags)))


@st.composite
def scale_case(draw):
    return dict(draw(case_()), base=draw(sut.wide(20, [1e-5, 1e-4, 1e4])))


@st.composite
def many_case(draw):
    return dict(draw(case_()), base=draw(sut.many(20, 400)))

FAMILIES = [
    Family("element", element_case, check_element, 400, 6000,
           rule="random triangle and points; non-trivial = points inside and outside"),
    Family("points", case_, check, 800, 8000,
           rule="random section, actions and points; non-trivial = a stress at a point under some action"),
    Family("scales", scale_case, sut.may_refuse(check), 160, 1600,
           rule="the same for sections of extreme size (1e-5 to 1e4 times the usual one)"),
    Family("many", many_case, check, 50, 500, rule="the same for up to 36 connected regions of up to 12 materials"),
]
