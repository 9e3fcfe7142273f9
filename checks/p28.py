"""P28: plots draw the geometry, mesh, centroids and stresses that the getters report.

Oracle: the generated polygons, the mesh, the getters, `get_stress` interpolated linearly over the
corner nodes of an element, and closed forms of the principal stresses.  The drawings are read back
from the matplotlib artists; nothing is compared as an image.
"""

from __future__ import annotations

import math
import os
import tempfile
import warnings

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import LineString, MultiLineString, Point, Polygon

from checks import stress
from vkit import gen, sut
from vkit.core import Family, Info, Violation, close, ensure

ASSUMPTIONS = [
    "matplotlib draws the artists handed to it (its own rendering is trusted)",
    "contours are linear between the corner nodes of an element; points within 1e-6 of the range from a level are not judged",
    "styles (line widths, marker sizes, positions of legends) are not claimed",
]
ints = st.integers
COLORS = ["red", "#00ff00", "blue", "orange", "#123456", "purple"]
SEQS = [[], ["geo"], ["geo", "warp"], ["geo", "plas"], ["geo", "warp", "plas"], ["geo", "plas", "warp"], ["frame"], ["frame", "geo", "plas"]]
CALL = {"geo": "calculate_geometric_properties", "warp": "calculate_warping_properties", "plas": "calculate_plastic_properties",
        "frame": "calculate_frame_properties"}
SHEARS = ["mzz", "vx", "vy", "v"]
CONTOURS = ([f"{a}_zz" for a in ("n", "mxx", "myy", "m11", "m22", "m")]
            + [f"{a}_{d}" for a in SHEARS for d in ("zx", "zy", "zxy")] + ["zz", "zx", "zy", "zxy", "11", "33", "vm"])
VECTORS = [f"{a}_zxy" for a in SHEARS] + ["zxy"]


def plt_():
    import matplotlib

    matplotlib.use("agg")
    import matplotlib.pyplot as plt

    return plt


def key(name):
    """The name in get_stress of a stress of plot_stress."""
    a = name.split("_")
    return f"sig_{a[1]}_{a[0]}" if len(a) == 2 else f"sig_{a[0]}"


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


class Drawn:
    """Draws into axes of its own, given axes or a file; closes the figure at the end."""

    def __init__(self, how):
        self.how = how
        self.plt = plt_()
        self.tmp = None

    def __call__(self, f, *a, **k):
        n0 = set(self.plt.get_fignums())
        try:
            if self.how == "ax":
                fig, ax = self.plt.subplots()
                got = quiet(f, *a, ax=ax, render=False, **k)
                ensure(got is ax, "the plot was not drawn in the given axes")
                return got
            if self.how == "file":
                self.tmp = tempfile.mkdtemp(prefix="p28_")
                name = os.path.join(self.tmp, "plot.png")
                got = quiet(f, *a, filename=name, **k)
                with open(name, "rb") as fh:
                    ensure(fh.read(8) == b"\x89PNG\r\n\x1a\n", "the plot was not saved as an image")
                ensure(set(self.plt.get_fignums()) == n0, "a figure that was saved is left open")
                return got
            if self.how == "index":
                got = quiet(f, *a, render=False, nrows=2, ncols=2, axis_index=(1, 0), **k)
                axs = [x for x in got.figure.axes if x.get_subplotspec() is not None and x.get_subplotspec().get_gridspec().get_geometry() == (2, 2)]
                others = [x for x in axs if x is not got]
                ensure(len(axs) == 4 or len(axs) == 3, f"{len(axs)} axes in a grid of two by two")
                ensure(all(not x.collections and not x.lines and not x.patches and not x.texts for x in others), "another axes than the one asked for was drawn in")
                return got
            return quiet(f, *a, render=False, **k)
        except BaseException:
            self.close()
            raise

    def close(self):
        self.plt.close("all")
        if self.tmp:
            for f in os.listdir(self.tmp):
                os.remove(os.path.join(self.tmp, f))
            os.rmdir(self.tmp)
            self.tmp = None


def rgba(c):
    from matplotlib.colors import to_rgba

    return np.array(to_rgba(c))


def same_color(got, want, what):
    ensure(np.abs(np.asarray(got)[:3] - np.asarray(want)[:3]).max() < 1e-9, f"{what}: colour {tuple(np.round(got, 3))}, expected {tuple(np.round(want, 3))}")


HOW = st.sampled_from(["", "", "", "ax", "file", "index"])


def colored(mats, case):
    from dataclasses import replace

    # materials that share a name are materials of their own
    return [replace(m, color=COLORS[(case["c"] + i) % len(COLORS)], name="same" if case.get("same") else m.name) for i, m in enumerate(mats)]


@st.composite
def base_case(draw, nmax=25):
    return {"base": draw(st.one_of(sut.single(nmax=nmax), sut.comp_case(nmax=nmax), sut.comp_case(nmax=nmax), sut.comp_case(nmax=nmax, connected=False))),
            "c": draw(ints(0, 5)), "how": draw(HOW)}


def geometry(case):
    """Geometry without a mesh, its parts [(polygon, material)], area."""
    p, _ = sut.api()
    b = case["base"]
    if "comp" in b:
        parts = sut.parts_of(b)
        mats = colored(sut.materials_of(b), case)
        return sut.comp_geom(b, parts, mats), [(q, mats[i]) for q, i in parts]
    g, poly = sut.geom_of(b)
    return g, [(poly, g.material)]


def section(case):
    _, a = sut.api()
    g, parts = geometry(case)
    m = case["base"]["mesh"]
    g.create_mesh(mesh_sizes=gen.mesh_size(sum(q.area for q, _ in parts), m["n"]), min_angle=m["ang"])
    return a.Section(geometry=g), parts


# ------------------------------------------------------------------- outline
@st.composite
def outline_case(draw):
    c = draw(base_case(nmax=4))
    c["labels"] = draw(st.lists(st.sampled_from(["control_points", "points", "facets", "holes"]), unique=True, max_size=4))
    c["cp"] = draw(ints(0, 3)) > 0
    c["legend"] = draw(st.booleans())
    c["default"] = draw(ints(0, 4)) == 0
    return c


def is_color(artist, name):
    return np.abs(rgba(artist) - rgba(name)).max() < 1e-9


def check_outline(c):
    from matplotlib.text import Annotation

    g, parts = geometry(c)
    size = math.hypot(*(np.subtract(shapely.union_all([q for q, _ in parts]).bounds[2:], shapely.union_all([q for q, _ in parts]).bounds[:2])))
    far = max(abs(v) for v in shapely.union_all([q for q, _ in parts]).bounds)
    tol = 1e-9 * size + 1e-12 + 1e-12 * far
    d = Drawn(c["how"])
    if c["default"]:
        labels, cp, legend = ["control_points"], True, True
        ax = d(g.plot_geometry)
    else:
        labels, cp, legend = c["labels"], c["cp"], c["legend"]
        ax = d(g.plot_geometry, labels=tuple(labels), cp=cp, legend=legend, title="T1")
    try:
        ensure(ax.get_title() == ("Cross-Section Geometry" if c["default"] else "T1"), f"title {ax.get_title()!r}")
        segs, holes, cps = [], [], []
        for ln in ax.lines:
            xy = np.column_stack(ln.get_data())
            if len(xy) > 1:
                ensure(is_color(ln.get_color(), "k"), "an outline is not black")
                segs.append(LineString(xy))
            elif is_color(ln.get_color(), "r"):
                holes.append(Point(xy[0]))
            elif is_color(ln.get_color(), "b"):
                cps.append(Point(xy[0]))
            else:
                raise Violation(f"a marker of colour {ln.get_color()}")
        # the outlines of all regions are drawn, and nothing else
        bounds = [q.boundary for q, _ in parts]
        allb = shapely.union_all([shapely.buffer(b, 4 * tol, quad_segs=2) for b in bounds])
        for s in segs:
            ensure(shapely.within(s, allb), f"the segment {list(s.coords)} is not part of an outline")
        drawn = shapely.union_all([shapely.buffer(s, 8 * tol, quad_segs=2) for s in segs])
        for b in bounds:
            miss = shapely.difference(b, drawn)
            ensure(miss.length < 100 * tol, f"{miss.length:.4g} of an outline of {b.length:.6g} is not drawn")
        ensure(len(cps) == (len(parts) if cp else 0), f"{len(cps)} control points drawn for {len(parts)} regions (cp={cp})")
        for pt, (q, _) in zip(cps, parts):
            ensure(q.contains(pt), f"the control point {pt.wkt} is outside of its region")
        total = shapely.union_all([q.buffer(2 * tol) for q, _ in parts])
        for pt in holes:
            ensure(not any(q.contains(pt) for q, _ in parts), f"the hole marker {pt.wkt} is in the material")
        voids = [Polygon(r) for q in (total.geoms if hasattr(total, "geoms") else [total]) for r in q.interiors]
        for v in voids:
            if v.area > 1e-6 * size**2:
                ensure(any(v.contains(pt) for pt in holes), f"a hole of {v.area:.4g} has no marker")
        ensure(len(holes) == len(g.holes), f"{len(holes)} markers for {len(g.holes)} holes")
        # labels
        texts = {"b": {}, "r": {}}
        for t in ax.texts:
            if isinstance(t, Annotation):
                for k in texts:
                    if is_color(t.get_color(), k):
                        texts[k].setdefault(t.get_text(), []).append(t.xy)
        want = {"b": {}, "r": {}}
        if "control_points" in labels:
            for i, pt in enumerate(g.control_points):
                want["b"].setdefault(str(i), []).append(tuple(pt))
        if "points" in labels:
            for i, pt in enumerate(g.points):
                want["r"].setdefault(str(i), []).append(tuple(pt))
        if "facets" in labels:
            for i, (a, b) in enumerate(g.facets):
                want["b"].setdefault(str(i), []).append(tuple(np.add(g.points[a], g.points[b]) / 2))
        if "holes" in labels:
            for i, pt in enumerate(g.holes):
                want["r"].setdefault(str(i), []).append(tuple(pt))
        for k in texts:
            ensure(set(texts[k]) == set(want[k]), f"labels {sorted(texts[k])}, expected {sorted(want[k])}")
            for t, xs in want[k].items():
                a, b = np.array(sorted(map(tuple, texts[k][t]))), np.array(sorted(xs))
                ensure(a.shape == b.shape and np.abs(a - b).max() <= tol, f"label {t} stands at {a.tolist()}, expected {b.tolist()}")
        ensure((ax.get_legend() is not None) == legend, f"legend drawn: {ax.get_legend() is not None}, asked for: {legend}")
    finally:
        d.close()
    return Info(nontrivial=len(parts) > 1 or bool(holes), tags=(c["how"] or "own", f"labels={len(labels)}"))


# ---------------------------------------------------------------------- mesh
@st.composite
def mesh_case(draw):
    c = draw(base_case())
    c["materials"] = draw(ints(0, 3)) > 0
    c["mask"] = draw(st.one_of(st.none(), st.none(), st.tuples(ints(0, 100), ints(0, 100), ints(1, 3))))
    return c


def check_mesh(c):
    s, parts = section(c)
    t = np.asarray(s.mesh["triangles"])[:, :3]
    v = np.asarray(s.mesh["vertices"], dtype=float)
    n = len(t)
    mask = None
    if c["mask"]:
        # keep a run of elements, every k-th of them
        i0, ln, k = c["mask"]
        i0 = i0 * n // 101
        keep = list(range(i0, min(n, i0 + 1 + ln * n // 101), k))
        mask = [i not in keep for i in range(n)]
    else:
        keep = list(range(n))
    d = Drawn(c["how"])
    ax = d(s.plot_mesh, materials=c["materials"], mask=mask, title="T2") if c["mask"] or not c["materials"] else d(s.plot_mesh)
    try:
        cen = v[t[keep]].mean(axis=1)
        owner = []
        for p in cen:
            o = [m for q, m in parts if q.contains(Point(p))]
            ensure(len(o) == 1, f"an element at {p.tolist()} lies in {len(o)} regions")
            owner.append(o[0])
        polys = [x for x in ax.collections]
        if c["materials"]:
            ensure(len(polys) == 1, f"{len(polys)} coloured meshes")
            pc = polys[0]
            pc.update_scalarmappable()
            fc = pc.get_facecolors()
            paths = pc.get_paths()
            ensure(len(paths) == len(keep) and len(fc) == len(keep), f"{len(paths)} elements of {len(keep)} are drawn in {len(fc)} colours")
            size = np.ptp(v, axis=0).max()
            for i, m in enumerate(owner):
                ensure(np.abs(paths[i].vertices[:3] - v[t[keep[i]]]).max() <= 1e-9 * size, f"element {keep[i]} is drawn elsewhere")
                same_color(fc[i], rgba(m.color), f"element {keep[i]} of material {m.name}")
            lg = ax.get_legend()
            ensure(lg is not None, "no legend of the materials")
            got = [(x.get_text(), tuple(np.round(h.get_facecolor()[:3], 6))) for x, h in zip(lg.get_texts(), lg.get_patches())]
            want = []
            for _, m in parts:
                if (m.name, tuple(np.round(rgba(m.color)[:3], 6))) not in want:
                    want.append((m.name, tuple(np.round(rgba(m.color)[:3], 6))))
            ensure(sorted(got) == sorted(want), f"legend {got}, materials {want}")
        else:
            ensure(not polys, "elements are coloured although no materials were asked for")
        # the edges of the elements
        want = {tuple(sorted(e)) for tri in t[keep] for e in ((tri[0], tri[1]), (tri[1], tri[2]), (tri[0], tri[2]))}
        index = {tuple(p): i for i, p in enumerate(v)}
        got = set()
        for ln in ax.lines:
            xy = np.column_stack(ln.get_data())
            for a, b in zip(xy[:-1], xy[1:]):
                if np.isfinite(a).all() and np.isfinite(b).all():
                    ensure(tuple(a) in index and tuple(b) in index, f"an edge from {a.tolist()} to {b.tolist()}")
                    got.add(tuple(sorted((index[tuple(a)], index[tuple(b)]))))
        ensure(got == want, f"{len(got - want)} edges too many and {len(want - got)} missing of {len(want)}")
    finally:
        d.close()
    return Info(nontrivial=len({m.name for m in owner}) > 1, tags=(c["how"] or "own", "mask" if c["mask"] else "all"))


# ------------------------------------------------------------------ centroids
@st.composite
def centroid_case(draw):
    c = draw(base_case(nmax=8))
    c["seq"] = draw(st.sampled_from(SEQS))
    return c


def check_centroids(c):
    s, parts = section(c)
    for k in c["seq"]:
        try:
            quiet(getattr(s, CALL[k]))
        except (RuntimeError, ValueError) as e:
            if not any(w in str(e).lower() for w in ("disjoint", "lagrangian", "connected")):
                raise
    want = {}
    for label, f in [("Elastic centroid", s.get_c), ("Shear centre", s.get_sc), ("Global plastic centroid", s.get_pc), ("Principal plastic centroid", s.get_pc_p)]:
        try:
            want[label] = f()
        except RuntimeError:
            continue
    try:
        phi = s.get_phi()
    except RuntimeError:
        phi = None
    if any(not np.isfinite(x).all() for x in want.values()):
        return Info(discard=True)
    d = Drawn(c["how"])
    ax = d(s.plot_centroids)
    try:
        ensure(ax.get_title() == "Centroids", f"title {ax.get_title()!r}")
        got = {}
        for x in ax.collections:
            if x.get_label() in ("Elastic centroid", "Shear centre", "Global plastic centroid", "Principal plastic centroid"):
                ensure(x.get_label() not in got and len(x.get_offsets()) == 1, f"two markers {x.get_label()}")
                got[x.get_label()] = np.asarray(x.get_offsets())[0]
        ensure(set(got) == set(want), f"markers {sorted(got)}, calculated {sorted(want)}")
        for k, p in want.items():
            ensure(np.abs(got[k] - p).max() <= 1e-12 * np.abs(p).max(), f"the marker {k} stands at {got[k].tolist()}, calculated {p}")
        lines = {x.get_label(): np.column_stack(x.get_data()) for x in ax.lines if x.get_label() in ("11-axis", "22-axis")}
        has = phi is not None and "Elastic centroid" in want
        ensure(set(lines) == ({"11-axis", "22-axis"} if has else set()), f"axes drawn: {sorted(lines)}, calculated: {has}")
        labels = [x.get_text() for x in ax.get_legend().get_texts()]
        ensure(set(labels) == set(want) | set(lines), f"legend {labels}, drawn {sorted(set(want) | set(lines))}")
        bounds = shapely.union_all([q for q, _ in parts]).bounds
        size = math.hypot(bounds[2] - bounds[0], bounds[3] - bounds[1])
        far = size + max(abs(b) for b in bounds) + max((float(np.abs(p).max()) for p in want.values()), default=0.0)
        for k, xy in lines.items():
            ang = math.radians(phi) + (0 if k == "11-axis" else math.pi / 2)
            u = np.array([math.cos(ang), math.sin(ang)])
            ensure(len(xy) == 2, f"the {k} is drawn through {len(xy)} points")
            r = xy - np.array(want["Elastic centroid"])
            ensure(np.isfinite(xy).all(), f"the {k} is drawn at {xy.tolist()}")
            off = np.abs(r[:, 0] * u[1] - r[:, 1] * u[0]).max()
            ensure(off <= 1e-7 * far, f"the {k} at {phi} degrees is drawn through {xy.tolist()}, {off:.4g} from the line through the centroid {want['Elastic centroid']}")
            ensure((r[0] @ u) * (r[1] @ u) < 0, f"the {k} does not pass through the centroid: {xy.tolist()}")
    finally:
        d.close()
    return Info(nontrivial=len(want) > 1 and abs(phi or 0) % 90 > 1e-6, tags=("+".join(c["seq"]) or "nothing",))


# --------------------------------------------------------------------- stress
@st.composite
def stress_case(draw):
    c = {"base": draw(st.one_of(sut.single(nmax=15), sut.comp_case(nmax=15), sut.comp_case(nmax=15))), "c": draw(ints(0, 5)),
         "act": draw(stress.actions()), "plots": [], "same": draw(ints(0, 3)) == 0}
    for _ in range(draw(ints(2, 4))):
        k = draw(st.sampled_from(["contour", "contour", "contour", "vector", "mohr", "mohr", "warping"]))
        q = {"k": k, "how": draw(HOW), "cmap": draw(st.sampled_from([None, None, "viridis", "jet"])), "pts": draw(st.lists(st.tuples(ints(0, 9999), ints(0, 20), ints(0, 20)), min_size=3, max_size=10))}
        if k == "contour":
            q.update(name=draw(st.sampled_from(CONTOURS)), limits=draw(st.one_of(st.none(), st.none(), st.tuples(ints(-10, 9), ints(1, 20)))),
                     only=draw(st.one_of(st.none(), st.none(), ints(0, 6))), normalize=draw(st.sampled_from([None, True, False])))
        elif k == "vector":
            q.update(name=draw(st.sampled_from(VECTORS)), normalize=draw(st.sampled_from([None, True, False])))
        elif k == "warping":
            q.update(level=draw(st.sampled_from([None, 5, 12])), lines=draw(st.booleans()))
        c["plots"].append(q)
    return c


def rings(path):
    """The rings of a path of a filled contour."""
    out, cur = [], []
    codes = path.codes if path.codes is not None else [1] + [2] * (len(path.vertices) - 1)
    for code, p in zip(codes, path.vertices):
        if code == 1:
            if len(cur) > 2:
                out.append(cur)
            cur = [p]
        elif code == 79:
            if len(cur) > 2:
                out.append(cur)
            cur = []
        else:
            cur.append(p)
    if len(cur) > 2:
        out.append(cur)
    return [np.array(r) for r in out]


def inside(rs, p):
    n = 0
    for r in rs:
        x, y = r[:, 0] - p[0], r[:, 1] - p[1]
        x2, y2 = np.roll(x, -1), np.roll(y, -1)
        cross = (y > 0) != (y2 > 0)
        with np.errstate(divide="ignore", invalid="ignore"):
            xi = x - y * (x2 - x) / (y2 - y)
        n += int(np.sum(cross & (xi > 0)))
    return n % 2 == 1


class Sec:
    def __init__(self, c):
        self.s, self.parts = section(c)
        s = self.s
        s.calculate_geometric_properties()
        s.calculate_warping_properties()
        self.v = np.asarray(s.mesh["vertices"], dtype=float)
        self.t = np.asarray(s.mesh["triangles"])[:, :3]
        cen = self.v[self.t].mean(axis=1)
        own = np.full(len(cen), -1)
        for i, (q, _) in enumerate(self.parts):
            own[shapely.contains_xy(q, cen[:, 0], cen[:, 1])] = i
        ensure((own >= 0).all(), "an element lies in no region")
        self.mats = [m for _, m in self.parts]
        # materials in the order of their first region: the groups of the results
        self.kinds = list(dict.fromkeys(self.mats))
        self.kind = np.array([self.kinds.index(self.mats[i]) for i in own])
        self.own = own
        b = shapely.union_all([q for q, _ in self.parts]).bounds
        self.size = math.hypot(b[2] - b[0], b[3] - b[1])
        self.far = max(abs(x) for x in b)

    def point(self, p):
        """(element, barycentric coordinates, point) strictly within an element."""
        e = p[0] % len(self.t)
        a, b = 1 + p[1], 1 + p[2]
        w = np.array([a, b, 23.0]) / (a + b + 23.0)
        return e, w, w @ self.v[self.t[e]]


def drawn_levels(cs, xy):
    return [k for k, p in enumerate(cs.get_paths()) if inside(rings(p), xy)]


def check_levels(cs, sec, pts, value, member, what, rng):
    """Every point is drawn in the colour of its own value."""
    lv = np.asarray(cs.levels)
    n = 0
    span = lv[-1] - lv[0]
    for p in pts:
        e, w, xy = sec.point(p)
        k = drawn_levels(cs, xy)
        if not member(e):
            ensure(not k, f"{what}: the point {xy.tolist()} outside of the plotted regions is coloured")
            continue
        val = float(w @ value[sec.t[e]])
        if np.abs(lv - val).min() < 1e-6 * span + 1e-9 * rng:
            continue
        i = int(np.searchsorted(lv, val)) - 1
        want = [i] if 0 <= i < len(lv) - 1 else []
        ensure(k == want, f"{what}: the point {xy.tolist()} with the value {val:.6g} is drawn in the levels {k}, expected {want} of {lv.tolist()}")
        n += 1
    return n


def check_contour(c, q, sec, res, sp):
    s = sec.s
    kw = {"title": "T3"}
    names = [g["material"] for g in res]
    ensure(names == [m.name for m in sec.kinds], f"stresses of {names}, materials {[m.name for m in sec.kinds]}")
    groups = list(range(len(res)))
    if q["only"] is not None:
        groups = sorted({sec.kinds.index(sec.mats[i % len(sec.mats)]) for i in range(3) if q["only"] >> i & 1}) or [sec.kinds.index(sec.mats[0])]
        kw["material_list"] = [sec.kinds[g] for g in groups]
    vals = {g: np.asarray(res[g][key(q["name"])], dtype=float) for g in groups}
    big = max(float(np.abs(v).max()) for v in vals.values())
    nodes = {g: np.unique(sec.t[sec.kind == g]) for g in groups}
    if q["limits"]:
        a = q["limits"][0] / 10 * big
        kw["stress_limits"] = (a, a + q["limits"][1] / 10 * big)
        if big == 0:
            kw.pop("stress_limits")
    if q["normalize"] is not None:
        kw["normalize"] = q["normalize"]
    if q["cmap"]:
        kw["cmap"] = q["cmap"]
    d = Drawn(q["how"])
    ax = d(sp.plot_stress, q["name"], **kw)
    try:
        ensure(ax.get_title() == "T3", f"title {ax.get_title()!r}")
        sets = [x for x in ax.collections if hasattr(x, "levels")]
        what = f"contours of {q['name']}"
        ensure(len(sets) == len(groups), f"{what}: {len(sets)} sets for {len(groups)} materials")
        # below this spread the levels are chosen by matplotlib, one set for each material
        lo, hi = min(v.min() for v in vals.values()), max(v.max() for v in vals.values())
        flat = hi - lo < 1e-4 * big + 1e-11
        n = 0
        bar = sets[-1].colorbar
        ensure(bar is not None, f"{what}: no colour bar")
        for g, cs in zip(groups, sets):
            lv = np.asarray(cs.levels)
            if not flat:
                ensure(len(lv) == 15, f"{what}: {len(lv)} levels")
                if "stress_limits" in kw:
                    w = np.linspace(*kw["stress_limits"], 15)
                    ensure(np.abs(lv - w).max() < 1e-9 * big, f"{what}: levels {lv.tolist()}, limits {kw['stress_limits']}")
                else:
                    x = vals[g][nodes[g]]
                    ensure(lv[0] <= x.min() and lv[-1] >= x.max(), f"{what}: levels from {lv[0]} to {lv[-1]} for stresses from {x.min()} to {x.max()}")
                    # the scale spans the plotted materials (and zero, the value away from them), no others
                    e0 = 1e-6 * (hi - lo) + 2e-12
                    ensure(lv[0] >= min(lo, 0.0) - e0 and lv[-1] <= max(hi, 0.0) + e0, f"{what}: levels from {lv[0]} to {lv[-1]} for stresses of the plotted materials from {lo} to {hi}")
                mid = (lv[:-1] + lv[1:]) / 2
                fc = cs.get_facecolor()
                want = bar.cmap(bar.norm(mid))
                ensure(len(fc) == 14 and np.abs(fc[:, :3] - want[:, :3]).max() < 0.02, f"{what}: the colours of a material do not agree with the colour bar")
                if q["normalize"] is not False:
                    ensure(abs(float(bar.norm(0.0)) - 0.5) < 1e-9, f"{what}: normalised colours are not centred on zero")
                ensure(bar.cmap.name == (q["cmap"] or "coolwarm"), f"{what}: colour map {bar.cmap.name}")
            n += check_levels(cs, sec, q["pts"], vals[g], lambda e: sec.kind[e] == g, what, big if flat else 0.0)
        ensure(names == [g["material"] for g in sp.get_stress()], "the plot changed the stress results")
    finally:
        d.close()
    return n


def check_vector(c, q, sec, res, sp):
    kw = {"title": "T4"}
    if q["normalize"] is not None:
        kw["normalize"] = q["normalize"]
    if q["cmap"]:
        kw["cmap"] = q["cmap"]
    a = q["name"].split("_")
    kx, ky = (f"sig_zx_{a[0]}", f"sig_zy_{a[0]}") if len(a) == 2 else ("sig_zx", "sig_zy")
    what = f"vectors of {q['name']}"
    d = Drawn(q["how"])
    ax = d(sp.plot_stress_vector, q["name"], **kw)
    try:
        ensure(ax.get_title() == "T4", f"title {ax.get_title()!r}")
        qs = [x for x in ax.collections if hasattr(x, "U")]
        ensure(len(qs) == len(res), f"{what}: {len(qs)} sets for {len(res)} materials")
        bar = qs[-1].colorbar
        ensure(bar is not None, f"{what}: no colour bar")
        top = 0.0
        for g, x in zip(res, qs):
            u, w = np.asarray(g[kx]), np.asarray(g[ky])
            big = float(np.hypot(u, w).max())
            top = max(top, big)
            ensure(np.abs(np.column_stack([x.X, x.Y]) - sec.v).max() <= 1e-12 * (sec.size + sec.far), f"{what}: the arrows do not start at the nodes")
            ensure(len(x.U) == len(u) and max(np.abs(x.U - u).max(), np.abs(x.V - w).max()) <= 1e-12 * big, f"{what}: arrows of {g['material']} are not its stresses")
            ensure(x.scale == qs[0].scale, f"{what}: arrows are drawn to different scales")
        if top > 0:
            ensure(bar.norm.vmax is None or bar.norm.vmax >= top * (1 - 1e-9), f"{what}: the colour bar ends at {bar.norm.vmax}, the stresses at {top}")
            for g, x in zip(res, qs):
                m = np.hypot(g[kx], g[ky])
                x.update_scalarmappable()
                fc = x.get_facecolor()
                want = bar.cmap(bar.norm(m))
                ensure(len(fc) == len(m) and np.abs(fc - want).max() < 0.02, f"{what}: the colours of the arrows of {g['material']} do not agree with the colour bar")
            ensure(bar.cmap.name == (q["cmap"] or "YlOrBr"), f"{what}: colour map {bar.cmap.name}")
    finally:
        d.close()
    return int(top > 0) * (len(res) > 1)


def check_mohr(c, q, sec, res, sp):
    n = 0
    for i, p in enumerate(q["pts"][:3]):
        e, w, xy = sec.point(p)
        g = res[sec.kind[e]]
        sz, tx, ty = (float(w @ np.asarray(g[k])[sec.t[e]]) for k in ("sig_zz", "sig_zx", "sig_zy"))
        tau = math.hypot(tx, ty)
        r = math.hypot(sz / 2, tau)
        s1, s2, s3 = sz / 2 + r, 0.0, sz / 2 - r
        big = max(float(np.abs(g[k]).max()) for k in ("sig_zz", "sig_zx", "sig_zy"))
        # interpolation coefficients lose digits where the element is small and far from the origin
        x = sec.v[sec.t[e]]
        area2 = abs(np.cross(x[1] - x[0], x[2] - x[0]))
        tol = big * (1e-6 + 1e-13 * (sec.far + sec.size) ** 2 / area2)
        d = Drawn(q["how"] if i == 0 else "")
        ax = d(sp.plot_mohrs_circles, float(xy[0]), float(xy[1]))
        try:
            from matplotlib.patches import Circle

            circ = {p.get_label()[:2]: p for p in ax.patches if isinstance(p, Circle)}
            what = f"stresses {sz:.6g}, {tx:.6g}, {ty:.6g} at {xy.tolist()}"
            ensure(set(circ) == {"C1", "C2", "C3"}, f"circles {sorted(circ)}")
            for k, a, b in (("C1", s2, s3), ("C2", s1, s3), ("C3", s1, s2)):
                x0, y0 = circ[k].center
                ensure(abs(x0 - (a + b) / 2) <= tol and y0 == 0, f"{what}: circle {k} has its centre at {circ[k].center}, expected {(a + b) / 2:.6g}")
                ensure(abs(circ[k].radius - (a - b) / 2) <= tol, f"{what}: circle {k} has the radius {circ[k].radius:.6g}, expected {(a - b) / 2:.6g}")
            face = {ln.get_label(): np.array(ln.get_data(), dtype=float).ravel() for ln in ax.lines}
            for k, ss, ts in (("X-face", 0.0, abs(tx)), ("Y-face", 0.0, abs(ty)), ("Z-face", sz, tau)):
                ensure(k in face, f"{what}: no marker of the {k}")
                ensure(np.isfinite(face[k]).all(), f"{what}: the {k} is marked at {face[k].tolist()}, expected {(ss, ts)}")
                ensure(abs(face[k][0] - ss) <= 2 * tol and abs(face[k][1] - ts) <= 2 * tol, f"{what}: the {k} is marked at {face[k].tolist()}, expected {(ss, ts)}")
            n += tau > 1e-3 * big
        finally:
            d.close()
    return n


def check_warping(c, q, sec, res, sp):
    om = np.asarray(sec.s.section_props.omega)
    kw = {} if q["level"] is None else {"level": q["level"]}
    d = Drawn(q["how"])
    ax = d(sec.s.plot_warping_function, with_lines=q["lines"], **kw)
    try:
        sets = [x for x in ax.collections if hasattr(x, "levels")]
        ensure(len(sets) == (2 if q["lines"] else 1), f"warping function: {len(sets)} sets of contours")
        fill = [x for x in sets if x.filled]
        ensure(len(fill) == 1, "warping function: no filled contours")
        oc = om[np.unique(sec.t)]
        rng = float(np.ptp(oc))
        if rng < 1e-9 * sec.size**2:
            return 0
        lv = fill[0].levels
        ensure(lv[0] <= oc.min() + 1e-9 * rng and lv[-1] >= oc.max() - 1e-9 * rng, f"warping function from {oc.min()} to {oc.max()} drawn between {lv[0]} and {lv[-1]}")
        return check_levels(fill[0], sec, q["pts"], om, lambda e: True, "warping function", rng)
    finally:
        d.close()


PLOT = {"contour": check_contour, "vector": check_vector, "mohr": check_mohr, "warping": check_warping}


def check_stress(c):
    sec = Sec(c)
    try:
        sp = sec.s.calculate_stress(**stress.scaled(c["act"], sec.size))
    except RuntimeError as e:
        raise Violation(f"stresses refused: {e}") from None
    res = sp.get_stress()
    before = [{k: np.array(v) for k, v in g.items() if k != "material"} for g in res]
    n = 0
    for q in c["plots"]:
        n += PLOT[q["k"]](c, q, sec, res, sp)
    after = sp.get_stress()
    for a, b in zip(before, after):
        for k in a:
            ensure(np.array_equal(a[k], b[k]), f"{k} changed while plotting")
    return Info(nontrivial=n > 2, tags=tuple(sorted({q["k"] for q in c["plots"]})) + ((f"groups={len(res)}"),))


def many_of(case):
    return st.builds(lambda c, b: dict(c, base=b), case, sut.many(20, 200))


FAMILIES = [
    Family("outline", outline_case, check_outline, 250, 5000, rule="several regions or a hole"),
    Family("mesh", mesh_case, check_mesh, 250, 5000, rule="elements of several materials were drawn"),
    Family("centroids", centroid_case, check_centroids, 250, 5000, rule="several centroids, principal axes not along x and y"),
    Family("stress", stress_case, check_stress, 350, 8000, rule="more than two values were read back from the plots"),
    Family("many", lambda: many_of(mesh_case()), check_mesh, 40, 500, rule="up to 36 connected regions of up to 12 materials"),
    Family("many_outlines", lambda: many_of(outline_case()), check_outline, 30, 400, rule="up to 36 connected regions of up to 12 materials"),
    Family("many_stress", lambda: many_of(stress_case()), check_stress, 30, 400, rule="up to 36 connected regions of up to 12 materials"),
]
