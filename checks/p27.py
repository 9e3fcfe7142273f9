"""P27: unusable requests are refused, and warnings are given exactly when due.

Oracle for refusals: the request has no meaning by the documentation, so any exception is
right and any return value is wrong; the geometry or section asked stays as it was.  Oracle
for warnings: exact overlap areas and distances of the generated regions.
"""

from __future__ import annotations

import contextlib
import io
import warnings

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import LineString, MultiPolygon, Point, Polygon

from vkit import gen, sut
from vkit.core import Family, Info, Violation, ensure

ASSUMPTIONS = [
    "any exception counts as a refusal",
    "overlaps between 1e-12 and 1e-6 of the area, gaps below 1e-6 of the size and regions that touch in single points are not judged",
    "control points outside the outline, open facet chains and negative mesh sizes are not claimed to be refused",
]
ints = st.integers
WORDS = ["", "upper", "Top", "TOP", "outside", "z", "X", "xy", "middle", "Direct", "CGS", "gmres", "4D", "3D-OS", "vonmises", "sig_zz ", "foo", "none", " "]
words = st.one_of(st.sampled_from(WORDS), st.text("abcxyz_ ", max_size=6))
FOREIGN = [3, 2.5, "a", None, (1.0, 2.0), [1]]


def snapshot(g):
    m = None if g.mesh is None else {k: np.asarray(v).tolist() for k, v in g.mesh.items() if isinstance(v, np.ndarray)}
    return repr((shapely.to_wkb(g.geom, hex=True), g.points, g.facets, g.holes, g.control_points, m))


@st.composite
def refuse_case(draw):
    return {"base": draw(st.one_of(sut.single(nmax=2, thin=False), sut.comp_case(nmax=2))),
            "req": draw(st.sampled_from(sorted(REQUESTS))),
            "word": draw(words), "i": draw(ints(0, 1000)), "x": [draw(ints(-50, 50)) / 10 for _ in range(4)],
            "k": draw(ints(0, 7))}


class Env:
    def __init__(self, c):
        self.c = c
        self.p, self.a = sut.api()
        b = c["base"]
        self.comp = "comp" in b
        if self.comp:
            self.parts = sut.parts_of(b)
            self.g = sut.comp_geom(b, self.parts, sut.materials_of(b))
        else:
            self.g, poly = sut.geom_of(b)
            self.parts = [(poly, 0)]
        self.n = len(self.parts)
        self.size = max(self.g.calculate_extents()[1] - self.g.calculate_extents()[0], self.g.calculate_extents()[3] - self.g.calculate_extents()[2])
        self.w, self.i, self.x, self.k = c["word"], c["i"], c["x"], c["k"]

    def word(self, *valid):
        """A name that is none of the valid ones."""
        return self.w if self.w not in valid else self.w + "_"

    def mesh(self):
        self.g.create_mesh(mesh_sizes=0.0)
        return self.g

    def section(self, *calls):
        s = self.a.Section(geometry=self.mesh())
        for c in calls:
            getattr(s, "calculate_" + c)()
        return s

    def other(self):
        return self.p.Geometry(shapely.box(0, 0, self.size, self.size))


REQUESTS = {}


def request(f):
    REQUESTS[f.__name__] = f
    return f


# each request returns (object that must not change or None, function that must raise)
@request
def no_mesh(e):
    return e.g, lambda: e.a.Section(geometry=e.g)


@request
def no_mesh_after_motion(e):
    # a moved geometry has no mesh of its own
    e.mesh()
    h = [e.g.shift_section(1, 0), e.g.rotate_section(30), e.g.mirror_section("x"), e.g.align_center((0, 0))][e.k % 4]
    return e.g, lambda: e.a.Section(geometry=h)


@request
def mesh_sizes_length(e):
    n = e.k
    if n in (1, e.n):
        n = e.n + 1 if e.n + 1 != 1 else 0
    return e.g, lambda: e.g.create_mesh(mesh_sizes=[e.size**2] * n)


@request
def mesh_sizes_kind(e):
    return e.g, lambda: e.g.create_mesh(mesh_sizes=[None, "fine" + e.w, {}, object()][e.k % 4])


@request
def align_side(e):
    on = e.word("left", "right", "top", "bottom")
    return e.g, lambda: e.g.align_to(other=[e.other(), (e.x[0], e.x[1])][e.k % 2], on=on, inner=e.k > 3)


@request
def align_center_target(e):
    return e.g, lambda: e.g.align_center(align_to=["a" + e.w, 3.0, (1.0, 2.0, 3.0), (1.0,)][e.k % 4])


@request
def mirror_axis(e):
    return e.g, lambda: e.g.mirror_section(axis=e.word("x", "y"), mirror_point=["center", (e.x[0], e.x[1])][e.k % 2])


@request
def mirror_point(e):
    return e.g, lambda: e.g.mirror_section(axis="xy"[e.k % 2], mirror_point=e.word("center", "centroid"))


@request
def rotate_point(e):
    return e.g, lambda: e.g.rotate_section(angle=e.x[0], rot_point=e.word("center", "centroid"))


@request
def offset_edge(e):
    return e.g, lambda: e.g.offset_perimeter(amount=[0.01, -0.01, 0.0][e.k % 3] * e.size, where=e.word("exterior", "interior", "all"))


@request
def split_line(e):
    p = (e.x[0], e.x[1])
    kw = [{}, {"point_j": p}, {"vector": (0.0, 0.0)}, {"vector": np.array([0.0, 0.0])}][e.k % 4]
    return e.g, lambda: e.g.split_section(point_i=p, **kw)


@request
def operand(e):
    o = FOREIGN[e.i % len(FOREIGN)]
    f = [lambda: e.g + o, lambda: e.g - o, lambda: e.g & o, lambda: e.g | o, lambda: e.g ^ o][e.k % 5]
    return e.g, f


@request
def compound_items(e):
    o = [*FOREIGN, Polygon([(0, 0), (1, 0), (0, 1)]), Point(0, 0)][e.i % (len(FOREIGN) + 2)]
    items = [e.g, e.other()]
    items.insert(e.k % 3, o)
    return e.g, lambda: e.p.CompoundGeometry(geoms=items)


@request
def geometry_kind(e):
    sq = shapely.box(0, 0, 1, 1)
    o = [MultiPolygon([sq, shapely.box(2, 0, 3, 1)]), MultiPolygon([sq]), LineString([(0, 0), (1, 1), (1, 0)]), Point(0, 0),
         [(0, 0), (1, 0), (1, 1)], None, "POLYGON ((0 0, 1 0, 1 1, 0 0))", sq.exterior][e.k]
    return None, lambda: e.p.Geometry(geom=o)


@request
def control_points(e):
    s = e.size
    P, F = [(0, 0), (s, 0), (s, s), (0, s)], [(0, 1), (1, 2), (2, 3), (3, 0)]
    cps = [[], [(s / 2, s / 2), (s / 3, s / 3)], [(s / 2, s / 2)] * 3][e.k % 3]
    return None, lambda: e.p.Geometry.from_points(points=P, facets=F, control_points=cps)


@request
def regions_and_materials(e):
    s = e.size
    P = [(0, 0), (s, 0), (s, s), (0, s), (2 * s, 0), (2 * s, s)]
    F = [(0, 1), (1, 2), (2, 3), (3, 0), (1, 4), (4, 5), (5, 2), (2, 1)]
    cps = [(s / 2, s / 2), (1.5 * s, s / 2)]
    m = [gen.build_material({"E": 1, "nu": 0.2, "fy": 1, "rho": 1}, name=f"m{i}") for i in range(4)]
    kw = [{"control_points": cps, "materials": m[:1]}, {"control_points": cps, "materials": m[:3]},
          {"control_points": cps[:1], "materials": m[:1]}, {"control_points": [*cps, (0.1 * s, 0.1 * s)]},
          {"control_points": [], "materials": m[:2]}, {"control_points": cps[:1], "materials": m[:2]},
          {"control_points": cps[:1]}, {"control_points": [*cps, cps[0]], "materials": m[:3]}][e.k]
    return None, lambda: e.p.CompoundGeometry.from_points(points=P, facets=F, **kw)


@request
def foreign_mesh(e):
    # the mesh of a geometry with another number of regions
    s = e.size
    other = e.p.CompoundGeometry([e.p.Geometry(shapely.box(i * s, 0, (i + 1) * s, s)) for i in range(e.n + 1 + e.k % 2)])
    other.create_mesh(mesh_sizes=[0.0])
    e.g.mesh = other.mesh
    return e.g, lambda: e.a.Section(geometry=e.g)


@request
def solver_name(e):
    w = e.word("direct", "cgs")
    if e.k % 2:
        s = e.section("geometric_properties")
        return e.g, lambda: s.calculate_warping_properties(solver_type=w)
    s = e.section()
    return e.g, lambda: s.calculate_frame_properties(solver_type=w)


@request
def export_format(e):
    from sectionproperties.post.fibre import to_fibre_section

    w = e.word(*(a + b + c + d for a in "23" for b in "dD" for c in ("", "o", "O") for d in ("", "s", "S")))
    o = e.section() if e.k % 2 else e.mesh()
    return e.g, lambda: to_fibre_section(o, analysis_type=w)


@request
def export_object(e):
    from sectionproperties.post.fibre import to_fibre_section

    o = [e.g.geom, None, "a" + e.w, 3.0, e.g][e.k % 5]  # the last has no mesh
    return e.g, lambda: to_fibre_section(o, analysis_type=["2D", "3D", "3DOS"][e.i % 3])


ACT = [{"vx": 1.0}, {"vy": -2.0}, {"mzz": 1e-6}, {"n": 1.0, "vx": 1e-9}]


@request
def stress_unprepared(e):
    if e.k % 2:
        s, act = e.section(), [{"n": 1.0}, {"mxx": 1.0}, {"m22": 3.0}, {}][e.i % 4]
    else:
        s, act = e.section("geometric_properties"), ACT[e.i % 4]
    if e.k < 4:
        return e.g, lambda: s.calculate_stress(**act)
    return e.g, lambda: s.get_stress_at_points(pts=[s.geometry.control_points[0]], **act)


@request
def analysis_unprepared(e):
    s = e.section()
    return e.g, [s.calculate_warping_properties, s.calculate_plastic_properties, lambda: s.plot_warping_function(render=False)][e.k % 3]


@request
def warping_unplotted(e):
    s = e.section("geometric_properties", "plastic_properties")
    return e.g, lambda: s.plot_warping_function(render=False)


@request
def result_unprepared(e):
    from vkit.results import TABLE

    rows = [r for r in TABLE if (r[2] if e.comp else r[1])]
    r = rows[e.i % len(rows)]
    done = {"geo": [], "warp": ["geometric_properties", "plastic_properties"], "plas": ["geometric_properties", "warping_properties"]}[r[5]]
    s = e.section(*done[:1 + e.k % 2])
    return e.g, getattr(s, r[2] if e.comp else r[1])


@request
def result_of_other_kind(e):
    from vkit.results import TABLE

    rows = [r for r in TABLE if r[1] != r[2] and (r[1] if e.comp else r[2])]
    r = rows[e.i % len(rows)]
    s = e.section("geometric_properties", "warping_properties", "plastic_properties")
    return e.g, getattr(s, r[1] if e.comp else r[2])


@request
def stress_name(e):
    s = e.section("geometric_properties", "warping_properties")
    post = s.calculate_stress(n=1.0, mxx=2.0, vx=1.0)
    w = e.word("zx", "zy", "zz", "zxy", "11", "33", "vm", "n_zz", "m_zz", "v_zxy")
    return e.g, [lambda: post.plot_stress(stress=w, render=False), lambda: post.plot_stress_vector(stress=w, render=False)][e.k % 2]


@request
def mohr_outside(e):
    s = e.section("geometric_properties")
    post = s.calculate_stress(n=1.0, mxx=2.0)
    x0, x1, y0, y1 = e.g.calculate_extents()
    pt = [(x1 + e.size, y0), (x0 - 0.1 * e.size, y1), (x0, y1 + e.size), (x1, y0 - 0.01 * e.size)][e.k % 4]
    return e.g, lambda: post.plot_mohrs_circles(x=pt[0], y=pt[1], render=False)


@request
def transformed_without_materials(e):
    g = e.p.Geometry(e.parts[0][0])
    g.create_mesh(0.0)
    s = e.a.Section(g)
    if e.k % 2:
        s.calculate_geometric_properties()
    return g, lambda: s.display_transformed_results(e_ref=[1.0, 200e3][e.i % 2])


@request
def point_index(e):
    g = e.p.Geometry(e.parts[0][0])
    i = len(g.points) + e.i % 5
    idx = [i, [0, i], [i, 0]][e.k % 3]
    return g, lambda: g.shift_points(point_idxs=idx, dx=e.size / 100)


def check_refuse(c):
    e = Env(c)
    obj, f = REQUESTS[c["req"]](e)
    before = None if obj is None else snapshot(obj)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            v = f()
        except Exception:
            v = None
        else:
            raise Violation(f"{c['req']}: accepted, giving {v!r:.150}")
    if obj is not None:
        ensure(snapshot(obj) == before, f"{c['req']}: the refused request changed the geometry")
    return Info(tags=(c["req"],))


# -------------------------------------------------------------------- libraries
def lib(name, **kw):
    import sectionproperties.pre.library as L

    return lambda: getattr(L, name)(**kw)


def library_requests(v, k):
    """Parameters that the library documents as unusable."""
    from sectionproperties.pre import Material

    m = Material("c", 30e3, 0.2, 32, 2.4e-6, "grey")
    s = Material("s", 200e3, 0.3, 500, 7.85e-6, "grey")
    mats = {"conc_mat": m, "steel_mat": s}
    bars = {"dia_bar": 16.0, "area_bar": 200.0, "cover": 30.0}
    return {
        "column n_x": lib("concrete_column_section", d=600, b=400, n_x=k % 2, n_y=3, **bars, **mats),
        "column n_y": lib("concrete_column_section", d=600, b=400, n_x=3, n_y=-k, **bars, **mats),
        "circular bars": lib("concrete_circular_section", d=600, area_conc=None, n_conc=64, dia_bar=20, area_bar=310, n_bar=k % 2, cover=45, **mats),
        "super-T type": lib("super_t_girder_section", girder_type=[0, 6, -1, 7 + k][k % 4]),
        "super-T subtype": lib("super_t_girder_section", girder_type=3, girder_subtype=[0, 3, -1][k % 3]),
        "super-T early T5": lib("super_t_girder_section", girder_type=5, girder_subtype=1),
        "I girder type": lib("i_girder_section", girder_type=[0, 5, -2, 5 + k][k % 4]),
        "polygon sides": lib("polygon_hollow_section", d=v, t=v / 20, n_sides=[2, 1, 0, -3][k % 4]),
        "toe radius": lib("angle_section", d=v, b=v, t=v / 10, r_r=v / 20, r_t=v / 10 * (1.01 + k), n_r=4),
        "nastran bar": lib("nastran_box", dim_1=v, dim_2=v, dim_3=v / 2 * (1 + k), dim_4=v / 10),
        "nastran tube": lib("nastran_tube", dim_1=v, dim_2=v * (1.1 + k), n=16),
        "nastran I": lib("nastran_i", dim_1=v, dim_2=v, dim_3=v, dim_4=v / 10, dim_5=v / 2 * (1.01 + k), dim_6=v / 2 * 1.1),
        "nastran chan": lib("nastran_chan", dim_1=v, dim_2=v, dim_3=v / 10, dim_4=v / 2 * (1.01 + k)),
        "nastran tee": lib("nastran_tee", dim_1=v, dim_2=v, dim_3=v * (1.01 + k), dim_4=v / 10),
        "nastran L": lib("nastran_l", dim_1=v, dim_2=v, dim_3=v / 10, dim_4=v * (1.01 + k)),
    }


LIB = ["I girder type", "circular bars", "column n_x", "column n_y", "nastran I", "nastran L", "nastran bar", "nastran chan", "nastran tee",
       "nastran tube", "polygon sides", "super-T early T5", "super-T subtype", "super-T type", "toe radius"]


@st.composite
def lib_case(draw):
    return {"req": draw(st.sampled_from(LIB)), "v": draw(ints(1, 1000)) * draw(st.sampled_from([1.0, 0.001])), "k": draw(ints(0, 7))}


def check_lib(c):
    f = library_requests(c["v"], c["k"])[c["req"]]
    try:
        g = f()
    except Exception:
        return Info(tags=(c["req"],))
    raise Violation(f"{c['req']}: accepted, giving a section of area {g.geom.area:.6g}")


# -------------------------------------------------------------------- warnings
@st.composite
def warn_case(draw):
    c = {"base": draw(st.one_of(sut.single(nmax=2, thin=False), sut.comp_case(nmax=2, same=True), sut.comp_case(nmax=2, same=True, connected=False))),
         "extra": draw(st.one_of(st.none(), st.fixed_dictionaries({
             "at": ints(0, 99), "dx": ints(-12, 12), "dy": ints(-12, 12), "w": ints(1, 10), "h": ints(1, 10),
             "tiny": st.sampled_from([0, 0, 0, 0.1, 0.01, 0.002])})))}
    return c


def ours(ws):
    return [w for w in ws if issubclass(w.category, UserWarning)]


def check_warn(c):
    p, a = sut.api()
    b = c["base"]
    if "comp" in b:
        parts = sut.parts_of(b)
        polys = [q for q, _ in parts]
        geoms = [p.Geometry(q, sut.materials_of(b)[i]) for q, i in parts]
    else:
        polys = [gen.build_poly(b["shape"], b["place"])]
        geoms = [p.Geometry(polys[0])]
    bd = np.array([q.bounds for q in polys])
    size = float(max(bd[:, 2].max() - bd[:, 0].min(), bd[:, 3].max() - bd[:, 1].min()))
    if c["extra"]:
        x = c["extra"]
        q0 = polys[x["at"] % len(polys)]
        o = q0.exterior.coords[x["at"] % (len(q0.exterior.coords) - 1)]
        u = size / 12
        if x["tiny"]:
            # a small region that lies about a vertex
            u *= x["tiny"]
        q = shapely.affinity.translate(shapely.box(-x["w"] * u / 2, -x["h"] * u / 2, x["w"] * u / 2, x["h"] * u / 2), o[0] + x["dx"] * u, o[1] + x["dy"] * u)
        polys.append(q)
        geoms.append(p.Geometry(q, geoms[0].material))
    A = sum(q.area for q in polys)
    over = A - shapely.union_all(polys, grid_size=1e-11 * size).area
    if 1e-12 * A < over < 1e-6 * A:
        # union on a grid has round-off of its own: decide by pairs
        over = sum(polys[i].intersection(polys[j]).area for i in range(len(polys)) for j in range(i))
        if 1e-13 * A < over < 1e-6 * A:
            return Info(discard=True)
    # connected: the closed union hangs together by more than single points
    fat = shapely.union_all([q.buffer(1e-7 * size) for q in polys])
    thin = shapely.union_all([q.buffer(3e-8 * size) for q in polys]).buffer(-1e-7 * size)
    wide = shapely.union_all([q.buffer(1e-5 * size) for q in polys])
    n_fat = len(getattr(fat, "geoms", [fat]))
    n_thin = len(getattr(thin, "geoms", [thin]))
    n_wide = len(getattr(wide, "geoms", [wide]))
    connected = None if len({n_fat, n_thin, n_wide}) > 1 else n_fat == 1
    g = geoms[0] if len(geoms) == 1 else p.CompoundGeometry(geoms)
    tags = ["overlapping" if over > 1e-6 * A else "apart or touching", {None: "undecided", True: "connected", False: "disjoint"}[connected]]
    with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        g.create_mesh(mesh_sizes=0.0)
        s = a.Section(geometry=g)
        s.calculate_geometric_properties()
        ensure(not ours(ws), f"a warning from meshing or the geometric analysis: {[str(w.message) for w in ours(ws)]}")
        try:
            s.calculate_plastic_properties()
        except (RuntimeError, ValueError, ZeroDivisionError):
            if over <= 1e-6 * A:
                raise
        got = [str(w.message) for w in ours(ws)]
        if over > 1e-6 * A:
            ensure(any("overlap" in m for m in got), f"no warning of an overlap of {over:.4g} in an area of {A:.4g}")
        else:
            ensure(not got, f"a warning for regions that do not overlap: {got}")
        del ws[:]
        if over <= 1e-6 * A and connected is not None:
            try:
                s.calculate_warping_properties()
            except (RuntimeError, ValueError, ZeroDivisionError):
                if connected:
                    raise
            got = [str(w.message) for w in ours(ws)]
            if connected:
                ensure(not got, f"a warning for connected regions: {got}")
            else:
                ensure(any("disjoint" in m for m in got), "no warning of disjoint regions")
        if connected and over <= 1e-6 * A:
            del ws[:]
            s.calculate_frame_properties()
            post = s.calculate_stress(n=1, mxx=1, vx=1, mzz=1)
            post.get_stress()
            s.get_stress_at_points(pts=[s.geometry.control_points[0]], n=1, vx=1)
            s.display_results()
            ensure(not ours(ws), f"a warning on valid input: {[str(w.message) for w in ours(ws)]}")
    return Info(nontrivial=len(polys) > 1, tags=tuple(tags))


FAMILIES = [
    Family("refused", refuse_case, check_refuse, 1200, 30000, rule="every request is meaningless by construction"),
    Family("library", lib_case, check_lib, 200, 3000, rule="every request is meaningless by construction"),
    Family("warnings", warn_case, check_warn, 320, 8000, rule="more than one region"),
    Family("many", lambda: st.builds(lambda c, b: dict(c, base=dict(b, mesh={"n": 2, "ang": 30.0})), warn_case(), sut.many()), check_warn, 60, 1000, rule="up to 36 connected regions of up to 12 materials"),
]
