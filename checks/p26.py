"""P26: dividing a section into regions of equal material changes nothing.

Metamorphic: the divided section, the divided section with a separate equal material object
for every region, the section with the regions of each material united, and the section with
its regions in another order all carry the same mesh, so every result must be the same.
"""

from __future__ import annotations

import copy
import warnings

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import Polygon

from checks.p05 import compare, extent
from checks.stress import actions, scaled
from vkit import gen, sut
from vkit.core import Family, Info, Violation, close, ensure
from vkit.oracle import noded
from vkit.results import collect

ASSUMPTIONS = [
    "equal materials agree in every field, including name and colour",
    "the divided and the united section are analysed on the same mesh; plastic results agree to the tolerance of the neutral-axis search",
    "regions that cannot be united without a gap of more than 1e-9 of the size are discarded",
]
ints = st.integers


@st.composite
def divide_case(draw):
    c = draw(sut.comp_case(nmax=25, same=True))
    if draw(st.sampled_from([False, False, True])):
        # all regions of one material
        c["comp"]["parts"]["m"] = [0] * len(c["comp"]["parts"]["m"])
    c["act"] = draw(actions())
    c["default"] = draw(st.sampled_from([False, False, False, True]))  # no materials at all
    c["perm"] = draw(st.permutations(range(36)))
    return c


def clone(m):
    from sectionproperties.pre import Material

    return Material(name=m.name, elastic_modulus=m.elastic_modulus, poissons_ratio=m.poissons_ratio,
                    yield_strength=m.yield_strength, density=m.density, color=m.color)


def united(parts, size):
    """[(polygon, material index)] with touching regions of a material united, or None."""
    out = []
    for i in sorted({i for _, i in parts}):
        polys = [g for g, j in parts if j == i]
        u = shapely.union_all(noded(polys, 1e-10 * size + 1e-12))
        us = [u] if isinstance(u, Polygon) else list(u.geoms)
        a = sum(g.area for g in polys)
        if abs(sum(q.area for q in us) - a) > 1e-9 * a:
            return None
        for q in us:
            if any(Polygon(r).area < 1e-7 * a for r in q.interiors):
                return None
            # a region must remain in one piece when its corners are rounded to the tolerance
            if not q.buffer(-1e-7 * size).geom_type == "Polygon":
                return None
            out.append((q, i))
    return out


def retag(mesh, new):
    m = {k: np.array(v, copy=True) for k, v in mesh.items()}
    m["triangle_attributes"] = np.asarray(new, dtype=float).reshape(-1, 1)
    return m


def geometry(parts, mats, mesh):
    p, _ = sut.api()
    kw = [{} if mats is None else {"material": mats[i]} for i in range(len(parts))]
    if len(parts) == 1:
        g = p.Geometry(geom=parts[0][0], **kw[0])
    else:
        g = p.CompoundGeometry(geoms=[p.Geometry(geom=q, **k) for (q, _), k in zip(parts, kw)])
    g.mesh = mesh
    return g


def analyse(g, act):
    _, a = sut.api()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = a.Section(geometry=g)
        fr = s.calculate_frame_properties()
        s.calculate_geometric_properties()
        s.calculate_warping_properties()
        s.calculate_plastic_properties()
        stress = s.calculate_stress(**act).get_stress()
        v = np.asarray(g.mesh["vertices"], dtype=float)[np.asarray(g.mesh["triangles"])[:4, :3]].mean(axis=1)
        pts = s.get_stress_at_points(pts=[tuple(q) for q in v.tolist()], **act)
    return s, {"res": collect(s, s.is_composite()), "frame": fr, "stress": stress, "pts": pts}


def same(got, want, size, far, comp, what, keep_order):
    try:
        compare(want["res"], got["res"], size, far, comp, rt=1e-8)
    except Violation as e:
        raise Violation(f"{what}: {e}") from None
    ii = want["res"]["ixx_c"] + want["res"]["iyy_c"]
    noise = (far / size) ** 2 * 1e-13
    for i, (a, b) in enumerate(zip(got["frame"], want["frame"])):
        if i < 5:
            close(f"{what}: frame result {i}", a, b, 1e-8, ii if i else 0, 1e-9 + noise)
    by = lambda st_: {d["material"]: d for d in st_}
    ga, gb = by(got["stress"]), by(want["stress"])
    ensure(len(ga) == len(got["stress"]), f"{what}: the stresses of a material are reported in {len(got['stress'])} groups: {[d['material'] for d in got['stress']]}")
    ensure(set(ga) == set(gb), f"{what}: stresses of {sorted(ga)}, otherwise of {sorted(gb)}")
    if keep_order:
        ensure([d["material"] for d in got["stress"]] == [d["material"] for d in want["stress"]], f"{what}: the groups come in another order")
    top = max([1e-300] + [float(np.abs(v).max()) for d in want["stress"] for k, v in d.items() if k != "material"])
    r = want["res"]
    skip11 = abs(r["i11"] - r["i22"]) < 1e-6 * r["i11"]
    for m, d in gb.items():
        ensure(set(d) == set(ga[m]), f"{what}: stress components {sorted(set(d) ^ set(ga[m]))}")
        for k, v in d.items():
            if k == "material" or (skip11 and ("11" in k or "22" in k)):
                continue
            e = np.abs(ga[m][k] - v).max()
            ensure(e <= (1e-7 + 1e3 * noise) * top, f"{what}: {k} in {m} differs by {e:.3g} (largest stress {top:.4g})")
    for a, b in zip(got["pts"], want["pts"]):
        ensure((a is None) == (b is None), f"{what}: stress at a point {a}, otherwise {b}")
        if a is not None:
            e = np.abs(np.subtract(a, b)).max()
            ensure(e <= (1e-7 + 1e3 * noise) * top, f"{what}: stress at a point differs by {e:.3g}")


def setup(c):
    parts = sut.parts_of(c)
    mats = None if c["default"] else sut.materials_of(c)
    if c["default"]:
        parts = [(g, 0) for g, _ in parts]
    size, far = extent(parts)
    g = geometry(parts, None if mats is None else [mats[i] for _, i in parts], None)
    area = sum(q.area for q, _ in parts)
    g.create_mesh(mesh_sizes=gen.mesh_size(area, c["mesh"]["n"]), min_angle=c["mesh"]["ang"])
    mesh = {k: np.array(v, copy=True) for k, v in g.mesh.items()}
    att = mesh["triangle_attributes"].ravel().astype(int)
    act = scaled(c["act"], size)
    return parts, mats, size, far, g, mesh, att, act


def check_divide(c):
    parts, mats, size, far, g, mesh, att, act = setup(c)
    s, ref = analyse(g, act)
    comp = mats is not None
    ensure(s.is_composite() == comp, f"is_composite() is {s.is_composite()} for {'regions with materials' if comp else 'default materials'}")
    n = 0
    # separate equal objects
    if comp:
        each = [clone(mats[i]) for _, i in parts]
        g2 = geometry(parts, each, retag(mesh, att))
        same(analyse(g2, act)[1], ref, size, far, comp, "with separate equal materials", True)
        n += 1
    # united regions
    u = united(parts, size)
    tags = []
    if u is not None and len(u) < len(parts):
        v = mesh["vertices"][np.asarray(mesh["triangles"], dtype=int)[:, :3]].mean(axis=1)
        pts = shapely.points(v)
        new = np.full(len(att), -1)
        for k, (q, i) in enumerate(u):
            hit = shapely.contains(q, pts) & (new < 0)
            new[hit] = k
        assert (new >= 0).all(), "an element lies in no united region"
        assert all(parts[a][1] == u[k][1] for a, k in zip(att, new))
        g3 = geometry(u, None if mats is None else [mats[i] for _, i in u], retag(mesh, new))
        same(analyse(g3, act)[1], ref, size, far, comp, "with the regions united", False)
        n += 1
        tags.append("united")
    return Info(nontrivial=n > 0 and len(parts) > 1, tags=(*tags, c["comp"]["parts"]["k"], "materials" if comp else "no materials", f"{len({i for _, i in parts})} materials"))


def check_order(c):
    parts, mats, size, far, g, mesh, att, act = setup(c)
    _, ref = analyse(g, act)
    order = [i for i in c["perm"] if i < len(parts)]
    if len(order) < len(parts):
        return Info(discard=True)
    if order == list(range(len(parts))):
        order = order[::-1]
    new_parts = [parts[i] for i in order]
    where = {old: k for k, old in enumerate(order)}
    g2 = geometry(new_parts, None if mats is None else [mats[i] for _, i in new_parts], retag(mesh, [where[a] for a in att]))
    same(analyse(g2, act)[1], ref, size, far, mats is not None, f"with the regions in order {order}", False)
    return Info(nontrivial=len(parts) > 1, tags=(c["comp"]["parts"]["k"], f"{len(parts)} regions"))


# ------------------------------------------------- new mesh, results that ignore it
def check_fresh(c):
    """Dividing, copying and reordering with a mesh of their own: results free of the mesh."""
    p, a = sut.api()
    parts, mats, size, far, g, mesh, att, act = setup(c)
    comp = mats is not None

    def run(ps, ms):
        q = geometry(ps, ms, None)
        q.create_mesh(mesh_sizes=gen.mesh_size(sum(x.area for x, _ in ps), c["mesh"]["n"]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = a.Section(geometry=q)
            s.calculate_geometric_properties()
            s.calculate_plastic_properties()
        return collect(s, comp, ("geo", "plas"))

    ms = lambda ps: None if mats is None else [mats[i] for _, i in ps]
    want = run(parts, ms(parts))
    order = [i for i in c["perm"] if i < len(parts)]
    alts = [([parts[i] for i in order], ms([parts[i] for i in order]), "in another order")] if len(order) == len(parts) else []
    if comp:
        alts.append((parts, [clone(mats[i]) for _, i in parts], "with separate equal materials"))
    u = united(parts, size)
    if u is not None and len(u) < len(parts):
        alts.append((u, ms(u), "with the regions united"))
    for ps, m, what in alts:
        try:
            compare(want, run(ps, m), size, far, comp, rt=1e-8)
        except Violation as e:
            raise Violation(f"{what}: {e}") from None
    return Info(nontrivial=len(parts) > 1, tags=(c["comp"]["parts"]["k"], *(w for _, _, w in alts)))


# ------------------------------------------------- materials that are nearly equal
FIELDS = ["elastic_modulus", "poissons_ratio", "yield_strength", "density", "color", "name"]


@st.composite
def alike_case(draw):
    c = draw(sut.comp_case(nmax=15))
    c["comp"]["mats"] = [c["comp"]["mats"][0] for _ in c["comp"]["mats"]]
    c["field"] = [draw(st.sampled_from(FIELDS)) for _ in c["comp"]["mats"]]
    c["factor"] = [draw(ints(2, 5)) for _ in c["comp"]["mats"]]
    c["act"] = draw(actions())
    return c


def check_alike(c):
    """Materials that differ in one field only are kept apart, whatever their names."""
    from sectionproperties.pre import Material

    parts = sut.parts_of(c)
    size, far = extent(parts)
    b = c["comp"]["mats"][0]
    base = {"name": "m", "elastic_modulus": float(b["E"]), "poissons_ratio": float(b["nu"]), "yield_strength": float(b["fy"]),
            "density": float(b["rho"]), "color": "grey"}
    mats = []
    for k, (f, q) in enumerate(zip(c["field"], c["factor"])):
        d = dict(base)
        if k:
            d[f] = {"poissons_ratio": (base["poissons_ratio"] + 0.07 * q) % 0.5, "color": ["red", "blue", "w", "k"][q - 2], "name": f"n{q}"}.get(f, base.get(f) if isinstance(base.get(f), str) else base[f] * q)
        mats.append(d)
    used = [i for _, i in parts]
    distinct = []
    for i in used:
        if mats[i] not in distinct:
            distinct.append(mats[i])
    g = geometry(parts, [Material(**mats[i]) for i in used], None)
    g.create_mesh(mesh_sizes=gen.mesh_size(sum(q.area for q, _ in parts), c["mesh"]["n"]))
    act = scaled(c["act"], size)
    s, got = analyse(g, act)
    ensure(len(got["stress"]) == len(distinct), f"{len(got['stress'])} stress groups for {len(distinct)} different materials")
    ensure([d["material"] for d in got["stress"]] == [d["name"] for d in distinct], f"groups {[d['material'] for d in got['stress']]}, expected {[d['name'] for d in distinct]}")
    # the same section with materials of different names
    unique = [Material(**{**mats[i], "name": f"u{distinct.index(mats[i])}"}) for i in used]
    _, want = analyse(geometry(parts, unique, {k: np.array(v, copy=True) for k, v in g.mesh.items()}), act)
    for k, d in enumerate(got["stress"]):
        d["material"] = f"u{k}"
    same(got, want, size, far, True, "with materials of equal names", True)
    return Info(nontrivial=len(distinct) > 1, tags=tuple(sorted(set(c["field"][1:]))))


@st.composite
def many_case(draw):
    c, m = draw(divide_case()), draw(sut.many(20))
    return dict(c, comp=m["comp"], place=m["place"])


FAMILIES = [
    Family("divide", divide_case, check_divide, 160, 5000, rule="more than one region, compared with equal copies or the united section"),
    Family("order", divide_case, check_order, 90, 2500, rule="more than one region"),
    Family("fresh_mesh", divide_case, check_fresh, 90, 2500, rule="more than one region"),
    Family("alike", alike_case, check_alike, 70, 1500, rule="at least two different materials"),
    Family("many", many_case, check_divide, 30, 400, rule="up to 36 connected regions of up to 12 materials"),
    Family("many_order", many_case, check_order, 20, 300, rule="up to 36 connected regions of up to 12 materials"),
]
