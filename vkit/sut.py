"""Bridges from generated cases to the code under test (public API only)."""

from __future__ import annotations

from hypothesis import strategies as st

from vkit import gen
from vkit.core import Info
from vkit.oracle import Ref

ints = st.integers


def api():
    import sectionproperties.analysis as a
    import sectionproperties.pre as p

    return p, a


@st.composite
def mesh_spec(draw, nmax=40):
    return {"n": draw(st.sampled_from([0, 1, 2, 4, 8, 15, 25, nmax])),
            "ang": draw(st.sampled_from([30.0, 30.0, 20.0, 25.5]))}


@st.composite
def single(draw, nmax=40, holes=True, thin=True, scales=None, shift=True, rot=True):
    return {"shape": draw(gen.shape(holes, thin)),
            "place": draw(gen.place(rot, shift, scales)),
            "mesh": draw(mesh_spec(nmax))}


def geom_of(case, material=None):
    p, _ = api()
    poly = gen.build_poly(case["shape"], case["place"])
    kw = {} if material is None else {"material": material}
    return p.Geometry(geom=poly, **kw), poly


def mesh_single(geom, area, mesh):
    geom.create_mesh(mesh_sizes=gen.mesh_size(area, mesh["n"]), min_angle=mesh["ang"])
    return geom


def section_of(case, material=None):
    _, a = api()
    geom, poly = geom_of(case, material)
    mesh_single(geom, poly.area, case["mesh"])
    return a.Section(geometry=geom), poly


def ref_of(poly, m=None) -> Ref:
    if m is None:
        return Ref([(poly, 1.0, 0.0, 1.0)])
    return Ref([(poly, m["E"], m["nu"], m["rho"])])


# ---------------------------------------------------------------- composites
@st.composite
def comp_case(draw, nmax=40, scales=None, shift=True, rot=True, **kw):
    comp = draw(gen.composite(**kw))
    place = draw(gen.place(rot, shift, scales))
    return {"comp": comp, "place": place, "mesh": draw(mesh_spec(nmax))}


@st.composite
def many(draw, nmax=60, fine=None):
    """Up to 36 regions of up to 12 materials, now and then on a mesh of many elements."""
    n = draw(st.sampled_from([0, 4, 15, nmax, nmax, fine or nmax]))
    return {"comp": draw(gen.mosaic()), "place": draw(gen.place()), "mesh": {"n": n, "ang": draw(st.sampled_from([30.0, 20.0]))}}


# sections of fractions of a millimetre given in metres, and of kilometres given in millimetres
WIDE = [1e-6, 1e-5, 1e-4, 1e4]


def wide(nmax=40, scales=WIDE):
    return st.one_of(single(nmax=nmax, scales=scales), comp_case(nmax=nmax, scales=scales))


def may_refuse(check):
    """The direct solver judges the Lagrange multiplier absolutely and refuses some very small sections."""
    def run(case):
        scale = case.get("base", case)["place"]["s"]
        try:
            info = check(case)
        except RuntimeError as e:
            if "Lagrangian multiplier" in str(e) and scale <= 1e-5:
                return Info(nontrivial=False, tags=("refused",))
            raise
        return Info(nontrivial=info.nontrivial, tags=(f"scale {scale:g}",))
    return run


def parts_of(case):
    parts = gen.build_parts(case["comp"])
    return [(gen.apply_place(p, case["place"]), mi) for p, mi in parts]


def materials_of(case):
    return [gen.build_material(m, name=f"m{i}") for i, m in enumerate(case["comp"]["mats"])]


def comp_geom(case, parts, mats):
    p, _ = api()
    geoms = [p.Geometry(geom=g, material=mats[mi]) for g, mi in parts]
    return p.CompoundGeometry(geoms=geoms)


def comp_section(case):
    _, a = api()
    parts = parts_of(case)
    mats = materials_of(case)
    geom = comp_geom(case, parts, mats)
    area = sum(g.area for g, _ in parts)
    geom.create_mesh(mesh_sizes=gen.mesh_size(area, case["mesh"]["n"]), min_angle=case["mesh"]["ang"])
    return a.Section(geometry=geom), parts, mats


def comp_ref(case, parts) -> Ref:
    ms = case["comp"]["mats"]
    return Ref([(g, ms[mi]["E"], ms[mi]["nu"], ms[mi]["rho"]) for g, mi in parts])
