"""P02: composite results are modulus- and density-weighted sums over the regions."""

from __future__ import annotations

import shapely

from checks.areaprops import check_basic
from vkit import gen, sut
from vkit.core import Family, Info, close, ensure

ASSUMPTIONS = ["regions tile the section: strips of a polygon, inclusions (some left void), nested rings, "
               "stacked plates with partial contact", "tolerance 1e-7 relative"]


def effective(sec, r):
    close("effective elastic modulus", sec.get_e_eff(), r.ea / r.area, 1e-7)
    close("effective shear modulus", sec.get_g_eff(), r.ga / r.area, 1e-7)
    nu = r.ea / (2 * r.ga) - 1
    close("effective Poisson's ratio", sec.get_nu_eff(), nu, 1e-6, 1.0, 1e-7)


def outline(sec, parts, size):
    """The perimeter is the outer boundary of the joined regions, -1 for regions that are apart."""
    w = 1e-9 * size
    wide = shapely.union_all([g.buffer(w, join_style="mitre") for g, _ in parts])
    slim = shapely.union_all([g.buffer(-1e-6 * size, join_style="mitre") for g, _ in parts]).buffer(1.1e-6 * size, join_style="mitre")
    if wide.geom_type != slim.geom_type:
        return  # regions that meet in a point or nearly so
    want = -1.0 if wide.geom_type != "Polygon" else wide.exterior.length
    for what, got in (("section", sec.get_perimeter()), ("geometry", sec.geometry.calculate_perimeter())):
        close(f"perimeter of the {what}", got, want, 1e-7, size, 1e-7)


def check(case):
    sec, parts, mats = sut.comp_section(case)
    sec.calculate_geometric_properties()
    r = sut.comp_ref(case, parts)
    ensure(sec.is_composite(), "a section with materials does not report itself as composite")
    check_basic(sec, r, True)
    effective(sec, r)
    outline(sec, parts, r.size)
    used = {mi for _, mi in parts}
    k = case["comp"]["parts"]["k"]
    return Info(nontrivial=len(used) > 1, tags=(k, f"{len(used)} materials", f"{min(len(parts), 6)} regions"))


def check_sizes(case):
    """Same, with one mesh size per region: values must not depend on it."""
    _, a = sut.api()
    parts = sut.parts_of(case)
    mats = sut.materials_of(case)
    geom = sut.comp_geom(case, parts, mats)
    sizes = [gen.mesh_size(g.area, case["ns"][i % len(case["ns"])]) for i, (g, _) in enumerate(parts)]
    geom.create_mesh(mesh_sizes=sizes, coarse=case["coarse"])
    sec = a.Section(geometry=geom)
    sec.calculate_geometric_properties()
    r = sut.comp_ref(case, parts)
    check_basic(sec, r, True)
    effective(sec, r)
    used = {mi for _, mi in parts}
    return Info(nontrivial=len(used) > 1, tags=("coarse" if case["coarse"] else "per-region sizes",))


def check_one_material(case):
    """A single polygon with one material is composite, weighted by that material."""
    mat = gen.build_material(case["m"], "only")
    sec, poly = sut.section_of(case, mat)
    sec.calculate_geometric_properties()
    r = sut.ref_of(poly, case["m"])
    ensure(sec.is_composite(), "a section with a material does not report itself as composite")
    check_basic(sec, r, True)
    effective(sec, r)
    return Info(nontrivial=case["m"]["E"] != 1)


def sized():
    from hypothesis import strategies as st

    @st.composite
    def f(draw):
        c = draw(sut.comp_case())
        c["ns"] = draw(st.lists(st.sampled_from([1, 3, 10]), min_size=1, max_size=4))
        c["coarse"] = draw(st.booleans())
        return c

    return f()


def onemat():
    from hypothesis import strategies as st

    @st.composite
    def f(draw):
        c = draw(sut.single())
        c["m"] = draw(gen.material())
        return c

    return f()


def with_islands():
    return sut.comp_case(connected=False)


FAMILIES = [
    Family("composite", with_islands, check, 2000, 16000,
           rule="2-3 materials over regions (strips, bars, nested rings, stacks, disjoint parts and islands in holes), similarity placement; "
                "non-trivial = at least two different materials present"),
    Family("mesh_sizes", sized, check_sizes, 800, 6000, rule="as composite with per-region mesh sizes or coarse mesh"),
    Family("one_material", onemat, check_one_material, 600, 5000, rule="one polygon, one material; non-trivial = E != 1"),
    Family("many", sut.many, check, 120, 1500, rule="up to 36 connected regions of up to 12 materials; non-trivial = at least two different materials present"),
]
