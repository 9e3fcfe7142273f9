"""P01: area properties of a homogeneous section equal the exact integrals over its
polygon, whatever mesh is used."""

from __future__ import annotations

import numpy as np

from checks.areaprops import check_basic
from vkit import gen, sut
from vkit.core import Family, Info, close, ensure

ASSUMPTIONS = ["polygons are simple, with features of at least ~3 % of their size",
               "tolerance 1e-7 relative plus a floor of 1e-10 of the leading term for quantities that cancel"]


def check(case):
    sec, poly = sut.section_of(case)
    sec.calculate_geometric_properties()
    r = sut.ref_of(poly)
    check_basic(sec, r, False)
    close("perimeter", sec.get_perimeter(), poly.exterior.length, 1e-9)
    ensure(not sec.is_composite(), "a section without materials reports itself as composite")
    tags = [case["shape"]["k"], "holes" if poly.interiors else "solid",
            "coarse" if case["mesh"]["n"] == 0 else "refined"]
    if abs(poly.convex_hull.area - poly.area) > 1e-9 * poly.area:
        tags.append("nonconvex")
    return Info(nontrivial=case["place"]["rot"] % 90 != 0 or bool(poly.interiors) or "nonconvex" in tags,
                tags=tuple(tags))


def check_geometry(case):
    geom, poly = sut.geom_of(case)
    r = sut.ref_of(poly)
    # the vertices are rounded to twelve digits
    close("Geometry area", geom.calculate_area(), r.area, 1e-9, poly.length, 1e-12)
    close("Geometry perimeter", geom.calculate_perimeter(), poly.exterior.length, 1e-9)
    c = geom.calculate_centroid()
    close("Geometry centroid x", c[0], r.cx, 0, r.far, 1e-9)
    close("Geometry centroid y", c[1], r.cy, 0, r.far, 1e-9)
    e = geom.calculate_extents()
    for n, g, w in zip(("xmin", "xmax", "ymin", "ymax"), e, (r.xmin, r.xmax, r.ymin, r.ymax)):
        close(f"Geometry {n}", g, w, 0, r.far + 0.1, 1e-11)
    return Info(tags=(case["shape"]["k"],))


FAMILIES = [
    Family("section", sut.single, check, 2400, 20000,
           rule="random simple polygon (star, rectilinear, thin-walled, regular, with up to 6 holes), "
                "similarity placement, mesh of 0..40+ elements; non-trivial = rotated, non-convex or holed"),
    Family("geometry", sut.single, check_geometry, 1600, 16000, rule="same generator, geometry-level queries"),
]
