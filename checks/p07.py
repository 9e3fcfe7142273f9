"""P07: shear centre, shear areas and monosymmetry constants are those of elasticity."""

from __future__ import annotations

import math

import numpy as np
import shapely
import shapely.affinity as aff
from hypothesis import strategies as st
from shapely import Polygon

from checks.warp import Case
from vkit import fe, gen, sut
from vkit.core import Family, Info, close, ensure

ASSUMPTIONS = [
    "connected sections of up to a few hundred elements",
    "reference: an independently written quadratic finite element solution with exact integration",
    "principal values are compared where the principal moments differ by more than 0.1 %",
]


def check(case):
    c = Case(case)
    sec, r = c.sec, c.ref
    phi = sec.get_phi()
    R = c.fe.results(phi)
    ln = r.size
    rt, lt = 1e-8 + c.noise * c.amp, 1e-9 + c.noise * c.amp * 10
    cx, cy = sec.get_c()
    sc = sec.get_sc()
    close("x_se", sc[0] - cx, R["x_se"], rt, ln, lt)
    close("y_se", sc[1] - cy, R["y_se"], rt, ln, lt)
    st_ = sec.get_sc_t()
    close("x_st", st_[0] - cx, R["x_st"], rt, ln, lt)
    close("y_st", st_[1] - cy, R["y_st"], rt, ln, lt)
    a = sec.get_eas() if c.comp else sec.get_as()
    close("A_sx", a[0], R["a_sx"], 1e-7 + c.noise * c.amp)
    close("A_sy", a[1], R["a_sy"], 1e-7 + c.noise * c.amp)
    for n, v in zip(("A_sx", "A_sy"), a):
        ensure(0 < v <= r.ea * (1 + 1e-9 + c.noise * c.amp), f"{n} = {v} is not within (0, {r.ea}]")
    b = sec.get_beta()
    close("beta_x-", b[1], R["beta_x"], 1e-7 + c.noise * c.amp, ln, lt * 10)
    close("beta_y-", b[3], R["beta_y"], 1e-7 + c.noise * c.amp, ln, lt * 10)
    close("beta_x+", b[0], -b[1], 1e-9, ln, lt)
    close("beta_y+", b[2], -b[3], 1e-9, ln, lt)
    bp = sec.get_beta_p()
    ap = sec.get_eas_p() if c.comp else sec.get_as_p()
    scp = sec.get_sc_p()
    close("x11_se", scp[0], R["x11_se"], rt, ln, lt)
    close("y22_se", scp[1], R["y22_se"], rt, ln, lt)
    close("A_s11", ap[0], R["a_s11"], 1e-7 + c.noise * c.amp)
    close("A_s22", ap[1], R["a_s22"], 1e-7 + c.noise * c.amp)
    close("beta_11-", bp[1], R["beta_11"], 1e-7 + c.noise * c.amp, ln, lt * 10)
    close("beta_22-", bp[3], R["beta_22"], 1e-7 + c.noise * c.amp, ln, lt * 10)
    close("beta_11+", bp[0], -bp[1], 1e-9, ln, lt)
    close("beta_22+", bp[2], -bp[3], 1e-9, ln, lt)
    if c.comp:
        k = c.mats[-1]
        for n, g, w in zip(("A_sx", "A_sy", "A_s11", "A_s22"), (*sec.get_eas(e_ref=k), *sec.get_eas_p(e_ref=k)), (*a, *ap)):
            close(f"transformed {n}", g, w / k.elastic_modulus, 1e-12)
    unsym = math.hypot(R["x_se"], R["y_se"]) > 1e-4 * ln
    return Info(nontrivial=unsym, tags=(*c.tags(case), "unsymmetric" if unsym else "symmetric"))


# --------------------------------------------------------------------- symmetry
def sym_case():
    i = st.integers
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["mono", "point", "double"]),
        "h": st.lists(st.tuples(i(10, 60), i(8, 30)), min_size=2, max_size=4),
        "s": st.sampled_from([1.0, 0.01]), "rot": i(0, 179), "dx": i(-300, 300), "dy": i(-300, 300),
        "hole": st.booleans(), "n": st.sampled_from([60, 120, 200])})


def half_profile(h):
    """Right-hand outline of a section symmetric about x = 0: widths per storey."""
    y, right = 0.0, []
    for w, d in h:
        right += [(float(w), y), (float(w), y + d)]
        y += d
    return right, y


def check_symmetry(case):
    """Shear centre on the axis of symmetry, or at the centroid for two axes or point symmetry."""
    right, top = half_profile(case["h"])
    k = case["kind"]
    if k == "mono":
        poly = Polygon(right + [(-x, y) for x, y in reversed(right)])
    elif k == "double":
        up = right
        lo = [(x, -y) for x, y in reversed(right)]
        poly = Polygon(lo + up + [(-x, y) for x, y in reversed(up)] + [(-x, y) for x, y in reversed(lo)])
    else:
        poly = Polygon(right + [(-5.0, top), (-5.0, 0.0)])
        poly = shapely.union(poly, aff.rotate(poly, 180, origin=(0, 0)))
    poly = shapely.simplify(shapely.set_precision(poly, 1e-9), 0)
    if case["hole"] and k != "point":
        w, d = case["h"][0]
        f = lambda y: (w * 0.5 if y < d else 2)
        hole = shapely.box(-w * 0.4, d * 0.3, w * 0.4, d * 0.7)
        poly = poly.difference(hole)
        if k == "double":
            poly = poly.difference(aff.scale(hole, 1, -1, origin=(0, 0)))
    assert isinstance(poly, Polygon)
    s = case["s"]
    poly = aff.translate(aff.scale(aff.rotate(poly, case["rot"], origin=(0, 0)), s, s, origin=(0, 0)),
                         case["dx"] * s, case["dy"] * s)
    p, an = sut.api()
    g = p.Geometry(geom=poly)
    g.create_mesh(mesh_sizes=poly.area / case["n"])
    sec = an.Section(geometry=g)
    sec.calculate_geometric_properties()
    sec.calculate_warping_properties()
    c, e, t = np.array(sec.get_c()), np.array(sec.get_sc()), np.array(sec.get_sc_t())
    size = max(poly.bounds[2] - poly.bounds[0], poly.bounds[3] - poly.bounds[1])
    R = math.radians(case["rot"])
    ax = np.array([-math.sin(R), math.cos(R)])  # direction of the axis of symmetry
    # the mesh is not symmetric: distances vanish up to the discretisation error
    tol = 2e-2 * size * math.sqrt(60 / case["n"])
    for n, q in (("elastic", e), ("Trefftz", t)):
        d = q - c
        if k == "mono":
            off = abs(d[0] * ax[1] - d[1] * ax[0])
            ensure(off <= tol, f"{n} shear centre is {off:.3g} away from the axis of symmetry (size {size:.3g})")
        else:
            off = float(np.hypot(*d))
            ensure(off <= tol, f"{n} shear centre is {off:.3g} away from the centroid (size {size:.3g})")
    return Info(tags=(k, "hole" if case["hole"] else "solid"))


FAMILIES = [
    Family("single", lambda: sut.single(nmax=60), check, 560, 5600,
           rule="random connected polygon; non-trivial = shear centre away from the centroid"),
    Family("composite", lambda: sut.comp_case(nmax=60), check, 420, 4200, rule="random connected composite"),
    Family("symmetry", sym_case, check_symmetry, 80, 800, rule="mono-, point- and doubly symmetric sections, turned"),
    Family("scales", lambda: sut.wide(60), sut.may_refuse(check), 200, 2000, rule="random section or composite of extreme size (1e-6 to 1e4 times the usual one)"),
    Family("many", lambda: sut.many(60, 700), check, 60, 800, rule="up to 36 connected regions of up to 12 materials, on up to some thousand elements"),
]
