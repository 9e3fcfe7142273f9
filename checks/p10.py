"""P10: yield moments are the moments at first yield anywhere in the section."""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vkit import gen, sut
from vkit.core import Family, Info, close, ensure

ASSUMPTIONS = ["linear bending stresses, so the extreme is at a vertex of some region; exact to 1e-7 relative"]


def vertices(g):
    return np.concatenate([np.asarray(r.coords) for r in (g.exterior, *g.interiors)])


def governing(parts, ms, r, phi):
    """{axis: (yield moment, part, side)} by evaluating every vertex of every region."""
    D = r.ixx_c * r.iyy_c - r.ixy_c**2
    p = math.radians(phi)
    c, s = math.cos(p), math.sin(p)
    i11 = r.ixx_c * c * c + r.iyy_c * s * s - 2 * r.ixy_c * c * s
    i22 = r.ixx_c * s * s + r.iyy_c * c * c + 2 * r.ixy_c * c * s
    best = {}
    for k, (g, mi) in enumerate(parts):
        q = vertices(g)
        x, y = q[:, 0] - r.cx, q[:, 1] - r.cy
        u, w = x * c + y * s, -x * s + y * c
        e, fy = float(ms[mi]["E"]), float(ms[mi]["fy"])
        for ax, sig in (("xx", (r.iyy_c * y - r.ixy_c * x) / D), ("yy", (r.ixy_c * y - r.ixx_c * x) / D),
                        ("11", w / i11), ("22", -u / i22)):
            i = int(np.argmax(np.abs(sig)))
            m = fy / (e * abs(sig[i]))
            if ax not in best or m < best[ax][0]:
                best[ax] = (m, k, sig[i] > 0, math.hypot(x[i], y[i]))
    return best


def check(case):
    sec, parts, _ = sut.comp_section(case)
    r = sut.comp_ref(case, parts)
    ms = case["comp"]["mats"]
    sec.calculate_geometric_properties()
    if case.get("again"):
        sec.calculate_geometric_properties()
    best = governing(parts, ms, r, sec.get_phi())
    amp = max(1.0, r.ea * r.size**2 / r.i22)
    tol = 1e-7 + 1e-13 * amp * (r.far / r.size) ** 2
    for ax, got in zip(("xx", "yy", "11", "22"), (*sec.get_my(), *sec.get_my_p())):
        m, k, _, _ = best[ax]
        close(f"yield moment {ax} (governed by region {k})", got, m, tol)
    # the governing region is not the one reaching farthest from the centroid
    far = max(range(len(parts)), key=lambda i: np.hypot(*(vertices(parts[i][0]) - [r.cx, r.cy]).T).max())
    inner = any(b[1] != far for b in best.values())
    ratios = {(float(ms[i]["fy"]) / float(ms[i]["E"])) for _, i in parts}
    tags = [case["comp"]["parts"]["k"]]
    if inner:
        tags.append("governed by another region than the outermost")
    tags.append("yield strains differ" if len(ratios) > 1 else "one yield strain")
    return Info(nontrivial=len(ratios) > 1 and inner, tags=tuple(tags))


@st.composite
def uniform(draw):
    """One material on a single geometry."""
    c = draw(sut.single(nmax=25))
    c["mat"] = draw(gen.material())
    return c


def check_uniform(case):
    m = case["mat"]
    sec, poly = sut.section_of(case, gen.build_material(m))
    sec.calculate_geometric_properties()
    r = sut.ref_of(poly, m)
    best = governing([(poly, 0)], [m], r, sec.get_phi())
    amp = max(1.0, r.ea * r.size**2 / r.i22)
    tol = 1e-7 + 1e-13 * amp * (r.far / r.size) ** 2
    for ax, got in zip(("xx", "yy", "11", "22"), (*sec.get_my(), *sec.get_my_p())):
        close(f"yield moment {ax}", got, best[ax][0], tol)
    # principal axes: no coupling, so the yield moment is fy times the smaller section modulus
    zp = sec.get_ezp()
    close("yield moment 11 against the section moduli", sec.get_my_p()[0], m["fy"] / m["E"] * min(zp[:2]), tol)
    close("yield moment 22 against the section moduli", sec.get_my_p()[1], m["fy"] / m["E"] * min(zp[2:]), tol)
    neg = any(not b[2] for b in best.values())
    return Info(nontrivial=r.delta > 1e-3 and abs(r.ixy_c) > 1e-3 * r.i11, tags=(case["shape"]["k"], "compression governs" if neg else "tension governs"))




FAMILIES = [
    Family("composite", lambda: sut.comp_case(nmax=25, connected=False), check, 1100, 12000,
           rule="random composite; non-trivial = yield strains differ and a region other than the outermost governs"),
    Family("one_material", uniform, check_uniform, 700, 8000,
           rule="random polygon of one material; non-trivial = unsymmetric (product moment not zero)"),
    Family("scales", lambda: sut.comp_case(nmax=20, scales=[1e-5, 1e-4, 1e4]), check, 200, 2000,
           rule="composites of extreme size (1e-5 to 1e4 times the usual one)"),
    Family("many", lambda: sut.many(20, 400), check, 80, 1000, rule="up to 36 connected regions of up to 12 materials"),
]
