"""P09: plastic neutral axes balance the yield forces; plastic moduli are exact."""

from __future__ import annotations

import math

from vkit import sut
from vkit.core import Family, Info, close, ensure
from vkit.plastic import Yield

ASSUMPTIONS = [
    "the neutral axis is located to 2e-6 of its distance from the centroid and of the size of the section, if that is less than one",
    "a neutral axis may lie anywhere in a band that carries no material, if both sides balance there",
]


def verify(sec, fparts, r, comp):
    cx, cy = sec.get_c()
    phi = math.radians(sec.get_phi())
    ax = {}
    pc, pcp = sec.get_pc(), sec.get_pc_p()
    sx, sy = sec.get_mp() if comp else sec.get_s()
    s1, s2 = sec.get_mp_p() if comp else sec.get_sp()
    dx, dy = pcp[0] - cx, pcp[1] - cy
    u = dx * math.cos(phi) + dy * math.sin(phi)
    v = -dx * math.sin(phi) + dy * math.cos(phi)
    todo = [("x-axis", 0.0, pc[1] - cy, sx), ("y-axis", -math.pi / 2, pc[0] - cx, sy),
            ("11-axis", phi, v, s1), ("22-axis", phi - math.pi / 2, u, s2)]
    flat = False
    for name, ang, d, s in todo:
        y = Yield(fparts, r.cx, r.cy, ang)
        tol = 2e-6 * (min(1.0, r.size) + abs(d)) + 1e-9 * r.far
        # coordinates are rounded to twelve decimals
        thin = max(q.length / q.area for q, _ in fparts)
        eps = (1e-9 + 1e-12 * r.far / r.size + 2e-12 * thin) * y.force
        hi, lo = y.imbalance(d - tol), y.imbalance(d + tol)
        ensure(hi >= -eps and lo <= eps,
               f"plastic {name} at {d:.9g} from the centroid does not balance: force difference "
               f"{y.imbalance(d):.6g} of {y.force:.6g} (exact position {y.axis():.9g})")
        exact = y.moment(y.axis())
        close(f"plastic modulus about the {name}", s, exact, 1e-6 + 1e-11 * r.far / r.size + 5e-12 * thin,
              y.force * tol * tol / (y.hi - y.lo), 100)
        if abs(hi - lo) < 1e-12 * y.force:
            flat = True
        ax[name] = (d, s)
    return ax, flat


def check(case):
    sec, poly = sut.section_of(case)
    sec.calculate_geometric_properties()
    sec.calculate_plastic_properties()
    r = sut.ref_of(poly)
    ax, flat = verify(sec, [(poly, 1.0)], r, False)
    z, zp, sf, sfp = sec.get_z(), sec.get_zp(), sec.get_sf(), sec.get_sf_p()
    s, sp = sec.get_s(), sec.get_sp()
    for i, n in enumerate(("xx+", "xx-", "yy+", "yy-")):
        close("shape factor " + n, sf[i], s[i // 2] / z[i], 1e-9)
    for i, n in enumerate(("11+", "11-", "22+", "22-")):
        close("shape factor " + n, sfp[i], sp[i // 2] / zp[i], 1e-9)
    for n, a, b in (("xx", *sf[:2]), ("yy", *sf[2:]), ("11", *sfp[:2]), ("22", *sfp[2:])):
        ensure(max(a, b) >= 1 - 1e-6, f"shape factors {n} are {a}, {b}: the section yields after its plastic moment")
    sym = all(abs(d) < 1e-5 * r.size for d, _ in ax.values())
    return Info(nontrivial=not sym, tags=(case["shape"]["k"], "no plastic offset" if sym else "offset",
                                          *(("void band",) if flat else ())))


def check_comp(case):
    sec, parts, _ = sut.comp_section(case)
    sec.calculate_geometric_properties()
    sec.calculate_plastic_properties()
    r = sut.comp_ref(case, parts)
    ms = case["comp"]["mats"]
    fparts = [(g, float(ms[i]["fy"])) for g, i in parts]
    _, flat = verify(sec, fparts, r, True)
    mp, mpp, my, myp = sec.get_mp(), sec.get_mp_p(), sec.get_my(), sec.get_my_p()
    sf, sfp = sec.get_sf(), sec.get_sf_p()
    want = [mp[0] / my[0]] * 2 + [mp[1] / my[1]] * 2 + [mpp[0] / myp[0]] * 2 + [mpp[1] / myp[1]] * 2
    for n, g, w in zip(("xx+", "xx-", "yy+", "yy-", "11+", "11-", "22+", "22-"), (*sf, *sfp), want):
        close("shape factor " + n, g, w, 1e-9)
        ensure(w >= 1 - 1e-6, f"plastic moment {n[:2]} is below the yield moment: ratio {w}")
    used = {i for _, i in parts}
    fys = {ms[i]["fy"] for i in used}
    return Info(nontrivial=len(fys) > 1, tags=(case["comp"]["parts"]["k"], "strengths differ" if len(fys) > 1 else "one strength",
                                               *(("void band",) if flat else ())))


SCALES = [1.0, 10.0, 0.1, 1e-3, 100.0, 1e-4, 1e-5]

FAMILIES = [
    Family("single", lambda: sut.single(nmax=8, scales=SCALES), check, 400, 5000,
           rule="random polygon; non-trivial = a plastic axis away from the centroid"),
    Family("composite", lambda: sut.comp_case(nmax=8, connected=False, scales=SCALES), check_comp, 360, 4400,
           rule="random composite incl. disjoint islands; non-trivial = different yield strengths"),
    Family("many", lambda: sut.many(8), check_comp, 40, 600, rule="up to 36 connected regions of up to 12 materials; non-trivial = different yield strengths"),
]
