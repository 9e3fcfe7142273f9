"""P06: torsion and warping constants solve the Saint-Venant problem on the mesh."""

from __future__ import annotations

import math

from hypothesis import strategies as st

from checks.warp import Case
from vkit import gen, sut
from vkit.core import Family, Info, close, ensure

ASSUMPTIONS = [
    "connected sections of up to a few hundred elements",
    "reference: an independently written quadratic finite element solution with exact integration",
]


def check(case):
    c = Case(case)
    sec, R, r = c.sec, c.fe.results(c.sec.get_phi()), c.ref
    j = sec.get_ej() if c.comp else sec.get_j()
    gam = sec.get_egamma() if c.comp else sec.get_gamma()
    polar = r.ixx_c + r.iyy_c
    close("J", j, R["j"], 1e-8 + c.noise * c.amp, polar, 1e-10 + c.noise)
    gs = r.ea * r.size**4
    close("warping constant", gam, R["gamma"], 1e-7 + c.noise * c.amp, gs, 1e-9 + c.noise * c.amp)
    ensure(j > 0, f"J = {j} is not positive")
    ensure(j <= polar * (1 + 1e-9 + c.noise * 10), f"J = {j} exceeds the polar second moment {polar}")
    if not c.comp:
        ensure(gam >= -(1e-9 + c.noise * c.amp) * gs, f"warping constant {gam} is negative")
    if c.comp:
        for e_ref in (3.0, c.mats[0]):
            k = e_ref if isinstance(e_ref, float) else e_ref.elastic_modulus
            close("transformed J", sec.get_ej(e_ref=e_ref), j / k, 1e-12)
            close("transformed warping constant", sec.get_egamma(e_ref=e_ref), gam / k, 1e-12)
    return Info(nontrivial=abs(gam) > 1e-6 * gs or bool(c.comp), tags=c.tags(case))


def connected():
    return sut.comp_case(nmax=60)


# ------------------------------------------------------------------ closed forms
def j_rect(b, d):
    a, t = max(b, d), min(b, d)
    s = sum(math.tanh(n * math.pi * a / (2 * t)) / n**5 for n in range(1, 60, 2))
    return a * t**3 / 3 * (1 - 192 / math.pi**5 * t / a * s)


def closed_case():
    i = st.integers
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["rect", "tri", "circle", "ellipse", "ring", "ehollow", "thin"]),
        "a": i(20, 100), "b": i(20, 100), "t": i(5, 60), "rot": i(0, 180),
        "dx": i(-300, 300), "dy": i(-300, 300), "s": st.sampled_from([1.0, 0.01, 10.0]),
        "open": st.sampled_from(["L", "C", "I", "Z", "T"])})


def check_closed(case):
    import shapely
    from shapely import Polygon
    import shapely.affinity as aff

    a, b, t = case["a"] / 10, case["b"] / 10, case["t"] / 100
    k = case["kind"]
    gamma, gtol, n = None, 0, 96
    ell = lambda p, q: [(p * math.cos(2 * math.pi * i / n), q * math.sin(2 * math.pi * i / n)) for i in range(n)]
    elems = 250
    if k == "rect":
        poly, J, lo, hi = shapely.box(0, 0, a, b), j_rect(a, b), 1e-7, 2e-3
    elif k == "tri":
        poly, J, lo, hi = Polygon([(0, 0), (a, 0), (a / 2, a * math.sqrt(3) / 2)]), math.sqrt(3) * a**4 / 80, 1e-7, 2e-3
    elif k == "circle":
        poly, J, lo, hi = Polygon(ell(a, a)), math.pi * a**4 / 2, 6e-3, 6e-3
        gamma, gtol = 0.0, 1e-6 * a**6
    elif k == "ellipse":
        poly, J = Polygon(ell(a, b)), math.pi * a**3 * b**3 / (a * a + b * b)
        lo, hi = 1e-2, 1e-2
        gamma = math.pi * (a * b) ** 3 * (a * a - b * b) ** 2 / (a * a + b * b) ** 2 / 24
        gtol = 3e-2 * gamma + 1e-6 * max(a, b) ** 6
    elif k == "ring":
        poly = Polygon(ell(a, a), [ell(a * (1 - t), a * (1 - t))])
        J, lo, hi = math.pi / 2 * a**4 * (1 - (1 - t) ** 4), 1e-2, 1e-2
        elems = 600
    elif k == "ehollow":
        q = 1 - t
        poly = Polygon(ell(a, b), [ell(a * q, b * q)])
        J, lo, hi = math.pi * a**3 * b**3 / (a * a + b * b) * (1 - q**4), 1e-2, 1e-2
        elems = 600
    else:
        # thin open profiles: sum of b t^3 / 3, up to corner and end effects of order t / b
        s = {"k": "plates", "f": case["open"], "d": 100, "b": case["a"] / 2 + 40, "b2": case["b"] / 2 + 40,
             "tf": 2 + case["t"] / 30, "tw": 2 + case["t"] / 40, "tf2": 2 + case["t"] / 35}
        poly = gen.build_shape(s)
        f = case["open"]
        J = s["d"] * s["tw"] ** 3 / 3 + s["b"] * s["tf"] ** 3 / 3
        if f in ("I", "C", "Z"):
            J += s["b2"] * s["tf2"] ** 3 / 3
        lo, hi = 0.12, 0.12
        elems = 400
    poly = aff.scale(aff.rotate(poly, case["rot"], origin=(0, 0)), case["s"], case["s"], origin=(0, 0))
    poly = aff.translate(poly, case["dx"] * case["s"] / 10, case["dy"] * case["s"] / 10)
    p, an = sut.api()
    g = p.Geometry(geom=poly)
    g.create_mesh(mesh_sizes=poly.area / elems)
    sec = an.Section(geometry=g)
    sec.calculate_geometric_properties()
    sec.calculate_warping_properties()
    J *= case["s"] ** 4
    got = sec.get_j()
    ensure((1 - lo) * J <= got <= (1 + hi) * J,
           f"J of a {k} is {got:.8g}, closed form {J:.8g} (allowed -{lo:g}, +{hi:g} relative)")
    if gamma is not None:
        gg = sec.get_gamma() / case["s"] ** 6
        ensure(abs(gg - gamma) <= gtol, f"warping constant of a {k} is {gg:.6g}, closed form {gamma:.6g}")
    return Info(tags=(k,))


FAMILIES = [
    Family("single", lambda: sut.single(nmax=60), check, 640, 6000,
           rule="random connected polygon, placement and mesh; non-trivial = the warping constant is not negligible"),
    Family("composite", connected, check, 400, 4000, rule="random connected composite"),
    Family("closed_form", closed_case, check_closed, 60, 600,
           rule="rectangles, triangles, circles, ellipses, tubes and thin open profiles against closed forms",
           fixed=[{"kind": k, "a": 70, "b": 30, "t": 20, "rot": 20, "dx": 3, "dy": 5, "s": 1.0, "open": "I"}
                  for k in ("rect", "tri", "circle", "ellipse", "ring", "ehollow", "thin")]),
    Family("scales", lambda: sut.wide(60), sut.may_refuse(check), 200, 2000, rule="random section or composite of extreme size (1e-6 to 1e4 times the usual one)"),
    Family("many", lambda: sut.many(60, 700), check, 60, 800, rule="up to 36 connected regions of up to 12 materials, on up to some thousand elements"),
]
