"""P05: results transform as the motion, reflection, scale or modulus change prescribes.

The second section carries the transformed mesh of the first one, so that mesh effects
cannot hide a difference; the plastic analysis works on the transformed outline.
"""

from __future__ import annotations

import copy
import math

import numpy as np
import shapely.affinity as aff
from hypothesis import strategies as st

from vkit import gen, sut
from vkit.core import Family, Info, Violation, close, ensure
from vkit.results import ABSENT, MODULUS, POWER, TABLE, angle_diff, collect, magnitude

ASSUMPTIONS = [
    "general rotations are compared in the principal frame only where the principal moments differ by more than 1 %",
    "plastic results are compared with the tolerance of the neutral-axis search (1e-6 absolute plus relative)",
]


def moved_mesh(mesh, m, t):
    """The mesh dictionary under x -> m x + t."""
    out = {k: np.array(v) for k, v in mesh.items()}
    out["vertices"] = out["vertices"] @ m.T + t
    if np.linalg.det(m) < 0:
        out["triangles"] = out["triangles"][:, [1, 0, 2, 4, 3, 5]]
    return out


def analyse(geom, which=("geo", "warp", "plas")):
    _, a = sut.api()
    sec = a.Section(geometry=geom)
    sec.calculate_geometric_properties()
    if "warp" in which:
        sec.calculate_warping_properties()
    if "plas" in which:
        sec.calculate_plastic_properties()
    return sec


def build(case):
    """[(polygon, material index)], materials or None."""
    if "comp" in case:
        return sut.parts_of(case), sut.materials_of(case)
    return [(gen.build_poly(case["shape"], case["place"]), 0)], None


def geometry(parts, mats):
    p, _ = sut.api()
    if mats is None:
        return p.Geometry(geom=parts[0][0])
    return p.CompoundGeometry(geoms=[p.Geometry(geom=g, material=mats[i]) for g, i in parts])


def meshed(parts, mats, mesh):
    g = geometry(parts, mats)
    area = sum(q.area for q, _ in parts)
    g.create_mesh(mesh_sizes=gen.mesh_size(area, mesh["n"]), min_angle=mesh["ang"])
    return g


def extent(parts):
    b = np.array([g.bounds for g, _ in parts])
    lo, hi = b[:, :2].min(axis=0), b[:, 2:].max(axis=0)
    size = float(max(hi - lo))
    return size, float(max(np.abs(lo).max(), np.abs(hi).max(), size))


def compare(want, got, size, far, comp, skip=(), rt=1e-7):
    """Compares two dictionaries of results."""
    mag_w = want
    noise = (far / size) ** 2 * 1e-13
    # thin sections carry the noise relative to their smaller stiffness
    k = want["area"] * size**2 * want.get("ea", want["area"]) / want["area"]
    amp = k / max(min(abs(want["ixx_c"]), abs(want["iyy_c"]), abs(want["i22"])), 1e-30)
    # equal principal moments: any pair of axes is a pair of principal axes
    round_ = "i11" in want and want["i11"] - want["i22"] < 1e-7 * want["i11"]
    for n, w in want.items():
        if n in skip or (round_ and n not in ("i11", "i22", "r11", "r22") and ("11" in n or "22" in n or "pcp" in n)):
            continue
        g = got[n]
        m = magnitude(n, mag_w, size)
        if n in ("qx", "qy"):
            m = m * far / size
        if n in ("ixx_g", "iyy_g", "ixy_g"):
            m = m * (far / size) ** 2
        if n in ("cx", "cy", "x_sc", "y_sc", "x_sct", "y_sct", "x_pc", "y_pc", "x_pcp", "y_pcp"):
            m = far
        if n == "phi":
            if "i11" in want and (want["i11"] - want["i22"]) > 1e-4 * want["i11"]:
                ensure(angle_diff(g, w) < 1e-4 + 1e6 * noise, f"phi: got {g}, expected {w}")
            continue
        st_ = 1e-9 + noise
        r = rt + noise * amp
        if n.endswith(("pc", "pcp")):
            close(n, g, w, 0, 3e-6 * (1 + size) + 1e-9 * far, 1)
            continue
        if n in ("sxx", "syy", "s11", "s22") or n.startswith("sf"):
            r = max(r, 3e-6 * (1 + 1 / size))
        if n.startswith(("x_sc", "y_sc", "beta", "x11_sc", "y22_sc", "gamma")):
            # differences of integrals: allow for the size of the terms
            st_ = (1e-9 + noise) * max(1.0, amp)
            if n.startswith("beta"):
                st_ *= 10
        close(n, g, w, r, m, st_)


# ---------------------------------------------------------------- linear motions
MOTIONS = ["rot", "rot90", "rot180", "rot270", "mirx", "miry", "mir45", "none"]


def matrix(kind, ang):
    c, s = math.cos(math.radians(ang)), math.sin(math.radians(ang))
    return {
        "rot": np.array([[c, -s], [s, c]]), "rot90": np.array([[0.0, -1], [1, 0]]),
        "rot180": -np.eye(2), "rot270": np.array([[0.0, 1], [-1, 0]]),
        "mirx": np.diag([1.0, -1]), "miry": np.diag([-1.0, 1]),
        "mir45": np.array([[0.0, 1], [1, 0]]), "none": np.eye(2),
    }[kind]


def predict(r, m, t, comp, size):
    """The results of the section moved by x -> m x + t, and the names not predicted."""
    o, skip = dict(r), set()
    v = lambda a, b: m @ np.array([r[a], r[b]])
    pt = lambda a, b: m @ np.array([r[a], r[b]]) + t
    ea = r["ea"] if comp else r["area"]
    c1 = pt("cx", "cy")
    o["cx"], o["cy"] = c1
    o["qx"], o["qy"] = ea * c1[1], ea * c1[0]
    # tensor [int x^2, int xy; int xy, int y^2] about the centroid
    T = np.array([[r["iyy_c"], r["ixy_c"]], [r["ixy_c"], r["ixx_c"]]])
    T1 = m @ T @ m.T
    o["iyy_c"], o["ixy_c"], o["ixx_c"] = T1[0, 0], T1[0, 1], T1[1, 1]
    o["iyy_g"], o["ixx_g"] = T1[0, 0] + ea * c1[0] ** 2, T1[1, 1] + ea * c1[1] ** 2
    o["ixy_g"] = T1[0, 1] + ea * c1[0] * c1[1]
    o["rx"], o["ry"] = math.sqrt(T1[1, 1] / ea), math.sqrt(T1[0, 0] / ea)
    warp, plas = "j" in r, "sxx" in r
    if warp:
        for a, b in (("x_sc", "y_sc"), ("x_sct", "y_sct")):
            o[a], o[b] = pt(a, b)
        s1 = np.array([o["x_sc"], o["y_sc"]]) - c1
        s0 = np.array([r["x_sc"] - r["cx"], r["y_sc"] - r["cy"]])
        # vector of third moments int (x, y) (x^2 + y^2)
        w0 = np.array([(r["beta_y-"] + 2 * s0[0]) * r["iyy_c"], (r["beta_x-"] + 2 * s0[1]) * r["ixx_c"]])
        w1 = m @ w0
        o["beta_y-"] = w1[0] / o["iyy_c"] - 2 * s1[0]
        o["beta_x-"] = w1[1] / o["ixx_c"] - 2 * s1[1]
        o["beta_y+"], o["beta_x+"] = -o["beta_y-"], -o["beta_x-"]
    axis = bool(np.all(np.abs(m) < 1e-12) or np.all((np.abs(m) < 1e-12) | (np.abs(np.abs(m) - 1) < 1e-12)))
    if not axis:
        skip |= {"zxx+", "zxx-", "zyy+", "zyy-", "my_xx", "my_yy", "a_sx", "a_sy", "x_pc", "y_pc",
                 "sxx", "syy", "sf_xx+", "sf_xx-", "sf_yy+", "sf_yy-"}
    else:
        swap = abs(m[0, 0]) < 0.5
        sx = m[0, 1] if swap else m[0, 0]  # sign of the new x-axis in the old frame
        sy = m[1, 0] if swap else m[1, 1]
        old_for_x, old_for_y = (("xx", "yy") if swap else ("yy", "xx"))
        pick = lambda base, old, sign: (r[f"{base}{old}+"], r[f"{base}{old}-"]) if sign > 0 else (
            r[f"{base}{old}-"], r[f"{base}{old}+"])
        o["zyy+"], o["zyy-"] = pick("z", old_for_x, sx)
        o["zxx+"], o["zxx-"] = pick("z", old_for_y, sy)
        if comp:
            o["my_xx"], o["my_yy"] = r["my_" + old_for_y], r["my_" + old_for_x]
        if warp:
            if swap:
                o["a_sx"], o["a_sy"] = r["a_sy"], r["a_sx"]
        if plas:
            o["x_pc"], o["y_pc"] = pt("x_pc", "y_pc")
            o["syy"], o["sxx"] = r["s" + old_for_x], r["s" + old_for_y]
            if not comp:
                o["sf_yy+"], o["sf_yy-"] = pick("sf_", old_for_x, sx)
                o["sf_xx+"], o["sf_xx-"] = pick("sf_", old_for_y, sy)
    return o, skip, axis


PRINCIPAL = ["z11+", "z11-", "z22+", "z22-", "my_11", "my_22", "x11_sc", "y22_sc", "a_s11", "a_s22",
             "beta_11+", "beta_11-", "beta_22+", "beta_22-", "x_pcp", "y_pcp", "s11", "s22",
             "sf_11+", "sf_11-", "sf_22+", "sf_22-"]


def predict_principal(r, got, m, t, o, skip, comp):
    """Adds the principal results given the sense of the axes the moved section reports."""
    delta = (r["i11"] - r["i22"]) / r["i11"]
    if delta < 1e-2:
        skip |= set(PRINCIPAL) | {"phi"}
        return False
    p0, p1 = math.radians(r["phi"]), math.radians(got["phi"])
    u0 = m @ np.array([math.cos(p0), math.sin(p0)])
    v0 = m @ np.array([-math.sin(p0), math.cos(p0)])
    u1, v1 = np.array([math.cos(p1), math.sin(p1)]), np.array([-math.sin(p1), math.cos(p1)])
    su, sv = float(u0 @ u1), float(v0 @ v1)
    ensure(abs(abs(su) - 1) < 1e-8 and abs(abs(sv) - 1) < 1e-8,
           f"principal angle {got['phi']} is not the moved angle {r['phi']}")
    su, sv = (1 if su > 0 else -1), (1 if sv > 0 else -1)
    o["phi"] = got["phi"]
    for base in ("z", "sf_", "beta_"):
        for ax, s in (("11", sv), ("22", su)):
            a, b = f"{base}{ax}+", f"{base}{ax}-"
            if a in r and s < 0:
                o[a], o[b] = r[b], r[a]
    if "j" in r:
        o["x11_sc"], o["y22_sc"] = su * r["x11_sc"], sv * r["y22_sc"]
    if "sxx" in r:
        o["x_pcp"], o["y_pcp"] = m @ np.array([r["x_pcp"], r["y_pcp"]]) + t
    return True


def far_shift():
    return st.one_of(st.integers(-400, 400), st.integers(-400, 400), st.integers(-400, 400), st.integers(-100, 100).map(lambda x: 5000 * x))


def motion_case(single):
    base = sut.single(nmax=25) if single else sut.comp_case(nmax=25)
    return st.fixed_dictionaries({
        "base": base, "kind": st.sampled_from(MOTIONS), "ang": st.integers(-179, 179),
        # in hundredths of the size, now and then thousands of times the size
        "dx": far_shift(), "dy": far_shift()})


def check_motion(case):
    base = case["base"]
    parts, mats = build(base)
    comp = mats is not None
    size, far = extent(parts)
    kind = case["kind"]
    m = matrix(kind, case["ang"])
    t = np.array([case["dx"], case["dy"]]) * size / 100.0
    g0 = meshed(parts, mats, base["mesh"])
    c = np.array(g0.geom.centroid.coords[0]) if not comp else np.zeros(2)
    c = np.array(parts[0][0].centroid.coords[0])
    t = t + c - m @ c  # about the section, so that it does not fly away
    parts1 = [(aff.affine_transform(g, [m[0, 0], m[0, 1], m[1, 0], m[1, 1], t[0], t[1]]), i) for g, i in parts]
    g1 = geometry(parts1, mats)
    g1.mesh = moved_mesh(g0.mesh, m, t)
    r0 = collect(analyse(g0), comp)
    r1 = collect(analyse(g1), comp)
    o, skip, axis = predict(r0, m, t, comp, size)
    distinct = predict_principal(r0, r1, m, t, o, skip, comp)
    far = max(far, extent(parts1)[1])
    compare(o, r1, size, far, comp, skip)
    if not axis and "a_sx" in r0:
        close("1/As_x + 1/As_y", 1 / r1["a_sx"] + 1 / r1["a_sy"], 1 / r0["a_sx"] + 1 / r0["a_sy"], 1e-7 + far**2 / size**2 * 1e-12)
    return Info(nontrivial=kind != "none" and distinct, tags=(kind, "distinct axes" if distinct else "equal moments"))


def check_scale(case):
    base = case["base"]
    parts, mats = build(base)
    comp = mats is not None
    k = case["k"]
    size, far = extent(parts)
    g0 = meshed(parts, mats, base["mesh"])
    parts1 = [(aff.scale(g, k, k, origin=(0, 0)), i) for g, i in parts]
    g1 = geometry(parts1, mats)
    g1.mesh = moved_mesh(g0.mesh, np.eye(2) * k, np.zeros(2))
    r0 = collect(analyse(g0), comp)
    try:
        r1 = collect(analyse(g1), comp)
    except RuntimeError as e:
        # the Lagrange multiplier is judged absolutely: some very small sections are refused
        if k <= 1e-5 and "Lagrangian multiplier" in str(e):
            return Info(nontrivial=False, tags=("refused",))
        raise
    for n in r0:
        r0[n] *= k ** POWER[n]
    compare(r0, r1, size * k, far * k, comp)
    return Info(nontrivial=k != 1, tags=(f"k={k:g}",))


def check_modulus(case):
    base = case["base"]
    parts, mats = build(base)
    k = case["k"]
    size, far = extent(parts)
    p, _ = sut.api()
    mats1 = [p.Material(name=m.name, elastic_modulus=m.elastic_modulus * k, poissons_ratio=m.poissons_ratio,
                        yield_strength=m.yield_strength * k, density=m.density, color="grey") for m in mats]
    g0 = meshed(parts, mats, base["mesh"])
    g1 = geometry(parts, mats1)
    g1.mesh = copy.deepcopy(g0.mesh)
    r0, r1 = collect(analyse(g0), True), collect(analyse(g1), True)
    for n in r0:
        if MODULUS[n]:
            r0[n] *= k
    compare(r0, r1, size, far, True)
    return Info(nontrivial=k != 1, tags=(f"k={k:g}",))


def check_uniform(case):
    base = case["base"]
    parts, _ = build(base)
    size, far = extent(parts)
    p, _ = sut.api()
    E, fy, rho = float(case["E"]), float(case["fy"]), float(case["rho"])
    nu = float(case["nu"])
    mat = p.Material(name="uniform", elastic_modulus=E, poissons_ratio=nu, yield_strength=fy,
                     density=rho, color="grey")
    g0 = meshed(parts, None, base["mesh"])
    g1 = p.Geometry(geom=parts[0][0], material=mat)
    g1.mesh = copy.deepcopy(g0.mesh)
    r0, r1 = collect(analyse(g0), False), collect(analyse(g1), True)
    close("mass", r1["mass"], rho * r0["area"], 1e-9)
    close("EA", r1["ea"], E * r0["area"], 1e-9)
    close("e_eff", r1["e_eff"], E, 1e-9)
    close("g_eff", r1["g_eff"], E / (2 * (1 + nu)), 1e-9)
    close("nu_eff", r1["nu_eff"], nu, 1e-9, 1, 1e-9)
    for ax, z in (("xx", "z{}"), ("yy", "z{}"), ("11", "z{}"), ("22", "z{}")):
        zmin = min(r0[f"z{ax}+"], r0[f"z{ax}-"])
        if ax in ("11", "22"):
            close(f"My_{ax}", r1[f"my_{ax}"], fy * zmin, 1e-6 + far**2 / size**2 * 1e-11)
    want = {}
    for n, v in r0.items():
        if n.startswith("sf"):
            continue
        want[n] = v * (E if MODULUS[n] == 1 else fy if MODULUS[n] == 2 else 1.0)
    want["ea"] = E * r0["area"]
    skip = set() if nu == 0 else {n for n in want if n.startswith(("beta", "x_sc", "y_sc", "x11_sc", "y22_sc"))
                                  and n not in ("x_sct", "y_sct")} | {"gamma", "a_sx", "a_sy", "a_s11", "a_s22"}
    got = dict(r1)
    sf = collect_sf(g1, mat)
    compare(want, got, size, far, True, skip)
    for ax in ("xx", "yy", "11", "22"):
        s = {"xx": "sxx", "yy": "syy", "11": "s11", "22": "s22"}[ax]
        close(f"shape factor {ax}", sf[ax], r1[s] / r1["my_" + ax], 1e-9)
    return Info(nontrivial=E != 1 or fy != 1, tags=("nu=0" if nu == 0 else "nu>0",))


def collect_sf(geom, mat):
    sec = analyse(geom, ("geo", "plas"))
    a, b = sec.get_sf(), sec.get_sf_p()
    ensure(a[0] == a[1] and a[2] == a[3] and b[0] == b[1] and b[2] == b[3],
           "the two shape factors of a section with materials differ")
    return {"xx": a[0], "yy": a[2], "11": b[0], "22": b[2]}


def scale_case(single):
    base = sut.single(nmax=25, scales=[1.0]) if single else sut.comp_case(nmax=25, scales=[1.0])
    return st.fixed_dictionaries({"base": base, "k": st.sampled_from([0.1, 0.5, 2.0, 10.0, 1000.0, 1e5, 1e-3, 1e-4, 1e-5])})


def modulus_case():
    return st.fixed_dictionaries({"base": sut.comp_case(nmax=25),
                                  "k": st.sampled_from([1e-3, 0.5, 2.0, 7.0, 1000.0, 2e5])})


def uniform_case():
    return st.fixed_dictionaries({"base": sut.single(nmax=25), "E": st.sampled_from([1, 0.5, 30, 2e5]),
                                  "nu": st.sampled_from([0, 0, 0.3, 0.45]), "fy": st.sampled_from([1, 2, 250]),
                                  "rho": st.sampled_from([1, 7.85e-6])})


FAMILIES = [
    Family("motion", lambda: motion_case(True), check_motion, 240, 2400,
           rule="random section and its image under a translation combined with a rotation, quarter turn or "
                "reflection; non-trivial = a real motion of a section with distinct principal axes"),
    Family("motion_composite", lambda: motion_case(False), check_motion, 180, 1800, rule="same for composites"),
    Family("scale", lambda: st.one_of(scale_case(True), scale_case(False)), check_scale, 180, 1800,
           rule="random section or composite and its scaled copy"),
    Family("modulus", modulus_case, check_modulus, 100, 1000, rule="composite with all moduli and strengths scaled"),
    Family("uniform", uniform_case, check_uniform, 120, 1200, rule="section without and with one uniform material"),
]
