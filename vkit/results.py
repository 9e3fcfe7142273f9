"""All retrievable results of a section, with their dimensions."""

from __future__ import annotations

import math

# (names, geometric getter, composite getter, power of length, carries the modulus, analysis)
# the modulus flag is 1 for results proportional to E, 2 for results proportional to fy
TABLE = [
    (("area",), "get_area", "get_area", 2, 0, "geo"),
    (("perimeter",), "get_perimeter", "get_perimeter", 1, 0, "geo"),
    (("mass",), None, "get_mass", 2, 0, "geo"),
    (("ea",), None, "get_ea", 2, 1, "geo"),
    (("qx", "qy"), "get_q", "get_eq", 3, 1, "geo"),
    (("ixx_g", "iyy_g", "ixy_g"), "get_ig", "get_eig", 4, 1, "geo"),
    (("cx", "cy"), "get_c", "get_c", 1, 0, "geo"),
    (("ixx_c", "iyy_c", "ixy_c"), "get_ic", "get_eic", 4, 1, "geo"),
    (("zxx+", "zxx-", "zyy+", "zyy-"), "get_z", "get_ez", 3, 1, "geo"),
    (("rx", "ry"), "get_rc", "get_rc", 1, 0, "geo"),
    (("i11", "i22"), "get_ip", "get_eip", 4, 1, "geo"),
    (("phi",), "get_phi", "get_phi", 0, 0, "geo"),
    (("z11+", "z11-", "z22+", "z22-"), "get_zp", "get_ezp", 3, 1, "geo"),
    (("r11", "r22"), "get_rp", "get_rp", 1, 0, "geo"),
    (("my_xx", "my_yy"), None, "get_my", 3, 2, "geo"),
    (("my_11", "my_22"), None, "get_my_p", 3, 2, "geo"),
    (("e_eff",), None, "get_e_eff", 0, 1, "geo"),
    (("g_eff",), None, "get_g_eff", 0, 1, "geo"),
    (("nu_eff",), None, "get_nu_eff", 0, 0, "geo"),
    (("j",), "get_j", "get_ej", 4, 1, "warp"),
    (("x_sc", "y_sc"), "get_sc", "get_sc", 1, 0, "warp"),
    (("x11_sc", "y22_sc"), "get_sc_p", "get_sc_p", 1, 0, "warp"),
    (("x_sct", "y_sct"), "get_sc_t", "get_sc_t", 1, 0, "warp"),
    (("gamma",), "get_gamma", "get_egamma", 6, 1, "warp"),
    (("a_sx", "a_sy"), "get_as", "get_eas", 2, 1, "warp"),
    (("a_s11", "a_s22"), "get_as_p", "get_eas_p", 2, 1, "warp"),
    (("beta_x+", "beta_x-", "beta_y+", "beta_y-"), "get_beta", "get_beta", 1, 0, "warp"),
    (("beta_11+", "beta_11-", "beta_22+", "beta_22-"), "get_beta_p", "get_beta_p", 1, 0, "warp"),
    (("x_pc", "y_pc"), "get_pc", "get_pc", 1, 0, "plas"),
    (("x_pcp", "y_pcp"), "get_pc_p", "get_pc_p", 1, 0, "plas"),
    (("sxx", "syy"), "get_s", "get_mp", 3, 2, "plas"),
    (("s11", "s22"), "get_sp", "get_mp_p", 3, 2, "plas"),
    (("sf_xx+", "sf_xx-", "sf_yy+", "sf_yy-"), "get_sf", "get_sf", 0, 0, "plas"),
    (("sf_11+", "sf_11-", "sf_22+", "sf_22-"), "get_sf_p", "get_sf_p", 0, 0, "plas"),
]
POWER = {n: row[3] for row in TABLE for n in row[0]}
MODULUS = {n: row[4] for row in TABLE for n in row[0]}
ANALYSIS = {n: row[5] for row in TABLE for n in row[0]}
ABSENT = {"sf_xx+", "sf_xx-", "sf_yy+", "sf_yy-", "sf_11+", "sf_11-", "sf_22+", "sf_22-"}


def collect(sec, comp: bool, which=("geo", "warp", "plas")) -> dict[str, float]:
    """Every result of the analyses in `which`, by name."""
    out = {}
    for names, gg, gc, _, _, an in TABLE:
        if an not in which:
            continue
        get = gc if comp else gg
        if get is None or (comp and names[0].startswith("sf_")):
            continue
        v = getattr(sec, get)()
        v = v if isinstance(v, tuple) else (v,)
        for n, x in zip(names, v):
            out[n] = float(x)
    return out


def magnitude(name: str, res: dict, size: float) -> float:
    """The natural magnitude of a result (for results that may vanish by symmetry)."""
    area = res["area"]
    e = res.get("ea", area) / area
    a, p = res["area"], POWER[name]
    if name == "gamma":
        return e * a * size**4 * 1e-3
    base = {0: 1.0, 1: size, 2: a, 3: a * size, 4: a * size**2}[p]
    if name == "phi":
        return 1.0
    m = MODULUS[name]
    if m == 1:
        return base * e
    if m == 2:
        k = "sxx" if name.startswith("s") else "my_xx"
        return abs(res.get(k, base))
    return base


def angle_diff(a: float, b: float, period: float = 180.0) -> float:
    d = math.fmod(a - b, period)
    if d > period / 2:
        d -= period
    if d < -period / 2:
        d += period
    return abs(d)
