"""Comparison of reported area properties with exact reference values."""

from __future__ import annotations

import math

from vkit.core import close, ensure

RT = 1e-7


def num_scale(r, ea):
    """Noise floors: products of second order about a far origin cancel."""
    f = r.far
    return ea * f, ea * f * f


def check_basic(sec, r, comp: bool, e_ref=1.0):
    ea = r.ea / e_ref
    s1, s2 = num_scale(r, ea)
    close("area", sec.get_area(), r.area, RT)
    if comp:
        q, ig, ic = sec.get_eq(e_ref=e_ref), sec.get_eig(e_ref=e_ref), sec.get_eic(e_ref=e_ref)
        close("axial rigidity", sec.get_ea(e_ref=e_ref), ea, RT)
        close("mass", sec.get_mass(), r.mass, RT)
    else:
        q, ig, ic = sec.get_q(), sec.get_ig(), sec.get_ic()
    close("Qx", q[0], r.qx / e_ref, RT, s1, 1e-10)
    close("Qy", q[1], r.qy / e_ref, RT, s1, 1e-10)
    for n, g, w in zip(("Ixx_g", "Iyy_g", "Ixy_g"), ig, (r.ixx_g, r.iyy_g, r.ixy_g)):
        close(n, g, w / e_ref, RT, s2, 1e-10)
    c = sec.get_c()
    close("cx", c[0], r.cx, 0, r.far, 1e-8)
    close("cy", c[1], r.cy, 0, r.far, 1e-8)
    own = ea * r.size**2
    for n, g, w in zip(("Ixx_c", "Iyy_c", "Ixy_c"), ic, (r.ixx_c, r.iyy_c, r.ixy_c)):
        close(n, g, w / e_ref, RT, s2 * 1e-3 + own, 1e-9)
    return ic


def check_derived(sec, r, comp: bool, e_ref=1.0, eps=1e-12):
    """Section moduli, radii, principal values and principal section moduli."""
    ea = r.ea / e_ref
    noise = (ea * r.far**2 * eps) / (min(r.ixx_c, r.iyy_c, r.i22) / e_ref)
    rt = 1e-6 + noise * 1e2
    z = sec.get_ez(e_ref=e_ref) if comp else sec.get_z()
    ix, iy = r.ixx_c / e_ref, r.iyy_c / e_ref
    want = (ix / (r.ymax - r.cy), ix / (r.cy - r.ymin), iy / (r.xmax - r.cx), iy / (r.cx - r.xmin))
    for n, g, w in zip(("Zxx+", "Zxx-", "Zyy+", "Zyy-"), z, want):
        close(n, g, w, rt)
    rc = sec.get_rc()
    close("rx", rc[0], math.sqrt(ix / ea), rt)
    close("ry", rc[1], math.sqrt(iy / ea), rt)
    ip = sec.get_eip(e_ref=e_ref) if comp else sec.get_ip()
    i11, i22 = r.i11 / e_ref, r.i22 / e_ref
    close("I11", ip[0], i11, rt)
    close("I22", ip[1], i22, rt, i11, 1e-9)
    phi = sec.get_phi()
    ensure(-180.0 - 1e-9 <= phi <= 180.0 + 1e-9, f"principal angle {phi} is not within [-180, 180]")
    # the reported direction is a principal direction, with the larger moment about it
    p = math.radians(phi)
    ixy = r.ixy_c / e_ref
    about = ix * math.cos(p) ** 2 + iy * math.sin(p) ** 2 - ixy * math.sin(2 * p)
    prod = 0.5 * (ix - iy) * math.sin(2 * p) + ixy * math.cos(2 * p)
    close("second moment about the reported 11-axis", about, i11, 0, i11, 1e-6 + noise * 10)
    close("product moment about the reported principal axes", prod, 0.0, 0, i11, 2e-6 + noise * 100)
    u0, u1, v0, v1 = r.principal_extents(phi)
    zp = sec.get_ezp(e_ref=e_ref) if comp else sec.get_zp()
    want = (ip[0] / v1, ip[0] / -v0, ip[1] / u1, ip[1] / -u0)
    for n, g, w in zip(("Z11+", "Z11-", "Z22+", "Z22-"), zp, want):
        close(n, g, w, 1e-6)
    rp = sec.get_rp()
    close("r11", rp[0], math.sqrt(i11 / ea), rt)
    close("r22", rp[1], math.sqrt(i22 / ea), rt, r.size, 1e-9)
