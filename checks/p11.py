"""P11: normal stresses follow bending theory exactly and balance the applied actions."""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from checks.stress import NORMAL, SHEAR, Stress, actions, array_close, base, scaled
from vkit import fe, sut
from vkit.core import Family, Info, close, ensure

ASSUMPTIONS = ["nodal stresses compared to 1e-8 of the largest stress of the component plus coordinate rounding",
               "moments about the principal axes use the reported principal angle"]
KEYS = {"n": "sig_zz_n", "mxx": "sig_zz_mxx", "myy": "sig_zz_myy", "m11": "sig_zz_m11", "m22": "sig_zz_m22"}


@st.composite
def case_(draw):
    return {"base": draw(base()), "act": draw(actions(NORMAL)),
            "shear": draw(st.sampled_from([None, None, {"mzz": 3, "vx": -2, "vy": 5}])),
            "again": draw(st.booleans())}


def check(case):
    s = Stress(case["base"], warping=case["shear"] is not None)
    r, sec = s.ref, s.sec
    act = scaled(case["act"], r.size)
    kw = dict(act)
    if case["shear"]:
        kw.update(case["shear"])
    if case["again"]:
        sec.calculate_stress(n=7.0, mxx=-3.0, m22=2.0)
    post = sec.calculate_stress(**kw)
    groups = s.groups(post)
    emax = {}
    for i, _ in groups:
        emax[i] = float(case["base"]["comp"]["mats"][i]["E"]) if s.comp else 1.0
    total = np.zeros((len(s.t), 6))
    for i, d in groups:
        mask = s.nodes_of(i)
        want = s.normal(s.v, emax[i], act)
        sc = s.normal_scale(emax[i], act)
        wm, sm = 0.0, 0.0
        for a in NORMAL:
            tol = sc[a] * (1e-8 + 1e-11 * s.amp + 10 * s.local_noise)
            array_close(f"{KEYS[a]} of material {i}", d[KEYS[a]], np.where(mask, want[a], 0.0), tol)
            if a != "n":
                wm, sm = wm + want[a], sm + tol
        array_close(f"sig_zz_m of material {i}", d["sig_zz_m"], np.where(mask, wm, 0.0), sm + 1e-300)
        array_close(f"sig_zz of material {i}", d["sig_zz"], np.where(mask, wm + want["n"], 0.0),
                    sm + sc["n"] * 1e-7 + 1e-300)
        sel = s.mat_el == i
        total[sel] = np.asarray(d["sig_zz"])[s.t[sel]]
    # balance: integrate the nodal field over every element
    L, W = fe.duffy(3)
    N = fe.shape(L)
    sig = np.einsum("qn,en->eq", N, total)
    xy = np.einsum("qa,ead->eqd", L, s.v[s.t[:, :3]] - np.array([r.cx, r.cy]))
    w = s.el_area[:, None] * W[None, :]
    c, sn = math.cos(s.rad), math.sin(s.rad)
    U, V = xy[..., 0] * c + xy[..., 1] * sn, -xy[..., 0] * sn + xy[..., 1] * c
    forces = {"N": (w * sig).sum(), "Mxx": (w * sig * xy[..., 1]).sum(), "Myy": -(w * sig * xy[..., 0]).sum()}
    # moment vector components: a moment m11 about the 11-axis and m22 about the 22-axis
    want = {"N": act["n"], "Mxx": act["mxx"] + act["m11"] * c - act["m22"] * sn,
            "Myy": act["myy"] + act["m11"] * sn + act["m22"] * c}
    f = 10.0 ** case["act"]["e"] * 10
    tol = 1e-8 + 1e-10 * s.amp + 10 * s.local_noise
    # a pure moment about one axis must not leave a force: stresses times area bound the rounding
    force_scale = float((w * np.abs(sig)).sum())
    # angles below 1e-6 are reported as zero, which leaves that much coupling of the principal axes
    couple = 2e-6 * (abs(act["m11"]) + abs(act["m22"])) * s.i11 / s.i22
    close("axial force of the stress field", forces["N"], want["N"], 0, f + force_scale, tol)
    for a in ("Mxx", "Myy"):
        close(f"{a} of the stress field", forces[a], want[a], 0, (f + force_scale) * r.size + couple / tol, tol)
    m11 = (w * sig * V).sum()
    m22 = -(w * sig * U).sum()
    close("M11 of the stress field", m11, want["Mxx"] * c + want["Myy"] * sn, 0, (f + force_scale) * r.size + couple / tol, tol)
    close("M22 of the stress field", m22, -want["Mxx"] * sn + want["Myy"] * c, 0, (f + force_scale) * r.size + couple / tol, tol)
    n = sum(1 for a in NORMAL if act[a])
    uns = abs(r.ixy_c) > 1e-3 * r.ixx_c
    return Info(nontrivial=n >= 2 and uns, tags=(*s.tags(case["base"]), f"{n} actions", "with shear" if case["shear"] else "no shear",
                                                 "composite" if s.comp else "single", "product moment" if uns else "symmetric"))


@st.composite
def scale_case(draw):
    return dict(draw(case_()), base=draw(sut.wide(20, [1e-5, 1e-4, 1e4])))


@st.composite
def many_case(draw):
    return dict(draw(case_()), base=draw(sut.many(20, 400)))

FAMILIES = [
    Family("fields", case_, check, 900, 9000,
                   rule="random section and actions; non-trivial = two or more actions on a section with a product moment"),
    Family("scales", scale_case, sut.may_refuse(check), 200, 2000,
           rule="the same for sections of extreme size (1e-5 to 1e4 times the usual one)"),
    Family("many", many_case, check, 60, 600, rule="the same for up to 36 connected regions of up to 12 materials"),
]
