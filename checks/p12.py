"""P12: shear stresses from torsion and shear force balance the applied actions."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from checks.stress import SHEAR, Stress, actions, array_close, base, scaled
from vkit import fe, sut
from vkit.core import Family, Info, close, ensure

ASSUMPTIONS = ["connected sections", "nodal values of a material are the mean over the elements of that material at the node",
               "the balance is exact on every mesh (the weak form tests linear displacements)"]


@st.composite
def case_(draw):
    return {"base": draw(base(nmax=30)), "act": draw(actions(SHEAR)),
            "normal": draw(st.sampled_from([None, None, {"n": 3, "mxx": -2, "m22": 5}]))}


def field_scale(s, act):
    """The largest unit stresses times the actions: bounds on each component's values."""
    un = s.shear_nodes()
    return {a: float(np.abs(un[a]).max()) * abs(act[a]) for a in SHEAR}


def check_field(case):
    s = Stress(case["base"])
    act = scaled(case["act"], s.size)
    kw = dict(act, **(case["normal"] or {}))
    post = s.sec.calculate_stress(**kw)
    un = s.shear_nodes()
    sc = field_scale(s, act)
    rt = 1e-8 + 1e-11 * s.amp + 10 * s.local_noise
    for i, d in s.groups(post):
        sel = s.mat_el == i
        cnt = np.zeros(len(s.v))
        np.add.at(cnt, s.t[sel], 1.0)
        tot = np.zeros((len(s.v), 2))
        for a in SHEAR:
            acc = np.zeros((len(s.v), 2))
            np.add.at(acc, s.t[sel], un[a][sel] * act[a])
            want = acc / np.maximum(cnt, 1)[:, None]
            tot += want
            for k, n in enumerate(("zx", "zy")):
                array_close(f"sig_{n}_{a} of material {i}", d[f"sig_{n}_{a}"], want[:, k], rt * sc[a] + 1e-300)
        for k, n in enumerate(("zx", "zy")):
            array_close(f"sig_{n} of material {i}", d[f"sig_{n}"], tot[:, k], rt * sum(sc.values()) + 1e-300)
    n = sum(1 for a in SHEAR if act[a])
    return Info(nontrivial=n >= 2, tags=(*s.tags(case["base"]), f"{n} actions", "composite" if s.comp else "single",
                                         "with normal actions" if case["normal"] else "shear only"))


# six-point rule of degree four: barycentric points and weights
def rule6():
    a1, b1, w1 = 0.445948490915965, 0.108103018168070, 0.223381589678011
    a2, b2, w2 = 0.091576213509771, 0.816847572980459, 0.109951743655322
    L = [(b1, a1, a1), (a1, b1, a1), (a1, a1, b1), (b2, a2, a2), (a2, b2, a2), (a2, a2, b2)]
    return np.array(L), np.array([w1] * 3 + [w2] * 3)


@st.composite
def balance_case(draw):
    return {"base": draw(base(nmax=15, thin=False)), "act": draw(actions(SHEAR))}


def check_balance(case):
    s = Stress(case["base"])
    if len(s.t) > 90:
        return Info(discard=True)
    r = s.ref
    act = scaled(case["act"], s.size)
    L, W = rule6()
    xy = np.einsum("qa,ead->eqd", L, s.v[s.t[:, :3]])
    got = s.sec.get_stress_at_points(pts=[tuple(map(float, p)) for p in xy.reshape(-1, 2)], **act)
    ensure(all(g is not None for g in got), "no stress at a point inside an element")
    sig = np.array(got, dtype=float).reshape(len(s.t), 6, 3)
    w = s.el_area[:, None] * W[None, :]
    X, Y = xy[..., 0] - r.cx, xy[..., 1] - r.cy
    tx, ty = sig[..., 1], sig[..., 2]
    xs, ys = s.sec.get_sc()
    xs, ys = xs - r.cx, ys - r.cy
    f = float((w * np.hypot(tx, ty)).sum()) + 1e-12
    tol = 1e-9 + 1e-11 * s.amp + 10 * s.local_noise
    close("shear force x of the stress field", (w * tx).sum(), act["vx"], 0, f, tol)
    close("shear force y of the stress field", (w * ty).sum(), act["vy"], 0, f, tol)
    torque = (w * ((X - xs) * ty - (Y - ys) * tx)).sum()
    # the shear centre of a thin section may lie far outside
    arm = s.size + abs(xs) + abs(ys)
    close("torsion moment of the stress field about the shear centre", torque, act["mzz"], 0, f * arm, tol)
    close("normal stress of shear actions", np.abs(sig[..., 0]).max(), 0, 0, max(abs(tx).max(), abs(ty).max(), 1e-300), 1e-12)
    n = sum(1 for a in SHEAR if act[a])
    return Info(nontrivial=n >= 2, tags=(*s.tags(case["base"]), f"{n} actions", "composite" if s.comp else "single"))


@st.composite
def scale_case(draw):
    return dict(draw(case_()), base=draw(sut.wide(20, [1e-5, 1e-4, 1e4])))


@st.composite
def many_case(draw):
    return dict(draw(case_()), base=draw(sut.many(20, 400)))

FAMILIES = [
    Family("fields", case_, check_field, 560, 5600, rule="random section, two or more of torsion and shear forces"),
    Family("balance", balance_case, check_balance, 260, 2600,
           rule="random section, integrated stress at interior points; non-trivial = two or more actions"),
    Family("scales", scale_case, sut.may_refuse(check_field), 160, 1600,
           rule="the same for sections of extreme size (1e-5 to 1e4 times the usual one)"),
    Family("many", many_case, check_field, 50, 500, rule="the same for up to 36 connected regions of up to 12 materials"),
]
