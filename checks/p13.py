"""P13: stress results superpose, and combined stresses follow from the components."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from checks.stress import ACTIONS, actions, array_close, base, scaled
from vkit import sut
from vkit.core import Family, Info, ensure

ASSUMPTIONS = ["agreement to 1e-9 of the largest component stress (rounding only)"]
COMP = {"n": ("sig_zz_n",), "mxx": ("sig_zz_mxx",), "myy": ("sig_zz_myy",), "m11": ("sig_zz_m11",), "m22": ("sig_zz_m22",),
        "mzz": ("sig_zx_mzz", "sig_zy_mzz"), "vx": ("sig_zx_vx", "sig_zy_vx"), "vy": ("sig_zx_vy", "sig_zy_vy")}
ALL = [k for v in COMP.values() for k in v]


def combined(c):
    """The documented combined stresses of the eleven component fields."""
    o = {}
    o["sig_zz_m"] = c["sig_zz_mxx"] + c["sig_zz_myy"] + c["sig_zz_m11"] + c["sig_zz_m22"]
    for a in ("mzz", "vx", "vy"):
        o["sig_zxy_" + a] = np.hypot(c["sig_zx_" + a], c["sig_zy_" + a])
    o["sig_zx_v"], o["sig_zy_v"] = c["sig_zx_vx"] + c["sig_zx_vy"], c["sig_zy_vx"] + c["sig_zy_vy"]
    o["sig_zxy_v"] = np.hypot(o["sig_zx_v"], o["sig_zy_v"])
    o["sig_zz"] = c["sig_zz_n"] + o["sig_zz_m"]
    o["sig_zx"], o["sig_zy"] = c["sig_zx_mzz"] + o["sig_zx_v"], c["sig_zy_mzz"] + o["sig_zy_v"]
    o["sig_zxy"] = np.hypot(o["sig_zx"], o["sig_zy"])
    # principal stresses as eigenvalues of [[zz, zxy], [zxy, 0]]
    h = np.hypot(o["sig_zz"] / 2, o["sig_zxy"])
    o["sig_11"], o["sig_33"] = o["sig_zz"] / 2 + h, o["sig_zz"] / 2 - h
    o["sig_vm"] = np.hypot(o["sig_zz"], np.sqrt(3.0) * o["sig_zxy"])
    return o


@st.composite
def case_(draw):
    return {"base": draw(base(nmax=15)), "a": draw(actions()), "b": draw(actions()), "f": draw(st.integers(-7, 7)),
            "pow": draw(st.sampled_from([-12, -7, -3, 4, 9])),
            "pts": draw(st.lists(st.tuples(st.integers(0, 100), st.integers(1, 8), st.integers(1, 8)), max_size=4))}


def fields(sec, act):
    return [{k: (v if isinstance(v, str) else np.asarray(v, dtype=float)) for k, v in d.items()}
            for d in sec.calculate_stress(**act).get_stress()]


def check(case):
    b = case["base"]
    if "comp" in b:
        sec, parts, _ = sut.comp_section(b)
        size = sut.comp_ref(b, parts).size
    else:
        sec, poly = sut.section_of(b)
        size = sut.ref_of(poly).size
    sec.calculate_geometric_properties()
    sec.calculate_warping_properties()
    A = scaled(case["a"], size)
    B = scaled(dict(case["b"], e=case["a"]["e"]), size)
    f = case["f"]
    S = {a: A[a] + f * B[a] for a in ACTIONS}
    ra, rb, rs = fields(sec, A), fields(sec, B), fields(sec, S)
    ensure([d["material"] for d in ra] == [d["material"] for d in rs], "material groups change with the actions")
    # each action alone
    alone = {a: fields(sec, {a: S[a]}) for a in ACTIONS if S[a]}
    for g, (da, db, ds) in enumerate(zip(ra, rb, rs)):
        name = ds["material"]
        top = max([1e-300, *(float(np.abs(d[k]).max()) * w for d, w in ((da, 1), (db, abs(f))) for k in ALL)])
        tol = 1e-9 * top
        for k in [*ALL, "sig_zz_m", "sig_zx_v", "sig_zy_v", "sig_zz", "sig_zx", "sig_zy"]:
            array_close(f"{k} of {name} under A + {f} B", ds[k], da[k] + f * db[k], tol)
        for a in ACTIONS:
            for k in COMP[a]:
                array_close(f"{k} of {name} with {a} alone", ds[k], alone[a][g][k] if S[a] else np.zeros(len(ds[k])), tol)
        for r in (da, db, ds):
            own = max([1e-300, *(float(np.abs(r[k]).max()) for k in ALL)])
            # a value formed as a root of squares keeps only half of the digits near zero
            for k, want in combined(r).items():
                array_close(f"{k} of {name}", r[k], want, 1e-11 * own)
        for a, res in alone.items():
            own = max([1e-300, *(float(np.abs(res[g][k]).max()) for k in ALL)])
            for k, want in combined(res[g]).items():
                array_close(f"{k} of {name} with {a} alone", res[g][k], want, 1e-11 * own)
    # the same actions in other units of force
    unit = 10.0 ** case["pow"]
    for da, dp in zip(ra, fields(sec, {a: A[a] * unit for a in ACTIONS})):
        top = max([1e-300, *(float(np.abs(da[k]).max()) for k in ALL)])
        for k in da:
            if k != "material":
                array_close(f"{k} of {da['material']} under {unit:g} A", dp[k], da[k] * unit, 1e-9 * top * unit)
    # at points
    t, v = np.asarray(sec.mesh["triangles"]), np.asarray(sec.mesh["vertices"], dtype=float)
    pts = []
    for i, p, q in case["pts"]:
        L = np.array([p, q, 20 - p - q]) / 20.0
        pts.append(tuple(float(x) for x in L @ v[t[i % len(t), :3]]))
    if pts:
        ga, gb, gs = (sec.get_stress_at_points(pts=pts, **X) for X in (A, B, S))
        for p, x, y, z in zip(pts, ga, gb, gs):
            ensure(None not in (x, y, z), f"no stress inside an element, at {p}")
            x, y, z = map(np.array, (x, y, z))
            top = max(1e-300, np.abs(x).max(), abs(f) * np.abs(y).max(),
                      *(float(np.abs(d[k]).max()) * w for r, w in ((ra, 1), (rb, abs(f))) for d in r for k in ALL))
            array_close(f"stress at {p} under A + {f} B", z, x + f * y, 1e-9 * top)
    nn = sum(1 for a in ACTIONS[:5] if S[a])
    ns = sum(1 for a in ACTIONS[5:] if S[a])
    return Info(nontrivial=nn >= 1 and ns >= 1 and bool(f), tags=("composite" if "comp" in b else "single",
                f"{len(rs)} groups", f"{nn} normal", f"{ns} shear", "reversed" if f < 0 else "same sign"))


@st.composite
def scale_case(draw):
    return dict(draw(case_()), base=draw(sut.wide(20, [1e-5, 1e-4, 1e4])))


@st.composite
def many_case(draw):
    return dict(draw(case_()), base=draw(sut.many(20, 400)))

FAMILIES = [
    Family("superpose", case_, check, 400, 4000,
                   rule="random section and two action sets; non-trivial = normal and shear actions together"),
    Family("scales", scale_case, sut.may_refuse(check), 120, 1200,
           rule="the same for sections of extreme size (1e-5 to 1e4 times the usual one)"),
    Family("many", many_case, check, 40, 400, rule="the same for up to 36 connected regions of up to 12 materials"),
]
