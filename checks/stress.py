"""Shared by P10-P14: actions, exact bending stresses and reference shear stress fields."""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from checks.warp import Case
from vkit import fe, sut
from vkit.core import Violation, ensure

NORMAL = ("n", "mxx", "myy", "m11", "m22")
SHEAR = ("mzz", "vx", "vy")
ACTIONS = (*NORMAL, *SHEAR)
# barycentric coordinates of the six nodes of an element, Triangle's node order
NODES_L = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]], dtype=float)


def actions(names=ACTIONS, dense=False):
    """Integer multiples of unit actions; zeros are frequent."""
    val = st.integers(-9, 9) if dense else st.one_of(st.just(0), st.integers(-9, 9), st.integers(-9, 9))
    return st.fixed_dictionaries({"k": st.fixed_dictionaries({a: val for a in names}),
                                  "e": st.sampled_from([0, 0, 3, -3, 6, -6, -9, 9])})


def scaled(act, size):
    """The actions in the units of the section: forces in units of 10^e, moments times the size."""
    f = 10.0 ** act["e"]
    return {a: k * f * (1.0 if a in ("n", "vx", "vy") else size) for a, k in act["k"].items()}


def base(nmax=40, thin=True):
    return st.one_of(sut.single(nmax=nmax, thin=thin), sut.comp_case(nmax=nmax), sut.comp_case(nmax=nmax))


class Stress(Case):
    def __init__(self, case, warping=True):
        super().__init__(case, warping)
        r = self.ref
        self.phi = self.sec.get_phi()
        self.v = np.asarray(self.mesh["vertices"], dtype=float)
        self.t = np.asarray(self.mesh["triangles"], dtype=int)
        self.rad = math.radians(self.phi)
        c, s = math.cos(self.rad), math.sin(self.rad)
        self.i11 = r.ixx_c * c * c + r.iyy_c * s * s - 2 * r.ixy_c * c * s
        self.i22 = r.ixx_c * s * s + r.iyy_c * c * c + 2 * r.ixy_c * c * s
        o = self.v[self.t[:, :3]]
        d1, d2 = o[:, 1] - o[:, 0], o[:, 2] - o[:, 0]
        self.el_area = 0.5 * (d1[:, 0] * d2[:, 1] - d1[:, 1] * d2[:, 0])
        # material index of every element, and the indices in use
        self.mat_el = np.array([self.parts[i][1] for i in self.region])
        self.used = sorted(set(self.mat_el.tolist()))
        # rounding carried by coordinates far from the origin, seen at the scale of an element
        self.local_noise = 1e-15 * (r.far / r.size) ** 2 * r.size**2 / self.el_area.min()

    # ------------------------------------------------------------------ normal
    def normal(self, pts, e, act):
        """Exact bending stresses at points (n, 2), modulus e (scalar or (n,))."""
        r = self.ref
        x, y = pts[:, 0] - r.cx, pts[:, 1] - r.cy
        D = r.ixx_c * r.iyy_c - r.ixy_c**2
        c, s = math.cos(self.rad), math.sin(self.rad)
        u, w = x * c + y * s, -x * s + y * c
        return {
            "n": e * act["n"] / r.ea * np.ones(len(x)),
            "mxx": e * act["mxx"] * (r.iyy_c * y - r.ixy_c * x) / D,
            "myy": e * act["myy"] * (r.ixy_c * y - r.ixx_c * x) / D,
            "m11": e * act["m11"] * w / self.i11,
            "m22": -e * act["m22"] * u / self.i22,
        }

    def normal_scale(self, e, act):
        """The largest magnitude each component's terms can take."""
        r = self.ref
        h = r.size
        D = r.ixx_c * r.iyy_c - r.ixy_c**2
        big = max(r.ixx_c, r.iyy_c)
        return {"n": abs(e * act["n"] / r.ea), "mxx": abs(e * act["mxx"]) * 2 * big * h / D,
                "myy": abs(e * act["myy"]) * 2 * big * h / D, "m11": abs(e * act["m11"]) * h / self.i11,
                "m22": abs(e * act["m22"]) * h / self.i22}

    # ------------------------------------------------------------------- shear
    def shear_at(self, els, L):
        """Unit shear stresses {mzz, vx, vy: (n, 2)} in elements els at barycentric points L (n, 3)."""
        f = self.fe
        els = np.asarray(els, dtype=int)
        x = np.einsum("na,nad->nd", L, f.corner[els])
        B = np.einsum("nka,nad->nkd", fe.dshape(L), f.gL[els])
        g = np.stack([x[:, 1], -x[:, 0]], -1)
        d, h = f._params(x)
        if not hasattr(self, "_j"):
            self._j = f.results()["j"]
        e = f.e[els][:, None]
        G = lambda u: np.einsum("nkd,nk->nd", B, u[f.tr[els]])
        return {"mzz": e * (G(f.omega) - g) / self._j, "vx": e * (G(f.psi) - self.nu / 2 * d) / f.delta_s,
                "vy": e * (G(f.phi) - self.nu / 2 * h) / f.delta_s}

    def shear_nodes(self):
        """Unit shear stresses at the six nodes of every element: {action: (ne, 6, 2)}."""
        if not hasattr(self, "_sn"):
            ne = len(self.t)
            out = {a: np.empty((ne, 6, 2)) for a in SHEAR}
            for k in range(6):
                r = self.shear_at(np.arange(ne), np.repeat(NODES_L[k][None], ne, axis=0))
                for a in SHEAR:
                    out[a][:, k] = r[a]
            self._sn = out
        return self._sn

    # ------------------------------------------------------------------ groups
    def groups(self, post):
        """[(material index, result dict)] of a stress result, one for each material in use."""
        res = post.get_stress()
        ensure(len(res) == len(self.used) if not self.comp else len(res) >= len(self.used),
               f"{len(res)} stress groups for {len(self.used)} materials")
        if not self.comp:
            return [(0, res[0])]
        out = []
        for d in res:
            i = int(d["material"][1:])
            if i in self.used:
                out.append((i, d))
        ensure(sorted(i for i, _ in out) == self.used,
               f"stress groups of {[d['material'] for d in res]} for materials {self.used}")
        return out

    def nodes_of(self, i):
        m = np.zeros(len(self.v), dtype=bool)
        m[self.t[self.mat_el == i].ravel()] = True
        return m


def array_close(name, got, want, tol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{name}: shape {got.shape}, expected {want.shape}")
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = int(np.argmax(np.where(np.isnan(got), np.inf, np.abs(got - want))))
        raise Violation(f"{name}: at node {i} got {got.flat[i]:.12g}, expected {want.flat[i]:.12g} "
                        f"(tolerance {np.broadcast_to(tol, got.shape).flat[i]:.3g}; {bad.sum()} of {bad.size} values differ)")
