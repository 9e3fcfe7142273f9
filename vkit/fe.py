"""Independent quadratic finite element solution of the Saint-Venant problems.

Works on the raw mesh dictionary (Triangle's node order), written directly from the
weak forms of the theory guide: assembled in one vectorised pass, integrated with a
collapsed tensor Gauss rule (exact for the polynomials involved) and solved by pinning
one node.  Nothing of the code under test is used.
"""

from __future__ import annotations

import math

import numpy as np
import scipy.sparse as sp
from scipy.sparse.linalg import splu


def duffy(n=4):
    """Quadrature of the unit triangle: barycentric points (m, 3) and weights summing to 1."""
    g, w = np.polynomial.legendre.leggauss(n)
    g, w = (g + 1) / 2, w / 2
    L, W = [], []
    for i in range(n):
        for k in range(n):
            u, v = g[i], g[k] * (1 - g[i])
            L.append((u, v, 1 - u - v))
            W.append(2 * w[i] * w[k] * (1 - g[i]))
    return np.array(L), np.array(W)


# the four-point rule of degree three that the analysis uses
LOW_L = np.array([[1 / 3, 1 / 3, 1 / 3], [0.6, 0.2, 0.2], [0.2, 0.6, 0.2], [0.2, 0.2, 0.6]])
LOW_W = np.array([-27 / 48, 25 / 48, 25 / 48, 25 / 48])


def shape(L):
    """(m, 6) shape functions at barycentric points, Triangle's node order."""
    a, b, c = L[:, 0], L[:, 1], L[:, 2]
    return np.stack([a * (2 * a - 1), b * (2 * b - 1), c * (2 * c - 1), 4 * b * c, 4 * c * a, 4 * a * b], axis=1)


def dshape(L):
    """(m, 6, 3) derivatives with respect to the barycentric coordinates."""
    a, b, c = L[:, 0], L[:, 1], L[:, 2]
    z = np.zeros_like(a)
    return np.stack([
        np.stack([4 * a - 1, z, z], 1), np.stack([z, 4 * b - 1, z], 1), np.stack([z, z, 4 * c - 1], 1),
        np.stack([z, 4 * c, 4 * b], 1), np.stack([4 * c, z, 4 * a], 1), np.stack([4 * b, 4 * a, z], 1)], axis=1)


class FE:
    def __init__(self, mesh, e, nu, quad=None):
        """e: modulus per element; nu: the (effective) Poisson's ratio."""
        self.xy = np.asarray(mesh["vertices"], dtype=float)
        self.tr = np.asarray(mesh["triangles"], dtype=int)
        self.nn = len(self.xy)
        self.e = np.broadcast_to(np.asarray(e, dtype=float), (len(self.tr),))
        self.nu = nu
        self.L, self.W = duffy() if quad is None else quad
        self.N, self.dN = shape(self.L), dshape(self.L)
        o = self.xy.mean(axis=0)
        c = self.xy[self.tr[:, :3]] - o
        self.area_el = 0.5 * ((c[:, 1, 0] - c[:, 0, 0]) * (c[:, 2, 1] - c[:, 0, 1])
                              - (c[:, 1, 1] - c[:, 0, 1]) * (c[:, 2, 0] - c[:, 0, 0]))
        wE = self.e * self.area_el
        self.area = self.area_el.sum()
        self.ea = wE.sum()
        cen = (wE[:, None] * c.mean(axis=1)).sum(axis=0) / self.ea
        self.c = cen + o
        c = c - cen
        self.corner = c
        # gradients of the barycentric coordinates, (ne, 3, 2)
        g = np.empty((len(c), 3, 2))
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            g[:, i, 0] = c[:, j, 1] - c[:, k, 1]
            g[:, i, 1] = c[:, k, 0] - c[:, j, 0]
        self.gL = g / (2 * self.area_el)[:, None, None]
        # exact second moments: mid-side rule is exact for quadratics
        m = (c + np.roll(c, -1, axis=1)) / 2
        f = lambda q: (wE[:, None] / 3 * q).sum()
        self.ixx, self.iyy, self.ixy = f(m[..., 1] ** 2), f(m[..., 0] ** 2), f(m[..., 0] * m[..., 1])
        self.x = np.einsum("qa,ead->eqd", self.L, c)  # points (ne, nq, 2)
        self.wq = wE[:, None] * self.W[None, :]
        self.B = np.einsum("qna,ead->eqnd", self.dN, self.gL)  # gradients (ne, nq, 6, 2)
        self._lu = None

    # ------------------------------------------------------------------ solve
    def _factor(self):
        k = np.einsum("eq,eqnd,eqmd->enm", self.wq, self.B, self.B)
        r = np.repeat(self.tr, 6, axis=1).ravel()
        q = np.tile(self.tr, (1, 6)).ravel()
        K = sp.coo_matrix((k.ravel(), (r, q)), shape=(self.nn, self.nn)).tocsc()
        self.used = np.unique(self.tr)
        self.free = self.used[1:]
        self.K = K
        self._lu = splu(K[self.free][:, self.free].tocsc())

    def solve(self, f):
        if self._lu is None:
            self._factor()
        u = np.zeros(self.nn)
        b = f[self.free]
        s = self._lu.solve(b)
        A = self.K[self.free][:, self.free]
        s += self._lu.solve(b - A @ s)  # one refinement step
        u[self.free] = s
        # the multiplier fixes the E-weighted mean to zero
        mean = np.einsum("eq,qn,en->", self.wq, self.N, u[self.tr]) / self.ea
        u[self.used] -= mean
        return u

    def assemble(self, fe):
        out = np.zeros(self.nn)
        np.add.at(out, self.tr, fe)
        return out

    def _params(self, x):
        X, Y = x[..., 0], x[..., 1]
        r, q = X * X - Y * Y, 2 * X * Y
        d = np.stack([self.ixx * r - self.ixy * q, self.ixy * r + self.ixx * q], -1)
        h = np.stack([-self.ixy * r + self.iyy * q, -self.iyy * r - self.ixy * q], -1)
        return d, h

    def run(self):
        x, wq, B, N = self.x, self.wq, self.B, self.N
        X, Y = x[..., 0], x[..., 1]
        g = np.stack([Y, -X], -1)
        self.f_t = self.assemble(np.einsum("eq,eqnd,eqd->en", wq, B, g))
        self.omega = self.solve(self.f_t)
        nu, ixx, iyy, ixy = self.nu, self.ixx, self.iyy, self.ixy
        d, h = self._params(x)
        lin_p, lin_f = ixx * X - ixy * Y, iyy * Y - ixy * X
        fp = nu / 2 * np.einsum("eq,eqnd,eqd->en", wq, B, d) + 2 * (1 + nu) * np.einsum("eq,qn,eq->en", wq, N, lin_p)
        ff = nu / 2 * np.einsum("eq,eqnd,eqd->en", wq, B, h) + 2 * (1 + nu) * np.einsum("eq,qn,eq->en", wq, N, lin_f)
        self.psi = self.solve(self.assemble(fp))
        self.phi = self.solve(self.assemble(ff))
        self.delta_s = 2 * (1 + nu) * (ixx * iyy - ixy**2)
        return self

    def grad(self, u):
        return np.einsum("eqnd,en->eqd", self.B, u[self.tr])

    # ---------------------------------------------------------------- results
    def results(self, phi_deg=0.0):
        """Everything about the section's centroid; phi_deg is the principal angle."""
        x, wq = self.x, self.wq
        X, Y = x[..., 0], x[..., 1]
        nu, ixx, iyy, ixy = self.nu, self.ixx, self.iyy, self.ixy
        S = lambda q: float((wq * q).sum())
        om = np.einsum("qn,en->eq", self.N, self.omega[self.tr])
        g = np.stack([Y, -X], -1)
        gw = self.grad(self.omega)
        R = {"j": S(((gw - g) ** 2).sum(-1))}
        R["j_alt"] = ixx + iyy - S((gw * gw).sum(-1))
        gp, gf = self.grad(self.psi), self.grad(self.phi)
        r2 = X * X + Y * Y
        R["x_se"] = (nu / 2 * S((iyy * X + ixy * Y) * r2) - S((g * gf).sum(-1))) / self.delta_s
        R["y_se"] = (nu / 2 * S((ixx * Y + ixy * X) * r2) + S((g * gp).sum(-1))) / self.delta_s
        qo, io, ixo, iyo = S(om), S(om * om), S(X * om), S(Y * om)
        D = ixx * iyy - ixy**2
        R["x_st"] = (ixy * ixo - iyy * iyo) / D
        R["y_st"] = (ixx * ixo - ixy * iyo) / D
        R["gamma"] = io - qo**2 / self.ea - R["y_se"] * ixo + R["x_se"] * iyo
        R["i_omega"] = io
        d, h = self._params(x)
        tp, tf = gp - nu / 2 * d, gf - nu / 2 * h
        kx, ky, kxy = S((tp * tp).sum(-1)), S((tf * tf).sum(-1)), S((tp * tf).sum(-1))
        ds2 = self.delta_s**2
        R["a_sx"], R["a_sy"] = ds2 / kx, ds2 / ky
        p = math.radians(phi_deg)
        cs, sn = math.cos(p), math.sin(p)
        # flexibility of a shear force along the principal direction
        R["a_s11"] = ds2 / (kx * cs * cs + 2 * kxy * cs * sn + ky * sn * sn)
        R["a_s22"] = ds2 / (kx * sn * sn - 2 * kxy * cs * sn + ky * cs * cs)
        R["x11_se"] = R["x_se"] * cs + R["y_se"] * sn
        R["y22_se"] = -R["x_se"] * sn + R["y_se"] * cs
        U, V = X * cs + Y * sn, -X * sn + Y * cs
        i11 = ixx * cs * cs + iyy * sn * sn - 2 * ixy * cs * sn
        i22 = ixx * sn * sn + iyy * cs * cs + 2 * ixy * cs * sn
        R["i11"], R["i22"] = i11, i22
        R["beta_x"] = S(Y * r2) / ixx - 2 * R["y_se"]
        R["beta_y"] = S(X * r2) / iyy - 2 * R["x_se"]
        R["beta_11"] = S(V * r2) / i11 - 2 * R["y22_se"]
        R["beta_22"] = S(U * r2) / i22 - 2 * R["x11_se"]
        return R

    # ----------------------------------------------------------------- stress
    def element_fields(self, L):
        """Geometry at barycentric points L of every element: positions and B matrices."""
        dN = dshape(L)
        return (np.einsum("qa,ead->eqd", L, self.corner), np.einsum("qna,ead->eqnd", dN, self.gL))

    def shear_fields(self, L):
        """Unit stress fields (ne, m, 2) for mzz, vx, vy at barycentric points L."""
        x, B = self.element_fields(L)
        g = np.stack([x[..., 1], -x[..., 0]], -1)
        d, h = self._params(x)
        j = self.results()["j"]
        e = self.e[:, None, None]
        G = lambda u: np.einsum("eqnd,en->eqd", B, u[self.tr])
        return (e * (G(self.omega) - g) / j, e * (G(self.psi) - self.nu / 2 * d) / self.delta_s,
                e * (G(self.phi) - self.nu / 2 * h) / self.delta_s)
