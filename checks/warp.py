"""Shared by P06, P07, P12: a section, its warping analysis and the reference solution."""

from __future__ import annotations

import numpy as np
import shapely

from vkit import fe, gen, sut


def region_of_elements(mesh, parts):
    """Index of the part each element lies in, found geometrically."""
    v = np.asarray(mesh["vertices"], dtype=float)
    t = np.asarray(mesh["triangles"], dtype=int)
    c = v[t[:, :3]].mean(axis=1)
    pts = shapely.points(c)
    out = np.full(len(t), -1)
    for i, (g, _) in enumerate(parts):
        shapely.prepare(g)
        out[shapely.contains(g, pts) & (out < 0)] = i
    assert (out >= 0).all(), "an element lies in no region"
    return out


class Case:
    """A section of a generated case with its analyses and the independent solution."""

    def __init__(self, case, warping=True, solver="direct"):
        self.comp = "comp" in case
        if self.comp:
            self.sec, self.parts, self.mats = sut.comp_section(case)
            self.ref = sut.comp_ref(case, self.parts)
            self.nu = self.ref.ea / (2 * self.ref.ga) - 1
            ms = case["comp"]["mats"]
        else:
            self.sec, poly = sut.section_of(case)
            self.parts, self.mats = [(poly, 0)], None
            self.ref = sut.ref_of(poly)
            self.nu = 0.0
            ms = [{"E": 1.0}]
        self.mesh = self.sec.mesh
        self.region = region_of_elements(self.mesh, self.parts)
        self.e_el = np.array([float(ms[self.parts[i][1]]["E"]) for i in self.region])
        self.sec.calculate_geometric_properties()
        if warping:
            self.sec.calculate_warping_properties(solver_type=solver)
            self.fe = fe.FE(self.mesh, self.e_el, self.nu).run()
        r = self.ref
        self.size = r.size
        self.noise = (r.far / r.size) ** 2 * 1e-14
        # thin sections: terms of the size of the larger stiffness
        self.amp = max(1.0, r.ea * r.size**2 / max(r.i22, 1e-300))

    def tags(self, case):
        n = len(self.mesh["triangles"])
        kind = case["comp"]["parts"]["k"] if self.comp else case["shape"]["k"]
        return (kind, "coarse" if n < 30 else "fine" if n > 150 else "medium")
