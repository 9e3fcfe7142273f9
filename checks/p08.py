"""P08: the frame analysis agrees with the full geometric and warping analyses."""

from __future__ import annotations

import math

from hypothesis import strategies as st

from vkit import gen, sut
from vkit.core import Family, Info, close, ensure
from vkit.results import angle_diff, collect

ASSUMPTIONS = ["connected sections", "iterative solver compared with 1e-4, direct solver with 1e-9"]
NAMES = ("area", "ixx_c", "iyy_c", "ixy_c", "j", "phi")


def case_():
    return st.fixed_dictionaries({
        "base": st.one_of(sut.single(nmax=40), sut.comp_case(nmax=40)),
        "solver": st.sampled_from(["direct", "direct", "cgs"]),
        "before": st.lists(st.sampled_from(["geo", "warp", "plas", "stress", "frame", "frame_cgs"]), max_size=4),
        "again": st.booleans()})


def make(base):
    if "comp" in base:
        sec, parts, _ = sut.comp_section(base)
        return sec, True, sut.comp_ref(base, parts)
    sec, poly = sut.section_of(base)
    return sec, False, sut.ref_of(poly)


def refused(e: RuntimeError) -> bool:
    """The iterative solver gave up, as its documentation says it may."""
    return "CGS iterative" in str(e) or "Lagrangian multiplier method" in str(e)


def check(case):
    try:
        return check_frame(case)
    except RuntimeError as e:
        if refused(e) and not case.get("must") and (case["solver"] == "cgs" or "frame_cgs" in case["before"]):
            return Info(discard=True)
        raise


def check_frame(case):
    base = case["base"]
    full, comp, r = make(base)
    full.calculate_geometric_properties()
    full.calculate_warping_properties()
    w = collect(full, comp, ("geo", "warp"))
    sec, _, _ = make(base)
    done = set()
    for op in case["before"]:
        if op in ("warp", "plas", "stress") and "geo" not in done:
            continue
        if op == "geo":
            sec.calculate_geometric_properties()
        elif op == "warp":
            sec.calculate_warping_properties()
        elif op == "plas":
            sec.calculate_plastic_properties()
        elif op == "stress":
            sec.calculate_stress(n=1, mxx=2, m22=3, mzz=1 if "warp" in done else 0)
        else:
            sec.calculate_frame_properties(solver_type="cgs" if op == "frame_cgs" else "direct")
        done.add(op)
    parts_done = tuple(k for k in ("geo", "warp", "plas") if k in done)
    before = collect(sec, comp, parts_done) if parts_done else {}
    fr = sec.calculate_frame_properties(solver_type=case["solver"])
    if case["again"]:
        fr = sec.calculate_frame_properties(solver_type=case["solver"])
    ensure(isinstance(fr, tuple) and len(fr) == 6, f"the frame analysis returned {fr!r}")
    noise = (r.far / r.size) ** 2 * 1e-13
    ii = r.ixx_c + r.iyy_c
    rj = 1e-9 if case["solver"] == "direct" else 1e-4
    close("frame area", fr[0], w["area"], 1e-10)
    for k in (1, 2, 3):
        close("frame " + NAMES[k], fr[k], w[NAMES[k]], 1e-9, ii, 1e-10 + noise)
    close("frame j", fr[4], w["j"], rj, ii, noise + (1e-6 if case["solver"] == "cgs" else 1e-11))
    if r.delta > 1e-4:
        ensure(angle_diff(fr[5], w["phi"], 360.0) < 1e-4 + 1e5 * noise, f"frame angle {fr[5]} differs from {w['phi']}")
    if parts_done:
        after = collect(sec, comp, parts_done)
        for n, v in before.items():
            if n == "phi" and r.delta <= 1e-4:
                continue
            tol = 1e-9
            if n == "j" and (case["solver"] == "cgs" or "frame_cgs" in case["before"]):
                tol = 1e-3
            close(f"{n} after the frame analysis", after[n], v, tol, abs(v) + (ii if n.startswith("i") else 0), 1e-10 + noise)
    return Info(nontrivial=bool(parts_done) or comp,
                tags=(case["solver"], "composite" if comp else "single", *sorted(done)))


def must(shape, solver):
    return {"base": {"shape": shape, "place": {"s": 1.0, "rot": 0, "dx": 0, "dy": 0}, "mesh": {"n": 15, "ang": 30.0}},
            "solver": solver, "before": ["frame_cgs"], "again": False, "must": True}


PL = {"k": "plates", "d": 100, "b": 60, "b2": 40, "tf": 8, "tw": 5, "tf2": 10}
FIXED = [must({**PL, "f": f}, s) for f in ("I", "C", "T", "L", "box", "Z") for s in ("cgs", "direct")]

def scale_case():
    return st.builds(lambda c, b: dict(c, base=b), case_(), sut.wide(25))


FAMILIES = [
    Family("frame", case_, check, 480, 4800,
           rule="random section or composite, either solver, after a random history of analyses; "
                "non-trivial = composite or with earlier analyses", fixed=FIXED),
    Family("scales", scale_case, sut.may_refuse(check), 100, 1000,
           rule="the same for sections of extreme size (1e-6 to 1e4 times the usual one)"),
    Family("many", lambda: st.builds(lambda c, b: dict(c, base=b), case_(), sut.many(40, 400)), check, 40, 400, rule="the same for up to 36 connected regions of up to 12 materials"),
]
