"""P25: solver, accelerator and progress choices do not change results.

Differential: the same generated section is analysed in this process (direct solver, compiled
kernels and sparse solver as installed) and again with the iterative solver, with progress
display, in a new process, and in new processes in which numba and/or pypardiso cannot be
imported.  Meshes, all results, stresses and the fibre export are compared.
"""

from __future__ import annotations

import contextlib
import hashlib
import io
import json
import os
import subprocess
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.stress import SHEAR, actions, scaled
from vkit import gen, sut
from vkit.core import Family, Info, Violation, ensure
from vkit.results import collect, magnitude

ASSUMPTIONS = [
    "the iterative solver may refuse with its documented errors; otherwise its results agree to 1e-3 of their natural magnitude (5 % where moduli differ by more than a factor of 100)",
    "variants agree to 1e-7 (1e-9 of the natural magnitude, more for sections far from the origin)",
]
ints = st.integers
VARIANTS = {"new": [], "nonumba": ["numba"], "nopardiso": ["pypardiso"], "plain": ["numba", "pypardiso"]}


@st.composite
def case_(draw, connected=True, nmax=40):
    return {"base": draw(st.one_of(sut.single(nmax=nmax), sut.comp_case(nmax=nmax), sut.comp_case(nmax=nmax, same=True))),
            "act": draw(actions()), "frame": draw(st.booleans()), "again": draw(st.booleans())}


@st.composite
def variant_case(draw):
    c = draw(case_(nmax=15))
    c["var"] = draw(st.sampled_from(sorted(VARIANTS)))
    c["solver"] = draw(st.sampled_from(["direct", "direct", "cgs"]))
    return c


def build(base, time_info=False):
    _, a = sut.api()
    if "comp" in base:
        parts = sut.parts_of(base)
        g = sut.comp_geom(base, parts, sut.materials_of(base))
        area = sum(q.area for q, _ in parts)
    else:
        g, poly = sut.geom_of(base)
        area = poly.area
    g.create_mesh(mesh_sizes=gen.mesh_size(area, base["mesh"]["n"]), min_angle=base["mesh"]["ang"])
    return a.Section(geometry=g, time_info=time_info)


def solver_gave_up(e):
    return "CGS iterative" in str(e) or "Lagrangian multiplier method" in str(e)


def evaluate(c, solver="direct", time_info=False):
    """Everything a user may retrieve, as plain lists; {'refused': text} if the solver gave up."""
    comp = "comp" in c["base"]
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        s = build(c["base"], time_info)
        # nodes in the order in which the elements name them; Triangle numbers the nodes of large
        # meshes in the order of memory addresses
        v, t = np.asarray(s.mesh["vertices"], dtype=float), np.asarray(s.mesh["triangles"])
        u, first = np.unique(t, return_index=True)
        order = u[np.argsort(first)]
        new = np.full(len(v), -1)
        new[order] = np.arange(len(order))
        out = {"nodes": v[order].tolist(), "elements": new[t].tolist(), "numbering": hashlib.md5(t.tobytes()).hexdigest(), "solver": solver}
        try:
            if c["frame"]:
                out["frame"] = [float(v) for v in s.calculate_frame_properties(solver_type=solver)]
            s.calculate_geometric_properties()
            s.calculate_warping_properties(solver_type=solver)
            if c["again"]:
                s.calculate_warping_properties(solver_type=solver)
        except RuntimeError as e:
            if solver_gave_up(e):
                return {"refused": str(e)}
            raise
        s.calculate_plastic_properties(verbose=time_info)
        out["res"] = collect(s, comp)
        size = float(np.ptp(s.mesh_nodes, axis=0).max())
        act = scaled(c["act"], size)
        out["stress"] = [{k: (v if isinstance(v, str) else np.asarray(v, dtype=float)[order].tolist()) for k, v in d.items()}
                         for d in s.calculate_stress(**act).get_stress()]
        v = v[t[:3, :3]].mean(axis=1)
        out["points"] = [None if t is None else [float(x) for x in t] for t in s.get_stress_at_points(pts=[tuple(q) for q in v.tolist()], **act)]
        out["info"] = {"size": size, "far": float(np.abs(s.mesh_nodes).max()), "composite": s.is_composite()}
    return out


def compare(got, want, what, rtol, stol):
    """Every number of two evaluations of the same section."""
    if "refused" in got or "refused" in want:
        return False
    ensure(got["elements"] == want["elements"] and np.allclose(got["nodes"], want["nodes"], rtol=0, atol=0),
           f"{what}: the mesh differs")
    if got["numbering"] != want["numbering"]:
        a, b = (5e-2, 1e-2) if "cgs" in (got["solver"], want["solver"]) else (1e-7, 1e-9)
        rtol, stol = max(rtol, a), max(stol, b)
    size, far = want["info"]["size"], want["info"]["far"]
    noise = (far / size) ** 2 * 1e-13
    res = want["res"]
    ip = (res["i11"] + res["i22"])
    sep = abs(res["i11"] - res["i22"]) / ip
    for n, w in res.items():
        g = got["res"][n]
        if sep < 1e-6 and (n == "phi" or "11" in n or "22" in n or n in ("x_pcp", "y_pcp")):
            continue
        m = magnitude(n, res, size)
        if n in ("j", "ixx_c", "iyy_c", "ixy_c", "i11", "i22"):
            m = ip
        tol = rtol * abs(w) + (stol + noise) * m
        if n == "phi":
            tol = (stol + noise) * 180 / sep
        ensure(abs(g - w) <= tol, f"{what}: {n} is {g:.12g}, otherwise {w:.12g}")
    if "frame" in want:
        for i, (g, w) in enumerate(zip(got["frame"], want["frame"])):
            m = [0, ip, ip, ip, ip, 180 / max(sep, 1e-300)][i]
            if i == 5 and sep < 1e-6:
                continue
            ensure(abs(g - w) <= rtol * abs(w) + (stol + noise) * m, f"{what}: frame result {i} is {g:.12g}, otherwise {w:.12g}")
    top = max([1e-300] + [abs(x) for d in want["stress"] for k, v in d.items() if k != "material" for x in v])
    ensure(len(got["stress"]) == len(want["stress"]), f"{what}: {len(got['stress'])} stress groups, otherwise {len(want['stress'])}")
    for a, b in zip(got["stress"], want["stress"]):
        ensure(set(a) == set(b) and a["material"] == b["material"], f"{what}: a stress group of {a['material']}, otherwise {b['material']}")
        for k in b:
            if k == "material" or (sep < 1e-6 and ("11" in k or "22" in k)):
                continue
            d = np.abs(np.subtract(a[k], b[k])).max()
            ensure(d <= (rtol + 100 * stol + noise) * top, f"{what}: {k} differs by {d:.3g} (largest stress {top:.4g})")
    for a, b in zip(got["points"], want["points"]):
        ensure((a is None) == (b is None), f"{what}: stress at a point is {a}, otherwise {b}")
        if a is not None:
            d = np.abs(np.subtract(a, b)).max()
            ensure(d <= (rtol + 100 * stol + noise) * top, f"{what}: stress at a point differs by {d:.3g} (largest stress {top:.4g})")
    return True


# --------------------------------------------------------------------- solvers
def check_solvers(c):
    d = evaluate(c)
    if "refused" in d:
        return Info(discard=True)
    g = evaluate(c, solver="cgs")
    # the solver's relative residual of 1e-5 means more for regions of very different stiffness
    es = [m["E"] for m in c["base"]["comp"]["mats"]] if "comp" in c["base"] else [1]
    ok = compare(g, d, "iterative solver", *((1e-3, 1e-4) if max(es) <= 100 * min(es) else (5e-2, 1e-2)))
    return Info(nontrivial=ok and len(d["elements"]) > 4, tags=("compared" if ok else "refused", "composite" if "comp" in c["base"] else "single"))


def check_progress(c):
    n = 0
    for solver in ("direct", "cgs"):
        a, b = evaluate(c, solver), evaluate(c, solver, time_info=True)
        ensure(("refused" in a) == ("refused" in b), f"progress display ({solver}): {b.get('refused')}, otherwise {a.get('refused')}")
        n += compare(b, a, f"progress display ({solver})", 1e-10, 1e-12)
    return Info(nontrivial=n == 2, tags=("composite" if "comp" in c["base"] else "single",))


# -------------------------------------------------------------------- variants
_children: dict = {}


def child(var):
    """A process of this worker in which the modules of a variant cannot be imported."""
    key = (os.getpid(), var)
    p = _children.get(key)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED="random", P25_BLOCK=",".join(VARIANTS[var]))
        p = subprocess.Popen([sys.executable, "-c", "from vkit.boot import boot; boot(); import checks.p25 as m; m.serve()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        _children[key] = p
        hello = p.stdout.readline()
        if not hello:
            raise AssertionError("the child did not start: " + p.stderr.read()[-1500:])
        have = json.loads(hello)
        for m in ("numba", "pypardiso"):
            if (m in VARIANTS[var]) == have[m] and (m in VARIANTS[var]):
                raise AssertionError(f"{m} is still available in variant {var}")
    return p


def ask(var, c):
    p = child(var)
    p.stdin.write(json.dumps(c) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        err = p.stderr.read()[-1500:]
        raise Violation(f"the analysis ended the process (variant {var}): {err}")
    return json.loads(line)


def check_variant(c):
    want = evaluate(c, c["solver"])
    got = ask(c["var"], c)
    if "error" in got:
        raise Violation(f"variant {c['var']}: {got['error']}")
    ensure(("refused" in got) == ("refused" in want) or c["solver"] == "cgs", f"variant {c['var']}: {got.get('refused')}, otherwise {want.get('refused')}")
    if c["var"] == "new" and got.get("numbering") == want.get("numbering"):
        tol = (1e-12, 1e-13)
    elif c["solver"] == "cgs":
        tol = (5e-2, 1e-2)
    else:
        tol = (1e-7, 1e-9)
    ok = compare(got, want, f"variant {c['var']} ({c['solver']})", *tol)
    return Info(nontrivial=ok and len(want["elements"]) > 4, tags=(c["var"], c["solver"], "composite" if "comp" in c["base"] else "single"))


def serve():
    """Child: analyse one case per line."""
    for m in os.environ["P25_BLOCK"].split(","):
        if m:
            sys.modules[m] = None
    real = sys.stdout
    sys.stdout = io.StringIO()
    from vkit.runner import clear_caches

    sut.api()
    import importlib.util

    have = {}
    for m in ("numba", "pypardiso"):
        try:
            have[m] = sys.modules.get(m, 0) is not None and importlib.util.find_spec(m) is not None
        except ValueError:
            have[m] = False
    real.write(json.dumps(have) + "\n")
    real.flush()
    for line in sys.stdin:
        c = json.loads(line)
        try:
            out = evaluate(c, c["solver"])
        except Exception as e:
            out = {"error": f"{type(e).__name__}: {e}"}
        real.write(json.dumps(out) + "\n")
        real.flush()
        clear_caches()


FAMILIES = [
    Family("solvers", case_, check_solvers, 200, 5000, rule="the iterative solver gave results on more than four elements"),
    Family("progress", lambda: case_(nmax=15), check_progress, 60, 1500, rule="both solvers gave results"),
    Family("variants", variant_case, check_variant, 160, 4000, rule="more than four elements"),
]
