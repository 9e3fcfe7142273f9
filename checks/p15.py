"""P15: results depend only on the section, not on the history of calls."""

from __future__ import annotations

import copy
import json
import os
import subprocess
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.stress import ACTIONS, SHEAR, actions, scaled
from vkit import gen, sut
from vkit.core import Family, Info, Violation, ensure
from vkit.results import TABLE

ASSUMPTIONS = ["a fixed section analysed after each history equals the same section analysed in a process of its own",
               "the reference is a fresh section of an independently built equal geometry with only the prerequisite analyses",
               "values agree to 1e-9 (1e-10 of the magnitude for results that vanish by symmetry)",
               "direct solver; a result left behind by a refused analysis may be kept or refused, but not be wrong"]
# results that the frame analysis also provides
FRAME = {"get_area", "get_ea", "get_q", "get_eq", "get_ig", "get_eig", "get_c", "get_ic", "get_eic", "get_phi", "get_j", "get_ej"}
NEEDS_GEO_FOR_PLASTIC = {"get_sf", "get_sf_p"}
OPS = ["geo", "geo", "warp", "warp", "plas", "frame", "stress", "stress", "points", "show", "showt", "info", "mesh", "new",
       "move", "badwarp", "badframe", "fibre", "plot", "plotstress", "copy", "getref"]


@st.composite
def op(draw, quick=True):
    k = draw(st.sampled_from(OPS))
    o = {"op": k, "t": draw(st.integers(0, 2))}
    if k in ("stress", "points"):
        o["act"] = draw(actions())
    if k == "mesh":
        o["n"] = draw(st.sampled_from([0, 1, 4, 9, 20]))
    if k in ("plot", "plotstress", "getref", "move"):
        o["i"] = draw(st.integers(0, 30))
    return o


@st.composite
def case_(draw):
    return {"base": draw(st.one_of(sut.single(nmax=8, thin=False), sut.comp_case(nmax=8))),
            "ops": draw(st.lists(op(), min_size=2, max_size=12))}


@st.composite
def long_case(draw):
    """Longer histories of a section that has been analysed."""
    c = draw(case_())
    pre = draw(st.sampled_from([["geo"], ["geo", "warp"], ["geo", "warp", "plas"], ["frame", "geo"], ["geo", "new", "frame"]]))
    c["ops"] = [{"op": k, "t": 0} for k in pre] + c["ops"] + draw(st.lists(op(), min_size=3, max_size=14))
    return c


class TooFine(Exception):
    """Triangle numbers the nodes of large meshes in the order of memory addresses, so two
    meshes of one geometry cannot be compared node by node."""


class World:
    """Reference values: fresh sections, one analysis chain each, by mesh setting."""

    def __init__(self, base):
        self.base = base
        self.comp = "comp" in base
        self.cache = {}
        if self.comp:
            self.ref = sut.comp_ref(base, sut.parts_of(base))
        else:
            self.ref = sut.ref_of(gen.build_poly(base["shape"], base["place"]))

    def geometry(self):
        b = self.base
        if self.comp:
            parts = sut.parts_of(b)
            g = sut.comp_geom(b, parts, sut.materials_of(b))
        else:
            g = sut.geom_of(b)[0]
        return g

    def area(self):
        return self.ref.area

    def mesh(self, g, n):
        g.create_mesh(mesh_sizes=gen.mesh_size(self.area(), n), min_angle=self.base["mesh"]["ang"])
        if len(g.mesh["triangles"]) > 3500:
            raise TooFine

    def fresh(self, n, *calls):
        _, a = sut.api()
        g = self.geometry()
        self.mesh(g, n)
        s = a.Section(geometry=g)
        for c in calls:
            getattr(s, c)()
        return s

    def get(self, n, kind, what=None):
        key = (n, kind, json.dumps(what))
        if key not in self.cache:
            G, W, P = "calculate_geometric_properties", "calculate_warping_properties", "calculate_plastic_properties"
            if kind in ("geo", "warp", "plas"):
                s = self.fresh(n, *{"geo": (G,), "warp": (G, W), "plas": (G, P)}[kind])
                out = {}
                for names, gg, gc, _, _, an in TABLE:
                    if an == kind:
                        f = gc if self.comp else gg
                        if f:
                            out[f] = getattr(s, f)()
                self.cache[key] = out
            elif kind == "stress":
                s = self.fresh(n, G, *((W,) if any(what[a] for a in SHEAR) else ()))
                self.cache[key] = s.calculate_stress(**what).get_stress()
            elif kind == "frame":
                self.cache[key] = self.fresh(n).calculate_frame_properties()
            elif kind == "fibre":
                from sectionproperties.post.fibre import to_fibre_section
                self.cache[key] = to_fibre_section(self.fresh(n, G), analysis_type="3D")
            elif kind == "points":
                s = self.fresh(n, G, *((W,) if any(what[0][a] for a in SHEAR) else ()))
                self.cache[key] = s.get_stress_at_points(pts=[tuple(p) for p in what[1]], **what[0])
        return self.cache[key]


def same(name, got, want, scale):
    g = np.atleast_1d(np.asarray(got, dtype=float))
    w = np.atleast_1d(np.asarray(want, dtype=float))
    bad = ~(np.abs(g - w) <= 1e-9 * np.abs(w) + 1e-10 * scale)
    if g.shape != w.shape or bad.any():
        raise Violation(f"{name} is {got}, a fresh section gives {want}")


def scale_of(name, want, r, world):
    w = np.abs(np.atleast_1d(np.asarray(want, dtype=float)))
    if name in ("get_c", "get_sc", "get_sc_p", "get_sc_t", "get_pc", "get_pc_p", "get_beta", "get_beta_p"):
        return r.far * 10
    if name == "get_phi":
        return 1e4 if r.delta > 1e-6 else 1e99
    return float(w.max()) if len(w) else 1.0


class Handle:
    def __init__(self, sec, n):
        self.sec, self.n = sec, n
        self.done = set()       # analyses that completed
        self.touched = set()    # analyses that were attempted (may leave partial results)
        self.sf = False         # plastic analysis made with geometric results in place


def check_state(h, world, where):
    s, r = h.sec, world.ref
    for names, gg, gc, _, _, an in TABLE:
        right = gc if world.comp else gg
        wrong = gg if world.comp else gc
        if wrong and wrong != right:
            try:
                v = getattr(s, wrong)()
            except RuntimeError:
                pass
            else:
                raise Violation(f"{where}: {wrong} returned {v} for a {'composite' if world.comp else 'geometric'} section")
        if not right:
            continue
        have = an in h.done
        if right in NEEDS_GEO_FOR_PLASTIC:
            have = have and h.sf
        if "frame" in h.done and right in FRAME:
            have = True
        try:
            v = getattr(s, right)()
        except RuntimeError as e:
            if have:
                raise Violation(f"{where}: {right} refused ({e}) although calculated") from None
            continue
        maybe = an in h.touched or (right in FRAME and "frame" in h.touched)
        if not have and not maybe:
            raise Violation(f"{where}: {right} returned {v} although never calculated")
        want = world.get(h.n, an)[right]
        same(f"{where}: {right}", v, want, scale_of(right, want, r, world))


def expect_refusal(f, why, *kinds):
    try:
        f()
    except kinds:
        return
    raise Violation(why)


def frozen(post):
    return [{k: (v if isinstance(v, str) else np.array(v, copy=True)) for k, v in d.items()} for d in post.get_stress()]


def snapshot(g):
    """Everything a geometry says about itself."""
    return (tuple(g.geoms[i].geom.wkt for i in range(len(g.geoms))) if hasattr(g, "geoms") else g.geom.wkt,
            str(g.points), str(g.facets), str(g.holes), str(g.control_points))


def plot_section(h, i):
    s = h.sec
    k = i % 3
    if k == 0:
        s.plot_mesh(render=False)
    elif k == 1:
        s.plot_centroids(render=False)
    elif "warp" in h.done or "frame" in h.done:
        if np.ptp(s.section_props.omega) > 1e-9:
            s.plot_warping_function(render=False)
    else:
        expect_refusal(lambda: s.plot_warping_function(render=False), "plotted a warping function that was never calculated", RuntimeError)


def check(case):
    try:
        return check_history(case)
    except TooFine:
        return Info(discard=True)


def check_history(case):
    p, a = sut.api()
    world = World(case["base"])
    g = world.geometry()
    n = case["base"]["mesh"]["n"]
    world.mesh(g, n)
    snap = snapshot(g)
    handles = [Handle(a.Section(geometry=g), n)]
    posts = []
    seen = set()
    r = world.ref
    for step, o in enumerate(case["ops"]):
        h = handles[o["t"] % len(handles)]
        s, k = h.sec, o["op"]
        where = f"after step {step} ({k})"
        geo = bool(h.done & {"geo", "frame"})
        partly = bool(h.touched & {"geo", "frame"})
        if k == "geo":
            s.calculate_geometric_properties()
            h.done.add("geo")
            h.touched.add("geo")
        elif k == "warp":
            if "geo" in h.done:
                s.calculate_warping_properties()
                h.done.add("warp")
                h.touched.add("warp")
            else:
                # after a frame analysis alone this may be attempted, but must not succeed
                if partly:
                    h.touched.add("warp")
                expect_refusal(s.calculate_warping_properties, f"{where}: warping analysis without a geometric analysis", RuntimeError)
        elif k == "plas":
            if geo:
                s.calculate_plastic_properties()
                h.sf = "geo" in h.done
                h.done.add("plas")
                h.touched.add("plas")
            elif partly:
                # a refused frame analysis leaves a centroid behind, which is all that is needed
                try:
                    s.calculate_plastic_properties()
                    h.sf = False
                except RuntimeError:
                    pass
                h.touched.add("plas")
            else:
                expect_refusal(s.calculate_plastic_properties, f"{where}: plastic analysis without a geometric analysis", RuntimeError)
        elif k == "frame":
            fr = s.calculate_frame_properties()
            h.done.add("frame")
            h.touched.add("frame")
            want = world.get(h.n, "frame")
            for i, (v, w) in enumerate(zip(fr, want)):
                same(f"{where}: frame result {i}", v, w, 1e99 if i == 5 and r.delta < 1e-6 else max(abs(np.asarray(want[1:4]))) if i else 0)
        elif k == "badwarp":
            expect_refusal(lambda: s.calculate_warping_properties(solver_type="nonsense"), f"{where}: accepted an unknown solver", ValueError, RuntimeError)
            if "geo" in h.done:
                h.touched.add("warp")
        elif k == "badframe":
            expect_refusal(lambda: s.calculate_frame_properties(solver_type="nonsense"), f"{where}: accepted an unknown solver", ValueError, RuntimeError)
            h.touched.add("frame")
        elif k == "stress":
            act = scaled(o["act"], r.size)
            need = any(act[x] for x in SHEAR)
            post = None
            if "geo" in h.done and (not need or "warp" in h.done):
                post = s.calculate_stress(**act)
            elif partly and (not need or "warp" in h.touched):
                # a refused analysis may have provided what is needed
                try:
                    post = s.calculate_stress(**act)
                except RuntimeError:
                    pass
            else:
                expect_refusal(lambda: s.calculate_stress(**act), f"{where}: stress analysis without its prerequisites", RuntimeError)
            if post is not None:
                want = world.get(h.n, "stress", act)
                got = post.get_stress()
                ensure(len(got) == len(want), f"{where}: {len(got)} stress groups, a fresh section has {len(want)}")
                top = max(1e-300, *(float(np.abs(v).max()) for d in want for q, v in d.items() if q != "material"))
                for dg, dw in zip(got, want):
                    for q in dw:
                        if q == "material":
                            ensure(dg[q] == dw[q], f"{where}: stress group {dg[q]} instead of {dw[q]}")
                        else:
                            same(f"{where}: {q}", dg[q], dw[q], 10 * top)
                posts.append((step, post, frozen(post), h))
        elif k == "points":
            act = scaled(o["act"], r.size)
            need = any(act[x] for x in SHEAR)
            v = np.asarray(s.mesh["vertices"], dtype=float)[np.asarray(s.mesh["triangles"])[:3, :3]].mean(axis=1)
            pts = [tuple(map(float, q)) for q in v] + [(r.xmax + r.size, r.ymax)]
            got = None
            if "geo" in h.done and (not need or "warp" in h.done):
                got = s.get_stress_at_points(pts=pts, **act)
            elif partly and (not need or "warp" in h.touched):
                try:
                    got = s.get_stress_at_points(pts=pts, **act)
                except RuntimeError:
                    pass
            else:
                expect_refusal(lambda: s.get_stress_at_points(pts=pts, **act), f"{where}: stress at points without its prerequisites", RuntimeError)
            if got is not None:
                want = world.get(h.n, "points", [act, pts])
                ensure(got[-1] is None, f"{where}: a stress outside the section")
                top = max([1e-300, *(abs(x) for w in want[:-1] for x in w)])
                for q, w in zip(got[:-1], want[:-1]):
                    same(f"{where}: stress at a point", q, w, 10 * top)
        elif k == "show":
            s.display_results()
        elif k == "showt":
            if world.comp:
                s.display_transformed_results(e_ref=3.0)
            else:
                expect_refusal(lambda: s.display_transformed_results(e_ref=3.0), f"{where}: transformed results of a geometric section", RuntimeError)
        elif k == "info":
            s.display_mesh_info()
        elif k == "getref":
            if world.comp:
                e = [2.0, 7.5, case["base"]["comp"] and sut.materials_of(case["base"])[0]][o["i"] % 3]
                for names, _, gc, _, m, an in TABLE:
                    if m == 1 and an in h.done and gc not in ("get_e_eff", "get_g_eff"):
                        getattr(s, gc)(e_ref=e)
        elif k == "mesh":
            world.mesh(g, o["n"])
            n = o["n"]
        elif k == "new":
            if len(handles) < 3:
                handles.append(Handle(a.Section(geometry=g), n))
        elif k == "copy":
            if len(handles) < 3:
                c = Handle(copy.deepcopy(s), h.n)
                c.done, c.touched, c.sf = set(h.done), set(h.touched), h.sf
                handles.append(c)
        elif k == "move":
            i = o["i"] % 4
            if i == 0:
                g.shift_section(x_offset=r.size, y_offset=-r.size)
            elif i == 1:
                g.rotate_section(angle=37)
            elif i == 2:
                g.mirror_section(axis="x")
            else:
                g.align_center()
        elif k == "fibre":
            from sectionproperties.post.fibre import to_fibre_section
            if "geo" in h.done:
                ensure(to_fibre_section(s, analysis_type="3D") == world.get(h.n, "fibre"), f"{where}: fibre section differs from a fresh section's")
        elif k == "plot":
            plot_section(h, o["i"])
        elif k == "plotstress" and posts:
            _, post, _, hh = posts[o["i"] % len(posts)]
            if o["i"] % 2:
                post.plot_stress(stress=["zz", "vm", "zxy", "11"][o["i"] % 4], render=False)
            elif len(posts) and o["i"] % 4 == 0:
                q = np.asarray(post.section.mesh["vertices"])[np.asarray(post.section.mesh["triangles"])[0, :3]].mean(axis=0)
                post.plot_mohrs_circles(float(q[0]), float(q[1]), render=False)
        seen.add(k)
        check_state(h, world, where)
    for h in handles:
        check_state(h, world, "at the end")
    for step, post, old, _ in posts:
        for dg, dw in zip(post.get_stress(), old):
            for q in dw:
                ok = dg[q] == dw[q] if q == "material" else np.array_equal(dg[q], dw[q])
                ensure(ok, f"{q} of the stress result of step {step} changed afterwards")
    ensure(snapshot(g) == snap, "the geometry was changed by the analyses")
    an = seen & {"geo", "warp", "plas", "frame", "stress"}
    return Info(nontrivial=len(an) >= 2 and len(case["ops"]) >= 4,
                tags=("composite" if world.comp else "single", f"{len(handles)} sections", *sorted("op " + k for k in seen)))


B = {"shape": {"k": "plates", "f": "C", "d": 100, "b": 60, "b2": 40, "tf": 8, "tw": 5, "tf2": 10},
     "place": {"s": 1.0, "rot": 20, "dx": 0, "dy": 0}, "mesh": {"n": 8, "ang": 30.0}}


def O(k, t=0, **kw):
    return dict({"op": k, "t": t}, **kw)


FIXED = [
    # a re-meshed geometry under an existing section
    {"base": B, "ops": [O("geo"), O("mesh", n=20), O("warp"), O("frame"), O("fibre")]},
    {"base": B, "ops": [O("mesh", n=20), O("frame"), O("new"), O("geo", 1), O("warp", 1), O("geo"), O("warp")]},
    # a refused frame analysis
    {"base": B, "ops": [O("geo"), O("warp"), O("badframe"), O("frame"), O("badframe")]},
    {"base": B, "ops": [O("badframe"), O("frame"), O("warp"), O("plas"), O("geo"), O("warp"), O("plas")]},
]

# --------------------------------------------- other sections of the same process
PROBES = [
    {"shape": {"k": "plates", "f": "Z", "d": 80, "b": 40, "b2": 50, "tf": 8, "tw": 6, "tf2": 10},
     "place": {"s": 1.0, "rot": 25, "dx": 30, "dy": 0}, "mesh": {"n": 6, "ang": 30.0}},
    {"comp": {"parts": {"k": "stack", "p": [[40, 60, 0], [50, 30, 5]], "m": [0, 1]},
              "mats": [{"E": 10, "nu": 0.2, "fy": 5, "rho": 1.0}, {"E": 30, "nu": 0.3, "fy": 32, "rho": 0.5}]},
     "place": {"s": 1.0, "rot": 70, "dx": 0, "dy": 0}, "mesh": {"n": 6, "ang": 30.0}},
]


def probe(i):
    """Results of one fixed section, analysed with the fewest calls."""
    w = World(PROBES[i])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = w.fresh(6, "calculate_geometric_properties", "calculate_warping_properties", "calculate_plastic_properties")
        out = {}
        for _, gg, gc, _, _, _ in TABLE:
            f = gc if w.comp else gg
            if f:
                out[f] = np.atleast_1d(np.asarray(getattr(s, f)(), dtype=float)).tolist()
        out["frame"] = list(map(float, w.fresh(6).calculate_frame_properties()))
        for d in s.calculate_stress(n=1.0, mxx=70.0, m22=-30.0, mzz=20.0, vx=2.0, vy=-3.0).get_stress():
            for k, v in d.items():
                if k != "material":
                    out[f"{k} in {d['material']}"] = v.tolist()
    return out


def probe_file(i):
    return os.path.join(os.environ["VERIF_WORK"], f"p15_probe_{i}.json")


def prepare(tier):
    """Every probe is analysed once in a process that does nothing else."""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    jobs = [subprocess.Popen([sys.executable, "-c", f"from vkit.boot import boot; boot(); import json, checks.p15 as m; r = m.probe({i}); json.dump(r, open(m.probe_file({i}), 'w'))"],
                             cwd=root, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True) for i in range(len(PROBES))]
    for i, j in enumerate(jobs):
        _, err = j.communicate(timeout=240)
        if j.returncode:
            if "/sectionproperties/" not in err:
                raise AssertionError("a probe failed: " + err[-1500:])
            with open(probe_file(i), "w") as f:
                json.dump({"failed": err.strip().splitlines()[-1]}, f)


_probes = {}


def check_probe(i):
    if i not in _probes:
        with open(probe_file(i)) as f:
            _probes[i] = json.load(f)
    ensure("failed" not in _probes[i], f"the only section of a process cannot be analysed: {_probes[i].get('failed')}")
    got = probe(i)
    for k, w in _probes[i].items():
        scale = max(map(abs, w))
        if k in ("get_c", "get_sc", "get_sc_p", "get_sc_t", "get_pc", "get_pc_p", "get_beta", "get_beta_p"):
            scale = 1000.0
        elif k.startswith("sig_"):
            scale = 1.0
        same(f"another section, analysed afterwards in the same process: {k}", got[k], w, scale)


def with_probe(case):
    info = check(case)
    check_probe(len(case["ops"]) % len(PROBES))
    return info


R = "every getter is compared with a fresh section after every step; non-trivial = two kinds of analysis in four or more calls"
FAMILIES = [
    Family("history", case_, with_probe, 400, 4400, rule="random sequence of calls on up to three sections of one geometry; " + R, fixed=FIXED),
    Family("long", long_case, with_probe, 220, 2400, rule="longer sequences after completed analyses; " + R),
]
