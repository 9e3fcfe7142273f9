"""P23: transformed and printed results agree with the retrieved results.

Oracle: the getters without a reference modulus, the list of results that carry a modulus,
and Python's own number formatting.  Transformed results of a one-material section are also
compared with those of the same outline without materials.
"""

from __future__ import annotations

import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

from vkit import gen, sut
from vkit.core import Family, Info, Violation, close, ensure
from vkit.results import TABLE

ASSUMPTIONS = [
    "results that have not been calculated have no row; every result that a getter returns has one",
    "a printed number may differ from the formatted getter by the round-off of the last bits of the double",
    "effective moduli, masses, yield and plastic moments are not divided by the reference modulus",
]
ints = st.integers

# row labels of each getter's values: plain table of a geometric section, of a composite, transformed table
PLAIN, COMP, TRANS = {}, {}, {}


def _row(gg, gc, names, cnames=None, tnames=None):
    if gg:
        PLAIN[gg] = names
    if gc:
        COMP[gc] = cnames if cnames is not None else names
        TRANS[gc] = tnames if tnames is not None else names


def _e(names):
    return tuple("e." + n for n in names)


for gg, gc, names in [
    ("get_q", "get_eq", ("qx", "qy")), ("get_ig", "get_eig", ("ixx_g", "iyy_g", "ixy_g")),
    ("get_ic", "get_eic", ("ixx_c", "iyy_c", "ixy_c")), ("get_z", "get_ez", ("zxx+", "zxx-", "zyy+", "zyy-")),
    ("get_ip", "get_eip", ("i11_c", "i22_c")), ("get_zp", "get_ezp", ("z11+", "z11-", "z22+", "z22-")),
    ("get_j", "get_ej", ("j",)), ("get_gamma", "get_egamma", ("gamma",)),
    ("get_as", "get_eas", ("a_sx", "a_sy")), ("get_as_p", "get_eas_p", ("a_s11", "a_s22")),
    (None, "get_ea", ("a",)),
]:
    _row(gg, gc, names, _e(names), names)
for g, names in [
    ("get_perimeter", ("perimeter",)), ("get_c", ("cx", "cy")), ("get_rc", ("rx", "ry")), ("get_phi", ("phi",)),
    ("get_rp", ("r11", "r22")), ("get_sc", ("x_se", "y_se")), ("get_sc_p", ("x1_se", "y2_se")), ("get_sc_t", ("x_st", "y_st")),
    ("get_beta", ("beta_x+", "beta_x-", "beta_y+", "beta_y-")), ("get_beta_p", ("beta_11+", "beta_11-", "beta_22+", "beta_22-")),
    ("get_pc", ("x_pc", "y_pc")), ("get_pc_p", ("x11_pc", "y22_pc")),
    ("get_sf", ("sf_xx+", "sf_xx-", "sf_yy+", "sf_yy-")), ("get_sf_p", ("sf_11+", "sf_11-", "sf_22+", "sf_22-")),
]:
    _row(g, g, names)
_row("get_area", "get_area", ("area",), None, ("geom area",))
_row("get_s", None, ("sxx", "syy"))
_row("get_sp", None, ("s11", "s22"))
for g, names in [("get_mass", ("mass",)), ("get_my", ("my_xx", "my_yy")), ("get_my_p", ("my_11", "my_22")), ("get_e_eff", ("e_eff",)),
                 ("get_g_eff", ("g_eff",)), ("get_nu_eff", ("nu_eff",)), ("get_mp", ("mp_xx", "mp_yy")), ("get_mp_p", ("mp_11", "mp_22"))]:
    _row(None, g, names)
# getters whose results carry the elastic modulus
CARRY = ("get_ea", "get_eq", "get_eig", "get_eic", "get_ez", "get_eip", "get_ezp", "get_ej", "get_egamma", "get_eas", "get_eas_p")
FMTS = ["8.6e", "8.6e", ".3f", ".12g", ".2e", "15.4f", ".0f", "+.5e", "12.3E", "", "10.8G", ",.1f"]
SEQS = [[], ["geo"], ["geo"], ["geo", "warp"], ["geo", "warp"], ["geo", "plas"], ["geo", "warp", "plas"], ["geo", "warp", "plas"],
        ["geo", "plas", "warp"], ["frame"], ["frame", "plas"], ["frame", "geo"], ["frame", "geo", "warp", "plas"]]
CALL = {"geo": "calculate_geometric_properties", "warp": "calculate_warping_properties", "plas": "calculate_plastic_properties",
        "frame": "calculate_frame_properties"}


@st.composite
def eref(draw):
    return draw(st.one_of(
        st.builds(lambda m, e: {"num": float(f"{m}e{e}")}, st.integers(1, 999), st.integers(-3, 6)),
        st.builds(lambda i: {"int": i}, st.integers(1, 200000)),
        st.builds(lambda i: {"own": i}, st.integers(0, 2)),
        st.builds(lambda m: {"mat": m}, gen.material()),
        # a material of its own that carries the name of one in the section
        st.builds(lambda m, i: {"mat": m, "like": i}, gen.material(), st.integers(0, 2)),
    ))


@st.composite
def base_case(draw):
    return {"base": draw(st.one_of(
                sut.single(nmax=8, thin=False),
                sut.comp_case(nmax=8),
                sut.comp_case(nmax=8, connected=False))),
            "mat": draw(st.one_of(st.none(), gen.material()))}


@st.composite
def print_case(draw):
    c = draw(base_case())
    c["seq"] = draw(st.sampled_from(SEQS))
    c["show"] = draw(st.lists(st.fixed_dictionaries({"fmt": st.sampled_from(FMTS), "e": eref(), "t": st.booleans()}), min_size=2, max_size=4))
    return c


AS_DICT = [
    (["area"], "get_area", "get_area"), (["perimeter"], "get_perimeter", "get_perimeter"),
    (["qx", "qy"], "get_q", "get_eq"), (["ixx_g", "iyy_g", "ixy_g"], "get_ig", "get_eig"), (["cx", "cy"], "get_c", "get_c"),
    (["ixx_c", "iyy_c", "ixy_c"], "get_ic", "get_eic"), (["i11_c", "i22_c"], "get_ip", "get_eip"), (["phi"], "get_phi", "get_phi"),
    (["zxx_plus", "zxx_minus", "zyy_plus", "zyy_minus"], "get_z", "get_ez"), (["rx_c", "ry_c"], "get_rc", "get_rc"), (["j"], "get_j", "get_ej"),
    (["sxx", "syy"], "get_s", "get_mp"),
]


def section(c):
    """The section of a case and its materials (empty for a geometric one)."""
    _, a = sut.api()
    b = c["base"]
    if "comp" in b:
        s, _, mats = sut.comp_section(b)
        return s, mats
    if c["mat"] is None:
        return sut.section_of(b)[0], []
    m = gen.build_material(c["mat"])
    return sut.section_of(b, m)[0], [m]


def run(s, seq):
    """Run the analyses; a refusal (for instance of a disconnected warping analysis) is allowed."""
    for k in seq:
        try:
            getattr(s, CALL[k])()
        except (RuntimeError, ValueError) as e:
            raise_if_unexpected(e)


def raise_if_unexpected(e):
    if "disjoint" not in str(e).lower() and "lagrangian" not in str(e).lower() and "connected" not in str(e).lower():
        raise e


def captured(f, width="200"):
    buf = io.StringIO()
    old = os.environ.get("COLUMNS")
    os.environ["COLUMNS"] = width
    try:
        with contextlib.redirect_stdout(buf):
            f()
    finally:
        if old is None:
            del os.environ["COLUMNS"]
        else:
            os.environ["COLUMNS"] = old
    return buf.getvalue()


def rows(text, what):
    """{label: printed value} of a table."""
    out = {}
    for line in text.splitlines():
        for bar in "│|┃":
            if line.count(bar) >= 3 or (line.strip().startswith(bar) and line.strip().endswith(bar)):
                cells = [c.strip() for c in line.strip().strip(bar).split(bar)]
                break
        else:
            continue
        if len(cells) != 2 or cells == ["Property", "Value"]:
            continue
        ensure(cells[0] not in out, f"{what}: two rows {cells[0]!r}")
        out[cells[0]] = cells[1]
    return out


def texts(v, f):
    """The admissible renderings of a value: a few units in the last place around it."""
    v = float(v)
    out = {f"{v:{f}}".strip()}
    a = b = v
    for _ in range(6):
        a, b = np.nextafter(a, np.inf), np.nextafter(b, -np.inf)
        out |= {f"{float(a):{f}}".strip(), f"{float(b):{f}}".strip()}
    return out


def tup(v):
    return v if isinstance(v, tuple) else (v,)


def expected(s, labels, er=None):
    out = {}
    for g, names in labels.items():
        try:
            v = tup(getattr(s, g)())
        except RuntimeError:
            continue
        ensure(len(v) == len(names), f"{g} returned {len(v)} values, expected {len(names)}")
        for n, x in zip(names, v):
            out[n] = x / er if er is not None and g in CARRY else x
    return out


def compare(got, want, f, what, extra=()):
    ensure(set(got) == set(want), f"{what}: rows {sorted(set(got) - set(want))} not expected, rows {sorted(set(want) - set(got))} missing")
    for n, t in got.items():
        if f == "":
            # default formatting shows all digits of the double
            try:
                x = float(t)
            except ValueError:
                raise Violation(f"{what}: row {n} shows {t!r}") from None
            ensure(abs(x - want[n]) <= 1e-14 * abs(want[n]), f"{what}: row {n} shows {t}, expected {want[n]!r}")
        else:
            ensure(t in texts(want[n], f), f"{what}: row {n} shows {t}, expected {want[n]:{f}}")


def reference(e, mats):
    if "num" in e:
        return e["num"], e["num"]
    if "int" in e:
        return e["int"], e["int"]
    if "own" in e and mats:
        m = mats[e["own"] % len(mats)]
    elif "own" in e:
        return 7.5, 7.5
    else:
        m = gen.build_material(e["mat"], name=mats[e["like"] % len(mats)].name if "like" in e and mats else "ref")
    return m, m.elastic_modulus


def check_print(c):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s, mats = section(c)
        run(s, c["seq"])
    comp = bool(mats)
    ensure(s.is_composite() == comp, f"is_composite() is {s.is_composite()}")
    labels = COMP if comp else PLAIN
    n = 0
    for o in c["show"]:
        f = o["fmt"]
        if o["t"] and comp:
            ref, er = reference(o["e"], mats)
            out = captured(lambda: s.display_transformed_results(e_ref=ref, fmt=f))
            want = expected(s, TRANS, er)
            want["e_ref"] = er
            compare(rows(out, "transformed table"), want, f, f"transformed table ({f!r}, e_ref={er})")
        elif o["t"]:
            try:
                s.display_transformed_results(e_ref=2.0)
            except RuntimeError:
                pass
            else:
                raise Violation("transformed results of a section without materials were displayed")
            continue
        else:
            out = captured(lambda: s.display_results(fmt=f))
            want = expected(s, labels)
            compare(rows(out, "table"), want, f, f"table ({f!r})")
        n += len(want)
    d = s.section_props.asdict()
    for names, plain, ofcomp in AS_DICT:
        try:
            v = tup(getattr(s, ofcomp if comp else plain)())
        except RuntimeError:
            continue
        ensure([d.get(k) for k in names] == list(v), f"the dictionary of results has {names} = {[d.get(k) for k in names]}, {ofcomp if comp else plain}() gives {v}")
    # the default format and the width of an ordinary terminal
    want = expected(s, labels)
    compare(rows(captured(s.display_results, "80"), "table"), want, "8.6e", "table (default format)")
    out = captured(s.display_mesh_info)
    nums = [int(w) for w in out.replace("-", " ").split() if w.isdigit()]
    regions = len(s.geometry.geoms) if hasattr(s.geometry, "geoms") else 1
    ensure(nums == [len(s.mesh["vertices"]), len(s.mesh["triangles"]), regions],
           f"mesh statistics show {nums}, the mesh has {len(s.mesh['vertices'])} nodes, {len(s.mesh['triangles'])} elements and {regions} regions")
    return Info(nontrivial=n > 20, tags=("composite" if comp else "geometric", "+".join(c["seq"]) or "nothing"))


# ------------------------------------------------------------------ transformed
@st.composite
def trans_case(draw):
    return {"base": draw(sut.comp_case(nmax=8)), "es": draw(st.lists(eref(), min_size=2, max_size=5))}


def values(s, getters, **kw):
    return {g: tup(getattr(s, g)(**kw)) for g in getters}


def check_trans(c):
    s, mats = section({"base": c["base"]})
    for k in ("geo", "warp", "plas"):
        getattr(s, CALL[k])()
    everything = [g for g in COMP if not g.startswith("get_sf")]
    base = values(s, everything)
    for e in c["es"]:
        ref, er = reference(e, mats)
        got = values(s, CARRY, e_ref=ref)
        for g in CARRY:
            for a, b in zip(got[g], base[g]):
                close(f"{g}(e_ref={er})", a, b / er, rtol=1e-14)
            for a, b in zip(tup(getattr(s, g)(ref)), got[g]):
                ensure(a == b, f"{g}: {a} when the modulus is given by position, {b} by name")
        ensure(s.get_e_ref(e_ref=ref) == er, f"get_e_ref gives {s.get_e_ref(e_ref=ref)}, expected {er}")
        again = values(s, everything)
        for g in everything:
            ensure(again[g] == base[g], f"{g} changed from {base[g]} to {again[g]} after transforming results")
    return Info(nontrivial=len({m.elastic_modulus for m in mats}) > 1, tags=tuple(sorted({next(iter(e)) for e in c["es"]})))


# -------------------------------------------------- one material against none
@st.composite
def single_case(draw):
    c = {"base": draw(sut.single(nmax=8, thin=False)), "mat": draw(gen.material())}
    c["mat"]["nu"] = 0.0
    return c


def check_single(c):
    m = gen.build_material(c["mat"])
    geo, _ = sut.section_of(c["base"])
    com, _ = sut.section_of(c["base"], m)
    for s in (geo, com):
        for k in ("geo", "warp"):
            getattr(s, CALL[k])()
    far = geo.get_perimeter() + float(np.abs(np.asarray(geo.mesh['vertices'])).max())
    n = 0
    for names, gg, gc, power, mod, an in TABLE:
        if an == "plas" or not gc or (not gg and gc != "get_ea"):
            continue
        want = tup(getattr(geo, gg)()) if gg else (geo.get_area(),)
        kw = {"e_ref": m} if mod == 1 else {}
        got = tup(getattr(com, gc)(**kw))
        if gc == "get_phi" and abs(np.subtract(*geo.get_ip())) < 1e-6 * geo.get_ip()[0]:
            continue
        if gc.endswith("_p") and abs(np.subtract(*geo.get_ip())) < 1e-6 * geo.get_ip()[0]:
            continue
        big = max(abs(x) for x in want)
        for nm, a, b in zip(names, got, want):
            nat = geo.get_area() * far ** (power - 2) if power >= 2 else far if power else 1
            close(f"{nm} by the material's own modulus", a, b, rtol=1e-6, scale=max(big, nat), stol=1e-8)
            n += 1
    return Info(nontrivial=m.elastic_modulus != 1)


FAMILIES = [
    Family("printed", print_case, check_print, 260, 6000, rule="a table with more than 20 values was compared"),
    Family("transformed", trans_case, check_trans, 140, 3000, rule="regions with different moduli"),
    Family("own_modulus", single_case, check_single, 80, 2000, rule="elastic modulus different from one"),
]
