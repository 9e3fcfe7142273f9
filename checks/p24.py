"""P24: the fibre section export represents the section.

Oracle: the mesh dictionary (areas, centres and materials of the elements), the exact
polygons of the regions, and an independent finite element solution of the warping problem
about the origin.
"""

from __future__ import annotations

import os
import tempfile

import numpy as np
import scipy.spatial
from hypothesis import strategies as st

from vkit import gen, sut
from vkit.core import Family, Info, Violation, ensure
from vkit.fe import FE, dshape, shape

ASSUMPTIONS = [
    "values are compared to the nine digits of the export (1e-6 of the largest value for warping data)",
    "materials whose names become equal once blanks are replaced by dashes are not generated",
    "warping data is checked for connected sections only",
    "only the lines listing the fibre tags are claimed to keep the maximum width, and only where a single tag fits",
]
ints = st.integers
NAMES = ["steel", "C30 concrete", "timber  GL", "a-b", "x.y_z", "Grade 350 plate"]


@st.composite
def case_(draw, connected=True):
    c = {"base": draw(st.one_of(sut.single(nmax=60), sut.comp_case(nmax=60, same=True, connected=connected))),
         "mat": draw(st.one_of(st.none(), gen.material())),
         "names": [*draw(st.permutations(NAMES)), *(f"layer {i}" for i in range(12))],
         "type": draw(st.sampled_from(["2D", "3D", "3DOS", "3dos", "3d", "2d"] if connected else ["2D", "3D"])),
         "tag": draw(st.one_of(st.none(), ints(0, 30), ints(90, 110), ints(990, 1005), ints(10**5, 10**6))),
         "map": draw(st.lists(st.tuples(ints(0, 4), ints(1, 200)), max_size=4)),
         "width": draw(st.one_of(st.sampled_from([None, None, 40, 80, 81, 123, 400]), ints(1, 60))),
         "via": draw(st.sampled_from(["geometry", "section", "analysed"])),
         "save": draw(st.booleans())}
    return c


def build(c):
    p, a = sut.api()
    b = c["base"]
    if "comp" in b:
        parts = sut.parts_of(b)
        mats = [gen.build_material(m, name=c["names"][i]) for i, m in enumerate(b["comp"]["mats"])]
        g = sut.comp_geom(b, parts, mats)
        per = [(poly, mats[i].name, mats[i].elastic_modulus) for poly, i in parts]
        area = sum(q.area for q, _ in parts)
    else:
        m = None if c["mat"] is None else gen.build_material(c["mat"], name=c["names"][0])
        g, poly = sut.geom_of(b, m)
        per = [(poly, m.name if m else "default", m.elastic_modulus if m else 1.0)]
        area = poly.area
    g.create_mesh(mesh_sizes=gen.mesh_size(area, b["mesh"]["n"]), min_angle=b["mesh"]["ang"])
    return g, per


def dashed(n):
    return "-".join(n.split())


def check(c):
    import warnings

    from sectionproperties.post.fibre import to_fibre_section

    _, a = sut.api()
    g, per = build(c)
    mesh = {k: np.array(v) for k, v in g.mesh.items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["via"] == "geometry":
            obj = g
        else:
            obj = a.Section(geometry=g)
            if c["via"] == "analysed":
                obj.calculate_geometric_properties()
    kw = {}
    names = sorted({n for _, n, _ in per})
    mapping = {}
    for i, t in c["map"]:
        # names of the section, of no region, and the name of the first material without blanks
        pool = [*names, "unused", *(x for x in (dashed(n) for n in names) if x not in names)]
        mapping[pool[i % len(pool)]] = t
    # do not map the same exported name twice
    seen, clean = set(), {}
    for k, v in mapping.items():
        if dashed(k) not in seen:
            clean[k] = v
            seen.add(dashed(k))
    if c["map"]:
        kw["material_mapping"] = dict(clean)
    if c["tag"] is not None:
        kw["main_section_tag"] = c["tag"]
    if c["width"] is not None:
        kw["max_width"] = c["width"]
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path = os.path.join(d, "out.sp")
        if c["save"]:
            kw["save_to"] = path
        text = to_fibre_section(obj, analysis_type=c["type"], **kw)
        if c["save"]:
            with open(path, newline="") as f:
                ensure(f.read().replace("\r\n", "\n") == text, "the saved file differs from the returned text")
        else:
            ensure(not os.listdir(d), "a file was written without being asked for")
    ensure(kw.get("material_mapping", clean) == clean, "the material mapping was changed")

    # ---- read the commands back
    typ = c["type"].upper()
    main = 1 if c["tag"] is None else c["tag"]
    width = 160 if c["width"] is None else c["width"]
    lines = text.split("\n")
    raw = [l for l in lines if l.strip() and not l.startswith("#")]
    ensure(raw and raw[0].startswith(f"section Fibre{typ} {main} "), f"the commands begin with {raw[0][:40]!r}" if raw else "no commands")
    logical, cur, head = [], "", []
    for l in raw:
        if not logical:
            head.append(l)
        if l.endswith("\\"):
            cur += l[:-1] + " "
        else:
            logical.append((cur + l).split())
            cur = ""
    ensure(not cur, "the last line ends in a continuation mark")
    for i, l in enumerate(head):
        if len(l.replace("\\", " ").split()) == (3 if i == 0 else 1):
            continue  # what cannot be divided further
        ensure(len(l.rstrip()) <= width, f"a line of {len(l.rstrip())} characters for a maximum width of {width}")
    first, cells = logical[0], logical[1:]
    tags = [int(t) for t in first[3:]]
    n = len(mesh["triangles"])
    ensure(len(cells) == n, f"{len(cells)} fibres for {n} elements")
    ensure(sorted(tags) == list(range(main + 1, main + 1 + n)), f"fibre tags {tags[:3]}..{tags[-3:]} are not the {n} numbers following {main}")
    ncol = {"2D": 6, "3D": 7, "3DOS": 10}[typ]
    for w in cells:
        ensure(w[:2] == ["section", f"Cell{typ}"] and len(w) == ncol, f"unexpected command {' '.join(w)!r}")
    ensure(sorted(int(w[2]) for w in cells) == sorted(tags), "the tags of the fibres differ from those of the section")
    F = lambda i: np.array([float(w[i]) for w in cells])
    area = F(3)
    k = 4 if typ != "3DOS" else 7
    mat = [w[k] for w in cells]
    y = F(k + 1)
    z = F(k + 2) if typ != "2D" else None

    # ---- against the elements
    xy, tri = mesh["vertices"].astype(float), mesh["triangles"]
    p3 = xy[tri[:, :3]]
    cen = p3.mean(axis=1)
    d1, d2 = p3[:, 1] - p3[:, 0], p3[:, 2] - p3[:, 0]
    ea = 0.5 * (d1[:, 0] * d2[:, 1] - d1[:, 1] * d2[:, 0])
    att = mesh["triangle_attributes"].ravel().astype(int)
    expect = [str(clean_tag) if (clean_tag := {dashed(q): v for q, v in clean.items()}.get(dashed(per[i][1]))) is not None else dashed(per[i][1]) for i in range(len(per))]
    size = float(np.ptp(xy, axis=0).max())
    far = float(np.abs(xy).max())
    # match fibres and elements by position
    if typ == "2D":
        for m in set(expect):
            s1 = sorted((q, w) for mm, q, w in zip(mat, y, area) if mm == m)
            s2 = sorted((q, w) for i, q, w in zip(att, cen[:, 0], ea) if expect[i] == m)
            ensure(len(s1) == len(s2), f"{len(s1)} fibres of {m}, expected {len(s2)}")
            v1, v2 = np.array(s1), np.array(s2)
            ensure(np.all(np.abs(v1[:, 0] - v2[:, 0]) <= 2e-8 * far), f"positions of the fibres of {m} differ from the centres of its elements")
            ensure(np.all(np.abs(np.sort(v1[:, 1]) - np.sort(v2[:, 1])) <= 2e-8 * ea.max()), f"areas of the fibres of {m} differ from those of its elements")
    else:
        dist, idx = scipy.spatial.cKDTree(np.c_[y, z]).query(cen)
        ensure(dist.max() <= 4e-8 * far, f"no fibre at the centre of an element (distance {dist.max():.3g})")
        ensure(len(set(idx.tolist())) == n, "two elements share a fibre")
        bad = np.abs(area[idx] - ea) > 1e-7 * ea + 1e-12 * far**2
        ensure(not bad.any(), f"fibre area {area[idx][bad][:1]}, element area {ea[bad][:1]}")
        for e, i in enumerate(idx):
            ensure(mat[i] == expect[att[e]], f"fibre of material {mat[i]!r} in a region of {expect[att[e]]!r}")

    # ---- against the exact regions
    for m in set(expect):
        polys = [q for (q, _, _), e in zip(per, expect) if e == m]
        sel = np.array([q == m for q in mat])
        A = sum(q.area for q in polys)
        ensure(abs(area[sel].sum() - A) <= 1e-7 * A, f"fibres of {m} have a total area of {area[sel].sum():.9g}, its regions {A:.9g}")
        for v, ax in ((y, 0), (z, 1)):
            if v is None:
                continue
            q1 = sum(q.area * (q.centroid.x if ax == 0 else q.centroid.y) for q in polys)
            ensure(abs((area * v)[sel].sum() - q1) <= 1e-7 * A * far, f"fibres of {m} have a first moment of {(area * v)[sel].sum():.9g}, its regions {q1:.9g}")

    # ---- warping data
    if typ == "3DOS":
        e = np.array([per[i][2] for i in att])
        fe = FE(mesh, e, 0.0).run()
        L = np.full((1, 3), 1 / 3)
        om = np.einsum("qn,en->eq", shape(L), fe.omega[tri])[:, 0]
        gr = np.einsum("qna,ead,en->ed", dshape(L), fe.gL, fe.omega[tri])
        cx, cy = fe.c
        # about the origin instead of the centroid
        om = om + cy * (cen[:, 0] - cx) - cx * (cen[:, 1] - cy)
        gr = gr + np.array([cy, -cx])
        for what, got, want in (("warping function", F(4), om), ("derivative to y", F(5), gr[:, 0]), ("derivative to z", F(6), gr[:, 1])):
            top = np.abs(want).max() + 1e-3 * (size * far if what[0] == "w" else far)
            d = np.abs(got[idx] - want)
            ensure(d.max() <= 1e-6 * top, f"{what} of a fibre is {got[idx][d.argmax()]:.9g}, expected {want[d.argmax()]:.9g}")
    return Info(nontrivial=n > 4, tags=(typ, f"{len(set(expect))} materials", c["via"], "mapped" if clean else "named"))


def check_any(c):
    return check(c)


def check_again(c):
    """The same section exported in all formats, twice, gives the same fibres."""
    import warnings

    from sectionproperties.post.fibre import to_fibre_section

    _, a = sut.api()
    g, _ = build(c)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = a.Section(geometry=g)
        one = {t: to_fibre_section(s, analysis_type=t, main_section_tag=7) for t in ("2D", "3D", "3DOS")}
        for t in ("3DOS", "2D", "3D"):
            ensure(to_fibre_section(s, analysis_type=t, main_section_tag=7) == one[t], f"the {t} export of a section differs the second time")
            ensure(to_fibre_section(g, analysis_type=t, main_section_tag=7) == one[t], f"the {t} export of the geometry differs from that of its section")
        default = to_fibre_section(s, main_section_tag=7)
        ensure(default == one["3DOS"], "the default format is not 3DOS")
        ensure(to_fibre_section(s) == to_fibre_section(s, analysis_type="3DOS", main_section_tag=1), "the default section tag is not 1")
    cols = {}
    for t, text in one.items():
        rows = [l.split() for l in text.split("\n") if l.startswith(f"section Cell{t} ")]
        k = 4 if t != "3DOS" else 7
        cols[t] = [(r[2], r[3], r[k], r[k + 1]) for r in rows]
    ensure(cols["2D"] == cols["3D"] == cols["3DOS"], "the formats export different fibres")
    return Info(nontrivial=len(cols["2D"]) > 4)


@st.composite
def many_case(draw):
    return dict(draw(case_()), base=draw(sut.many(100, 1200)))

FAMILIES = [
    Family("connected", lambda: case_(True), check, 320, 8000, rule="more than four fibres"),
    Family("apart", lambda: case_(False), check, 100, 2500, rule="more than four fibres"),
    Family("formats", lambda: case_(True), check_again, 60, 1200, rule="more than four fibres"),
    Family("many", many_case, check, 30, 500, rule="up to 36 connected regions of up to 12 materials"),
]
