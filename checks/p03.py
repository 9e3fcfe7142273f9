"""P03: section moduli, radii and principal results follow from the exact geometry."""

from __future__ import annotations

from hypothesis import strategies as st

from checks.areaprops import check_derived
from vkit import gen, sut
from vkit.core import Family, Info

ASSUMPTIONS = ["tolerance 1e-6 relative plus the rounding carried by far-away sections"]


def info(r, tags, rot):
    sym = "distinct axes" if r.delta > 1e-6 else "equal principal moments"
    cross = abs(r.ixy_c) > 1e-6 * r.i11
    return Info(nontrivial=r.delta > 1e-6 and cross, tags=(*tags, sym, "cross term" if cross else "no cross term"))


def check(case):
    sec, poly = sut.section_of(case)
    sec.calculate_geometric_properties()
    r = sut.ref_of(poly)
    check_derived(sec, r, False)
    return info(r, (case["shape"]["k"],), case["place"]["rot"])


def check_comp(case):
    sec, parts, _ = sut.comp_section(case)
    sec.calculate_geometric_properties()
    r = sut.comp_ref(case, parts)
    check_derived(sec, r, True)
    return info(r, (case["comp"]["parts"]["k"],), case["place"]["rot"])


def with_islands():
    return sut.comp_case(connected=False)


@st.composite
def far_case(draw):
    """Sections at thousands of times their own size from the origin (survey coordinates)."""
    c = draw(st.one_of(sut.single(), sut.comp_case()))
    big = st.one_of(st.integers(-500, 500), st.integers(-50, 50), st.just(0)).map(lambda x: 1000 * x)
    return dict(c, place=dict(c["place"], dx=draw(big), dy=draw(big)))


def check_far(case):
    comp = "comp" in case
    if comp:
        sec, parts, _ = sut.comp_section(case)
        r = sut.comp_ref(case, parts)
    else:
        sec, poly = sut.section_of(case)
        r = sut.ref_of(poly)
    sec.calculate_geometric_properties()
    check_derived(sec, r, comp, eps=2e-15)
    ratio = r.far / max(r.size, 1e-300)
    return Info(nontrivial=ratio > 100, tags=("far" if ratio > 1000 else "near" if ratio < 100 else "away",))


FAMILIES = [
    Family("single", sut.single, check, 2000, 16000,
           rule="random polygon, all orientations; non-trivial = distinct principal axes off the reference axes"),
    Family("composite", with_islands, check_comp, 1600, 12000, rule="random composite; same rule"),
    Family("far", far_case, check_far, 600, 6000,
           rule="random section or composite, translated up to thousands of times its size; non-trivial = more than 100 times"),
]
