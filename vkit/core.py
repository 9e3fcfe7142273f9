"""Vocabulary shared by the property modules and the runner."""

from __future__ import annotations

import math
from dataclasses import dataclass, field
from typing import Any, Callable


class Violation(Exception):
    """The code under test broke the property on this case."""


@dataclass
class Info:
    """What a check says about a case that held."""

    nontrivial: bool = True
    tags: tuple[str, ...] = ()
    discard: bool = False  # the case is outside the property's domain


@dataclass
class Family:
    """One generated-input search: a strategy for JSON-able cases and an oracle."""

    name: str
    strategy: Callable[[], Any]
    check: Callable[[Any], Info | None]
    quick: int
    thorough: int
    rule: str = ""
    fixed: list = field(default_factory=list)  # boundary cases that always run


def fmt(x: Any) -> str:
    try:
        return f"{float(x):.10g}"
    except Exception:
        return repr(x)


def ensure(cond: Any, msg: str) -> None:
    if not cond:
        raise Violation(msg)


def close(name: str, got: Any, want: Any, rtol: float = 1e-6, scale: float = 0.0,
          stol: float = 1e-9) -> None:
    """|got - want| <= rtol*|want| + stol*scale, else a violation."""
    try:
        g, w = float(got), float(want)
    except (TypeError, ValueError):
        raise Violation(f"{name}: got {got!r}, expected {want!r}") from None
    if math.isnan(w):
        raise AssertionError(f"oracle produced nan for {name}")
    if math.isinf(w) and g == w:
        return
    tol = rtol * abs(w) + stol * scale
    if not (abs(g - w) <= tol):
        raise Violation(
            f"{name}: got {g:.12g}, expected {w:.12g} "
            f"(difference {g - w:.3g}, tolerance {tol:.3g})"
        )


def kept(f, *args, **kw):
    """Call f and require that it left the lists it was given as they were."""
    import copy

    before = copy.deepcopy((args, kw))
    r = f(*args, **kw)
    ensure((args, kw) == before, f"{getattr(f, '__name__', f)} changed its arguments from {before} to {(args, kw)}")
    return r
