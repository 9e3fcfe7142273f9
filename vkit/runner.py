"""Drives the families of one property with hypothesis over several processes."""

from __future__ import annotations

import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from contextlib import redirect_stdout

from vkit.core import Family, Info, Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "sectionproperties")

# seconds after which no further cases are started (a slow machine explores less;
# it never turns into a violation)
BUDGET = {"quick": 420.0, "thorough": 780.0}
SHRINK_BUDGET = 60.0
# a single case normally takes well under two seconds
HANG_LIMIT = 150.0
# what the oracles raise when they are handed a result of another type, length or key
UNUSABLE = (TypeError, AttributeError, KeyError, IndexError, ValueError)


def from_repo(exc: BaseException) -> bool:
    """True if the exception passed through a frame of the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SRC):
            return True
        tb = tb.tb_next
    return False


_count = [0]


def clear_caches() -> None:
    """Empties the unbounded caches of the analysis module, which would fill the memory."""
    fea = sys.modules.get("sectionproperties.analysis.fea")
    for v in list(vars(fea).values()) if fea is not None else []:
        info, clear = getattr(v, "cache_info", None), getattr(v, "cache_clear", None)
        if callable(info) and callable(clear):
            try:
                if info().currsize > 50000:
                    clear()
            except Exception:
                pass


def run_case(fam: Family, case) -> Info:
    """Runs one case; raises Violation, or any other exception for a harness error."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with redirect_stdout(io.StringIO()):
                info = fam.check(case)
        except Violation:
            raise
        except Exception as e:
            if from_repo(e):
                last = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation(
                    f"unexpected {type(e).__name__} on a valid case: {e} "
                    f"(raised at {os.path.basename(last.filename)}:{last.lineno})"
                ) from e
            if isinstance(e, UNUSABLE):
                # the oracle works on every result of the documented kind, so the result was not
                last = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation(
                    f"the result is not of the documented kind: {type(e).__name__}: {e} "
                    f"(found at {os.path.basename(last.filename)}:{last.lineno})"
                ) from e
            raise
        finally:
            _count[0] += 1
            if _count[0] % 20 == 0:
                clear_caches()
            plt = sys.modules.get("matplotlib.pyplot")
            if plt is not None:
                plt.close("all")
    return info if info is not None else Info()


def dump(case) -> str:
    return json.dumps(case, sort_keys=True, default=str)


def worker(prop: str, mod, wid: int, nw: int, tier: str, seed: int, t0: float, statef, conn):
    """Explores every family with this worker's share of the cases."""
    out = {"fam": {}, "violation": None, "error": None}
    cur = open(statef, "w")

    def note(fam_name, case):
        cur.seek(0)
        cur.truncate()
        cur.write(json.dumps({"family": fam_name, "case": case}, default=str))
        cur.flush()

    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        for fam in mod.FAMILIES:
            st = {"evals": 0, "nontriv": set(), "tags": {}, "samples": [],
                  "discard": 0, "skipped": 0, "distinct": set()}
            out["fam"][fam.name] = st
            total = fam.quick if tier == "quick" else fam.thorough
            share = total // nw + (1 if wid < total % nw else 0)
            fails: list = []

            def one(case, fam=fam, st=st, fails=fails):
                note(fam.name, case)
                try:
                    info = run_case(fam, case)
                except Violation as v:
                    if not fails:
                        out["first_fail_t"] = time.monotonic()
                    fails.append((case, str(v)))
                    raise
                st["evals"] += 1
                if info.discard:
                    st["discard"] += 1
                    return
                h = hashlib.sha1(dump(case).encode()).hexdigest()[:16]
                st["distinct"].add(h)
                for t in info.tags:
                    st["tags"][t] = st["tags"].get(t, 0) + 1
                if info.nontrivial:
                    if h not in st["nontriv"] and len(st["samples"]) < 2:
                        st["samples"].append(case)
                    st["nontriv"].add(h)

            try:
                for k, case in enumerate(fam.fixed):
                    if k % nw == wid:
                        one(case)
                if share > 0 and time.monotonic() - t0 < BUDGET[tier]:
                    sd = int.from_bytes(
                        hashlib.sha256(f"{seed}/{prop}/{fam.name}/{wid}".encode()).digest()[:8], "big"
                    )

                    @hypothesis.seed(sd)
                    @settings(
                        max_examples=share, deadline=None, database=None,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck),
                        report_multiple_bugs=False, print_blob=False,
                    )
                    @given(fam.strategy())
                    def prop_test(case):
                        if time.monotonic() - t0 > BUDGET[tier] and not fails:
                            st["skipped"] += 1
                            return
                        if fails and time.monotonic() - out["first_fail_t"] > SHRINK_BUDGET:
                            return
                        one(case)

                    with redirect_stdout(io.StringIO()):
                        prop_test()
            except BaseException as e:
                if fails:
                    case, msg = fails[-1]
                    small = min(fails, key=lambda f: len(dump(f[0])))
                    if len(dump(small[0])) < len(dump(case)):
                        case, msg = small
                    out["violation"] = {"family": fam.name, "case": case, "message": msg}
                    break
                raise e
    except BaseException as e:
        out["error"] = "".join(traceback.format_exception(e))[-6000:]
    for st in out["fam"].values():
        st["nontriv"] = sorted(st["nontriv"])
        st["distinct"] = sorted(st["distinct"])
    conn.send(out)
    conn.close()
    cur.close()
    os._exit(0)


def load(prop: str):
    return importlib.import_module(f"checks.{prop.lower()}")


def warm() -> None:
    """Compiles the numba kernels once, before the workers are forked."""
    import logging

    logging.disable(logging.INFO)
    from sectionproperties.analysis import Section
    from sectionproperties.pre.library import rectangular_section

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = rectangular_section(d=2, b=1)
        g.create_mesh([1.0])
        s = Section(g)
        s.calculate_geometric_properties()
        s.calculate_warping_properties()
        s.calculate_stress(n=1, vx=1, vy=1, mxx=1, myy=1, mzz=1)
        s.get_stress_at_points(pts=[(0.4, 0.3)], n=1, vx=1, mzz=1)


def write_replay(prop: str, seed: int, tier: str, v: dict) -> str:
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(dump(v["case"]).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}_{v['family']}_{h}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "family": v["family"], "seed": seed, "tier": tier,
                   "message": v["message"], "case": v["case"]}, f, indent=1, default=str)
    return path


def reproduce(prop: str, family: str, case, limit: float) -> tuple[str, str]:
    """Runs one case in a fresh forked process: (ok|violation|crash|hang|error, text)."""
    mod = load(prop)
    fam = next(f for f in mod.FAMILIES if f.name == family)
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)

    def go():
        try:
            run_case(fam, case)
            b.send(("ok", ""))
        except Violation as v:
            b.send(("violation", str(v)))
        except BaseException as e:
            b.send(("error", "".join(traceback.format_exception(e))[-4000:]))
        os._exit(0)

    p = ctx.Process(target=go)
    p.start()
    b.close()
    res = ("crash", "the process died")
    if a.poll(limit):
        try:
            res = a.recv()
        except EOFError:
            p.join(5)
            res = ("crash", f"the process died with status {p.exitcode}")
    else:
        res = ("hang", f"no result after {limit:.0f} s")
        p.kill()
    p.join(5)
    return res


def known_findings(prop: str) -> list[dict]:
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def main_check(prop: str, tier: str, seed: int) -> int:
    t_start = time.monotonic()
    mod = load(prop)
    if getattr(mod, "WARM", True):
        try:
            warm()
        except Exception as e:  # the cases report it, if it concerns the property
            print(f"warming up failed: {e!r}"[:300])
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    nw = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 1)))
    nw = min(nw, getattr(mod, "MAX_WORKERS", nw))
    ctx = mp.get_context("fork")
    procs = []
    work = os.environ["VERIF_WORK"]
    for wid in range(nw):
        a, b = ctx.Pipe(False)
        statef = os.path.join(work, f"cur_{wid}.json")
        p = ctx.Process(target=worker, args=(prop, mod, wid, nw, tier, seed, t_start, statef, b))
        p.start()
        b.close()
        procs.append([p, a, statef, None])
    hard = t_start + BUDGET[tier] + 60
    pending = list(range(nw))
    violation = None
    errors: list[str] = []
    suspects: list[tuple[dict, str]] = []
    while pending:
        for i in list(pending):
            p, a, statef, _ = procs[i]
            if a.poll(0.05):
                try:
                    procs[i][3] = a.recv()
                except EOFError:
                    p.join(5)
                    suspects.append((json.load(open(statef)), f"worker died with status {p.exitcode}"))
                pending.remove(i)
                continue
            stuck = False
            try:
                stuck = time.time() - os.path.getmtime(statef) > HANG_LIMIT
            except OSError:
                pass
            if stuck and os.path.getsize(statef):
                # no new case for a long time: one call does not return
                if procs[i][3] is None:
                    suspects.append((json.load(open(statef)), "no progress"))
                p.kill()
                pending.remove(i)
            elif time.monotonic() > hard + 90:
                p.kill()
                pending.remove(i)
                errors.append(f"worker {i} overran the time limit")
        # one confirmed violation is enough; do not wait for the other workers
        found = [r[3]["violation"] for r in procs if r[3] and r[3]["violation"]]
        if found and violation is None:
            violation = min(found, key=lambda v: len(dump(v["case"])))
            for i in pending:
                procs[i][0].kill()
            pending = []
    for p, *_ in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    results = [r[3] for r in procs if r[3]]
    for r in results:
        if r["error"]:
            errors.append(r["error"])
    if violation is None:
        for st, why in suspects:
            kind, text = reproduce(prop, st["family"], st["case"], HANG_LIMIT)
            if kind in ("violation", "crash", "hang"):
                violation = {"family": st["family"], "case": st["case"], "message": f"{kind}: {text}"}
                break
            errors.append(f"worker lost ({why}) on a case that then gave {kind}: {text[:300]}")
    known_lines = []
    for k in known_findings(prop):
        kind, text = reproduce(prop, k["family"], k["case"], HANG_LIMIT)
        if kind == "violation":
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    fams, evals, distinct_nt, skipped, samples = {}, 0, 0, 0, []
    for fam in mod.FAMILIES:
        sts = [r["fam"][fam.name] for r in results if fam.name in r["fam"]]
        nt = set().union(*[set(s["nontriv"]) for s in sts]) if sts else set()
        di = set().union(*[set(s["distinct"]) for s in sts]) if sts else set()
        tags: dict = {}
        for s in sts:
            for t, n in s["tags"].items():
                tags[t] = tags.get(t, 0) + n
        e = sum(s["evals"] for s in sts)
        fams[fam.name] = {"evaluations": e, "distinct": len(di), "distinct_nontrivial": len(nt),
                          "discarded": sum(s["discard"] for s in sts),
                          "skipped_for_time": sum(s["skipped"] for s in sts),
                          "classes": dict(sorted(tags.items())), "rule": fam.rule}
        evals += e
        distinct_nt += len(nt)
        for s in sts[:2]:
            samples += [{"family": fam.name, "case": c} for c in s["samples"][:1]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct_nt,
            "rule": getattr(mod, "RULE", "") or "; ".join(f"{f.name}: {f.rule}" for f in mod.FAMILIES),
            "samples": samples[:12] or ["none"], "families": fams, "workers": nw,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t_start, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for line in known_lines:
        print(line)
    for n, d in fams.items():
        print(f"{prop} {n}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial, "
              f"{d['discarded']} discarded, {d['skipped_for_time']} skipped; {d['classes']}")
    if violation:
        path = write_replay(prop, seed, tier, violation)
        print(f"family {violation['family']}: {violation['message']}")
        print(f"case: {dump(violation['case'])[:3000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n---\n".join(errors[:2]), file=sys.stderr)
        return 2
    print(f"{prop} held on everything explored ({evals} cases, {ev['wall_s']} s)")
    return 0


def main_replay(path: str) -> int:
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    if hasattr(mod, "prepare"):
        mod.prepare(r.get("tier", "quick"))
    kind, text = reproduce(r["property"], r["family"], r["case"], HANG_LIMIT)
    print(f"{kind}: {text}")
    if kind in ("violation", "crash", "hang"):
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0 if kind == "ok" else 2


def main(argv: list[str]) -> int:
    if argv[0] == "replay":
        return main_replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return main_check(argv[0], tier, seed)
