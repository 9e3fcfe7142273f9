"""Makes hypothesis importable next to the repository's own environment.

/opt/venv (which holds the repository's dependencies) has no hypothesis, so the
wheels of the offline wheelhouse are unpacked into this run's scratch directory.
"""

from __future__ import annotations

import glob
import os
import sys
import zipfile

WHEELS = "/opt/veriftools/wheels"
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def boot() -> str:
    work = os.environ.get("VERIF_WORK")
    if not work:
        import tempfile

        work = tempfile.mkdtemp(prefix="verif_check.")
        os.environ["VERIF_WORK"] = work
    try:
        import hypothesis  # noqa: F401

        return work
    except ImportError:
        pass
    dest = os.path.join(work, "hyp_site")
    pats = ["hypothesis-*cp312-cp312*.whl", "sortedcontainers-*.whl"]
    found = [sorted(glob.glob(os.path.join(WHEELS, p))) for p in pats]
    if all(found):
        if not os.path.isdir(dest):
            for f in found:
                with zipfile.ZipFile(f[-1]) as z:
                    z.extractall(dest)
        sys.path.append(dest)
    elif os.path.isdir(PYVENV):
        os.makedirs(dest, exist_ok=True)
        for n in ("hypothesis", "sortedcontainers", "_hypothesis_globals.py"):
            src = os.path.join(PYVENV, n)
            if os.path.exists(src) and not os.path.exists(os.path.join(dest, n)):
                os.symlink(src, os.path.join(dest, n))
        sys.path.append(dest)
    import hypothesis  # noqa: F401

    return work
