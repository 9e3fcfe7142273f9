from __future__ import annotations

import os
import sys

from vkit.boot import boot

boot()

from vkit.runner import SRC, main  # noqa: E402

import sectionproperties  # noqa: E402

if not os.path.realpath(sectionproperties.__path__[0]).startswith(os.path.realpath(SRC)):
    print(f"wrong sectionproperties: {sectionproperties.__path__}", file=sys.stderr)
    sys.exit(3)
sys.exit(main(sys.argv[1:]))
