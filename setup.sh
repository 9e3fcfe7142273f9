#!/bin/bash
# Nothing is compiled: checks that the pieces the checks need are there.
set -e
cd "$(dirname "$0")"
export VERIF_WORK="$(mktemp -d /tmp/verif_setup.XXXXXX)"
trap 'rm -rf "$VERIF_WORK"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}/src:$PWD" HYPOTHESIS_NO_PLUGINS=1
export NUMBA_CACHE_DIR="$VERIF_WORK/numba" MPLCONFIGDIR="$VERIF_WORK/mpl" MPLBACKEND=agg
/opt/venv/bin/python -c "
from vkit.boot import boot; boot()
import hypothesis, sectionproperties, shapely
print('hypothesis', hypothesis.__version__, 'shapely', shapely.__version__)"
