#!/bin/bash
# Nothing is built: the checks import the code from /repo's working tree. This only makes
# sure the interpreter and the libraries the checks use are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -c '
import networkx, numpy, pandas
import mc.core, mc.nets, mc.evid, mc.world, mc.graphs, mc.rng, mc.dsep, mc.gauss, mc.rt
print("ready")'
