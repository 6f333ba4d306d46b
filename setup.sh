#!/bin/bash
# no build products: the checks import /repo's working tree directly. Sanity-check that this works.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
import fortuna, jax, numpy, vf.core
assert list(fortuna.__path__)[0] == '/repo/fortuna', fortuna.__path__
print('ok')"
