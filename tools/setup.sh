#!/bin/bash
# Nothing is compiled: the monitors import jax_galsim from /repo's working tree. Check that the imports work.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH="$PWD:/repo" /opt/venv/bin/python -c "import jax, galsim, numpy, scipy, jax_galsim, jgmon.mon; print('ok', jax_galsim.__file__)"
