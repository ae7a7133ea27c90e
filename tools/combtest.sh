#!/bin/bash
# combtest.sh IDs... : apply several planted bugs together in a scratch copy and run the stable tests there (developer tool)
rm -rf /tmp/comb; cp -a /repo /tmp/comb; cd /tmp/comb; git checkout -q -- .
for i in "$@"; do git apply ${SEEDED:-/verif/seeded}/$i/patch.diff || echo NOAPPLY $i; done
export JAX_PLATFORMS=cpu PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH=/tmp/comb:/opt/vp/pytest_plugins
/opt/venv/bin/python -c "import jax_galsim; print(jax_galsim.__file__)"
/opt/venv/bin/python -m pytest -q -r fE -p no:cacheprovider -p vp_allowed_failures --randomly-seed=42 --randomly-dont-reorganize --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/comb.f64.xml -n 8 tests/jax > /tmp/comb.log 2>&1
/opt/venv/bin/python -m pytest -q -r fE -p no:cacheprovider -p vp_allowed_failures --randomly-seed=42 --randomly-dont-reorganize --timeout=300 -o junit_family=xunit2 --junitxml=/tmp/comb.f32.xml --test-in-float32 -m test_in_float32 --junit-prefix=float32 tests/jax >> /tmp/comb.log 2>&1
/opt/venv/bin/python /opt/vp/results.py /tmp/comb.json "junit:/tmp/comb.*.xml"
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/comb.json')); 
m=sorted(b-set(r['passed'])); print('missing from stable:',len(m)); print('\n'.join(m[:40]))
P
rm -rf /tmp/comb
