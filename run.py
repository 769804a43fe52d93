#!/usr/bin/env python3
"""Entry point of every registered check.

  run.py PNN                    run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py PNN --replay FILE      re-run one recorded case (no Hypothesis involved)
  run.py PNN --only SUB[,SUB]   only some sub-checks (development)
  run.py --selftest             verify that the tool chain is usable (setup_cmd)

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself could not run.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg',
    'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'NUMEXPR_NUM_THREADS': '1', 'NUMEXPR_MAX_THREADS': '1',
    'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
    'OMPI_MCA_btl': 'self', 'OMPI_MCA_plm': 'isolated', 'LANG': 'C.UTF-8',
}

if os.environ.get('_VERIF_CHILD') != '1':
    import shutil
    import subprocess
    import tempfile
    env = dict(os.environ)
    env.update(ENV)
    for k in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONHOME'):
        env.pop(k, None)
    scratch = tempfile.mkdtemp(prefix='verif_')
    env['_VERIF_CHILD'] = '1'
    env['_VERIF_SCRATCH'] = scratch
    env['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    env['HOME'] = scratch
    env['TMPDIR'] = scratch
    os.mkdir(os.path.join(scratch, 'mpl'))
    try:
        rc = subprocess.call([PY, os.path.abspath(__file__)] + sys.argv[1:],
                             env=env, cwd=HERE)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)

sys.path.insert(0, HERE)
from vlib import core          # noqa: E402

sys.exit(core.main(sys.argv[1:]))
