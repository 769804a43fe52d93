"""P23: parameter grid search equals exhaustive serial search."""
import json
import os
import subprocess
import tempfile
import shutil
import numpy as np
from vlib.core import Check, st, seeds, SCRATCH, HERE, REPO
from vlib.gridfn import TableFn, grids, table
from sporco import util

CHECK = Check('P23', rule='more than one grid point and the table is not constant',
              assumptions=['tables with at least one non-NaN value per component',
                           'the distributed search runs under mpirun (Open MPI) on sub-communicators of 1 to 7 ranks '
                           'on this machine; if mpirun cannot start any process the case is skipped',
                           'which of several tied optima is returned is not constrained'])

prob = st.fixed_dictionaries({
    'lens': st.lists(st.integers(1, 4), min_size=1, max_size=4), 'seed': seeds(),
    'nv': st.sampled_from([0, 0, 1, 2, 3]), 'vals': st.sampled_from(['normal', 'ties', 'const', 'inf', 'nan', 'big']),
    'shuffle': st.booleans(), 'fmin': st.sampled_from([None, True, False]),
    'ret': st.sampled_from(['tuple', 'list', 'array', 'int', 'float'])})


def verify(t, p, sprm, sfvl, fvmx, sidx, what):
    g, tab = grids(p), table(p)
    sprm, sfvl, fvmx = np.asarray(sprm, dtype=float), np.asarray(sfvl, dtype=float), np.asarray(fvmx, dtype=float)
    mx = p['fmin'] is False
    best = np.nanmax if mx else np.nanmin
    t.same(fvmx, tab, what + ': function values on the grid')
    nd = len(g)
    if p['nv']:
        t.check(sprm.shape == (nd, p['nv']), '%s: optimal parameters have shape %s', what, sprm.shape)
        t.check(sfvl.shape == (p['nv'],), '%s: optimal values have shape %s', what, sfvl.shape)
        for c in range(p['nv']):
            b = best(tab[..., c])
            t.check(sfvl[c] == b, '%s: component %d value %r, optimum %r', what, c, sfvl[c], b)
            i = tuple(int(np.asarray(sidx[k])[c]) for k in range(nd))
            t.check(tab[i + (c,)] == b, '%s: component %d index %s is not an optimum', what, c, i)
            for k in range(nd):
                t.check(sprm[k, c] == g[k][i[k]], '%s: component %d parameter %d does not match its index', what, c, k)
    else:
        b = best(tab)
        t.check(sprm.shape == (nd,), '%s: optimal parameters have shape %s', what, sprm.shape)
        t.check(sfvl.shape == () and sfvl == b, '%s: value %r, optimum %r', what, sfvl, b)
        i = tuple(int(sidx[k]) for k in range(nd))
        t.check(len(sidx) == nd, '%s: %d indices', what, len(sidx))
        t.check(tab[i] == b, '%s: index %s is not an optimum', what, i)
        for k in range(nd):
            t.check(sprm[k] == g[k][i[k]], '%s: parameter %d does not match its index', what, k)


def nontriv(p):
    return int(np.prod(p['lens'])) > 1 and p['vals'] != 'const'


@CHECK.sub(st.fixed_dictionaries({'p': prob, 'nproc': st.sampled_from([None, 1, 2, 3, 5])}), quick=480, thorough=6000,
           shards=6, budget=25)
def pool(case, t):
    p = case['p']
    kw = {}
    if p['fmin'] is not None:
        kw['fmin'] = p['fmin']
    if case['nproc'] is not None:
        kw['nproc'] = case['nproc']
    r = util.grid_search(TableFn(p), grids(p), **kw)
    t.check(len(r) == 4, '%d results', len(r))
    verify(t, p, *(tuple(r) + ('nproc=%s' % case['nproc'],)))
    t.nontrivial(nontriv(p))
    t.label('nproc_%s' % case['nproc'])


NRANK = 7


@CHECK.sub(st.fixed_dictionaries({'probs': st.lists(st.tuples(prob, st.integers(1, NRANK)), min_size=4, max_size=20)}),
           quick=30, thorough=300, shards=2, budget=25)
def mpi(case, t):
    probs = [dict(p, ranks=r) for p, r in case['probs']]
    d = tempfile.mkdtemp(prefix='mpi_', dir=SCRATCH)
    try:
        with open(os.path.join(d, 'in.json'), 'w') as f:
            json.dump(probs, f)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith('OMPI_') or k.startswith('PMIX_'):
                env.pop(k)
        env.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
                   OMPI_MCA_plm='isolated', OMPI_MCA_btl_vader_single_copy_mechanism='none',
                   OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none',
                   OMPI_MCA_mpi_yield_when_idle='1')
        try:
            pr = subprocess.run(['mpirun', '--oversubscribe', '-n', str(NRANK), '/opt/venv/bin/python',
                                 os.path.join(HERE, 'vlib', 'mpiworker.py'), REPO, os.path.join(d, 'in.json'), d],
                                env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                timeout=100)
            msg = pr.stdout.decode('utf8', 'replace')[-400:]
        except subprocess.TimeoutExpired:
            msg = 'no result within 100 s'
        except OSError:
            t.skip('mpirun is not available')
        started = [k for k in range(NRANK) if os.path.exists(os.path.join(d, 'started.%d' % k))]
        if len(started) < NRANK:
            t.skip('mpirun could not start processes')
        outs = []
        for k in range(NRANK):
            f = os.path.join(d, 'out.%d.json' % k)
            t.check(os.path.exists(f), 'rank %d did not finish: %s', k, msg)
            with open(f) as fh:
                outs.append(json.load(fh))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for i, p in enumerate(probs):
        calls = 0
        for k in range(p['ranks']):
            o = outs[k][i]
            verify(t, p, o['sprm'], o['sfvl'], o['fvmx'], o['sidx'], 'rank %d of %d' % (k, p['ranks']))
            calls += o['calls']
        t.check(calls >= int(np.prod(p['lens'])), '%d evaluations for %d grid points', calls, int(np.prod(p['lens'])))
        t.label('idle_ranks', p['ranks'] > int(np.prod(p['lens'])))
        t.label('vector', p['nv'] > 0)
    t.label('mpi_problems_%d' % len(probs))
    t.nontrivial(any(nontriv(p) and p['ranks'] > 1 for p in probs))
