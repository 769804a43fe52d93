"""Runs under mpirun: evaluates grid-search problems from a JSON file on
sub-communicators of the requested sizes and records each rank's answer."""
import json
import os
import sys

repo, inp, outdir = sys.argv[1:4]
sys.path.insert(0, repo)
import numpy as np                                   # noqa: E402
from mpi4py import MPI                               # noqa: E402

world = MPI.COMM_WORLD
open(os.path.join(outdir, 'started.%d' % world.rank), 'w').close()
from sporco import mpiutil                           # noqa: E402

np.seterr(all='ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.gridfn import TableFn, grids               # noqa: E402

probs = json.load(open(inp))
res = []
for p in probs:
    n = min(p['ranks'], world.size)
    comm = world.Split(0 if world.rank < n else 1, world.rank)
    out = None
    if world.rank < n:
        fn = TableFn(p)
        kw = {} if p['fmin'] is None else {'fmin': p['fmin']}
        r = mpiutil.grid_search(fn, grids(p), comm=comm, **kw)
        out = dict(sprm=np.asarray(r[0]).tolist(), sfvl=np.asarray(r[1]).tolist(),
                   fvmx=np.asarray(r[2]).tolist(), sidx=[np.asarray(x).tolist() for x in r[3]],
                   calls=fn.calls)
    res.append(out)
    comm.Free()
with open(os.path.join(outdir, 'out.%d.json' % world.rank), 'w') as f:
    json.dump(res, f)
