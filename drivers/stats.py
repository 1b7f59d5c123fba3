"""Histories of the channel statistics (generated by TLC from StatsModel) on real arrays and files, on any number of
processes.   args: scripts.json demo solver decomposition"""
from dlib import *
from mpi4py import MPI
import demos
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
scripts = json.load(open(ARGS[0]))
demo, solvername, dec = ARGS[1:4]
rnd = random.Random('stats-%s-%s-%s-%d' % (SEED, demo, dec, size))
rng = np.random.RandomState(rnd.randrange(1 << 30) + MPI.COMM_WORLD.Get_rank())
from spectralDNS import config, get_solver
import h5py
mod = demos.load(demo)
quiet()
heat = demo == 'RayleighBenard'
N = rnd.choice([[16, 4, 8], [16, 8, 4], [14, 6, 5], [18, 5, 6]] if size == 1 else [[16, 4, 8], [16, 8, 8], [14, 8, 6], [18, 4, 8]])
M = [int(np.log2(n)) for n in N]
if [2 ** m for m in M] != N:
    config.channel.add_argument('--N', default=N, nargs=3)
config.update({'nu': 1 / 64., 'kappa': 1 / 32., 'M': M, 'L': [2, 2 * np.pi, np.pi], 'dt': 1 / 64., 'decomposition': dec}, 'channel')
solver = get_solver(mesh='channel', parse_args=[solvername])
c = solver.get_context()
FST = c.FST
sl = tuple(FST.local_slice(False))
scen = []


def whole(fields):
    """The fields of the whole mesh on the first process, by wall-normal point"""
    parts = comm.gather([(sl, np.array(a)) for a in fields], root=0)
    if rank:
        return None
    g = [np.full(N, np.nan) for _ in fields]
    for p in parts:
        for a, (s, v) in zip(g, p):
            a[s] = v
    return g


def stored(fname):
    comm.Barrier()
    out = None
    if rank == 0:
        with h5py.File(fname + '.h5', 'r') as f:
            rows = [f['Average/' + k][:] for k in ('U', 'V', 'W', 'phi' if heat else 'P')]
            rows += [f['Reynolds Stress/' + k][:] for k in ('UU', 'VV', 'WW', 'UV', 'UW', 'VW') + (('pp',) if heat else ())]
            out = {'n': int(f.attrs['num_samples']), 'rows': [rl(r) for r in rows]}
    comm.Barrier()
    return out


def one(ev, script, k):
    fname = comm.bcast(os.path.join(os.getcwd(), 'stats%d' % k), root=0)
    st = mod.Stats(c.U, comm, filename=fname)
    for op in script:
        if op == 'reset':
            st.reset_stats()
        elif op == 'fresh':
            st = mod.Stats(c.U, comm, filename=fname)
        elif op == 'reopen':
            st = mod.Stats(c.U, comm, fromstats=fname)
        if not op.startswith('sample'):
            if rank == 0:
                ev.append({'op': op})
            continue
        c.U[:] = rng.randint(-32, 33, c.U.shape) / 8.
        extra = None
        if heat or op == 'sample4':
            extra = c.phi if heat else np.zeros(FST.local_shape(False) if hasattr(FST, 'local_shape') else c.U.shape[1:])
            extra[:] = rng.randint(-32, 33, extra.shape) / 8.
        keep = [np.array(c.U)] + ([np.array(extra)] if extra is not None else [])
        if extra is None:
            st(c.U)
        else:
            st(c.U, extra)
        same = np.array_equal(keep[0], c.U) and (extra is None or np.array_equal(keep[1], extra))
        same = comm.allreduce(int(same)) == size
        f = whole(list(keep[0]) + keep[1:])
        s = stored(fname)
        given = []
        if size == 1:
            r = st.get_stats(tofile=False)
            flat = lambda a: [a] if np.ndim(a) == 1 else list(a)
            given = [rl(x) for a in r for x in flat(np.asarray(a))]
        if rank == 0:
            ev.append({'op': 'sample', 'nx': N[0], 'plane': N[1] * N[2], 'f': [[rl(p) for p in a] for a in f], 'stored': s, 'given': given,
                       'untouched': bool(same)})


for k, script in enumerate(scripts):
    if not THOROUGH and rnd.random() > (.25 if size == 1 else .08):
        continue
    ev = []
    ok = attempt(ev, lambda: one(ev, script, k), 'statistics')
    scen.append({'name': 'statistics %s np=%d %s %s' % (demo, size, dec, '-'.join(script)), 'key': 'statistics-%s-%s-np%d' % (demo, dec, size),
                 'cfg': {'kind': 'heat' if heat else 'flow', 'tol': hx(1e-12)}, 'events': ev})
    if not comm.allreduce(int(ok), op=MPI.MIN):
        break
save(scen, rank)
