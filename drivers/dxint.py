"""Domain integrals on channel meshes.  args: quad decomposition"""
from dlib import *
from mpi4py import MPI
from shenfun import FunctionSpace, TensorProductSpace, Array
comm = MPI.COMM_WORLD
quad, dec = ARGS[:2]
size = comm.Get_size()
rnd = random.Random('dx-%s-%s-%s-%d' % (SEED, quad, dec, size))
rng = np.random.RandomState(rnd.randrange(1 << 31))
from spectralDNS import config
from spectralDNS.utilities import dx
quiet()
scen = []
sizes = rnd.sample(range(8, 20), 4 if not THOROUGH else 8)
if not any(n % 2 for n in sizes):
    sizes[0] += 1
if all(n % 2 for n in sizes):
    sizes[1] += 1
for n in sizes:
    for axis in (0, 1, 2):
        ev = []

        def go():
            N = [rnd.choice([8, 10, 9 if size == 1 else 8]) for _ in range(3)]
            N[axis] = n
            L = [rnd.choice([1., 2 * np.pi, 3.5, .25]) for _ in range(3)]
            L[axis] = 2.
            b = [None] * 3
            per = [i for i in range(3) if i != axis]
            b[axis] = FunctionSpace(n, 'C', quad=quad, **rnd.choice([{}, {'bc': (0, 0)}]))
            b[per[0]] = FunctionSpace(N[per[0]], 'F', domain=(0, L[per[0]]), dtype='D')
            b[per[1]] = FunctionSpace(N[per[1]], 'F', domain=(0, L[per[1]]), dtype='d')
            T = TensorProductSpace(comm, b, axes=(axis,) + tuple(per), slab=(dec == 'slab'))
            config.params.N = N
            config.params.L = L
            X = T.mesh() if size == 1 else None
            for kind in ('values', 'polynomial', 'values'):
                if kind == 'values':
                    g = np.round(rng.randn(*N) * 64) / 64.
                else:       # of the highest degree the mesh resolves
                    j = np.arange(n)
                    x = np.cos((2 * j + 1) * np.pi / (2 * n)) if quad == 'GC' else np.cos(j * np.pi / (n - 1))
                    s = [1] * 3
                    s[axis] = n
                    y = np.polynomial.chebyshev.chebval(x, rng.randint(-4, 5, n) + 1.).reshape(s)
                    g = y + 0 * np.ones(N)
                u = Array(T)
                u[:] = g[tuple(T.local_slice(False))]
                keep = np.array(u)
                r = dx(u, T, axis=axis) if axis else dx(u, T)
                vals = comm.gather(float(r), root=0)
                same = comm.allreduce(int(np.array_equal(keep, u))) == size
                if comm.Get_rank() == 0:
                    ev.append({'op': 'integral', 'n': n, 'quad': quad, 'cell': [hx(L[i] / N[i]) for i in per], 'untouched': bool(same),
                               'u': [rl(a) for a in np.moveaxis(g, axis, 0)], 'values': [hx(v) for v in vals]})
        attempt(ev, go, 'integral')
        scen.append({'name': 'integral %s n=%d axis=%d np=%d %s' % (quad, n, axis, size, dec), 'key': 'integral-%s-n%d-axis%d' % (quad, n, axis), 'cfg': {'tol': hx(1e-13)}, 'events': ev})
save(scen, comm.Get_rank())
