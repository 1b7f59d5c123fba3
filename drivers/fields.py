"""Runs whose program chooses what is stored: more fields, slices, and its own way of preparing them.
args: solver decomposition"""
from dlib import *
import h5py
from mpi4py import MPI
from chan import gather_at
from spectralDNS import config, get_solver, solve
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
solvername, DECO = ARGS[:2]
rng = random.Random('fields-%s-%s-%d' % (SEED, solvername, size))
quiet()
dim = 2 if solvername == 'NS2D' else 3
mesh = 'doublyperiodic' if dim == 2 else 'triplyperiodic'
P = config.params
config.update({'verbose': False}, mesh)
getattr(config, mesh).add_argument('--N', default=[4] * dim, nargs=dim)
scen = []
A = slice(None)
for k in range(2 if not THOROUGH else 8):
    ev = []
    N = {3: rng.choice([(4, 6, 4), (6, 4, 4)]) if size == 1 else rng.choice([(8, 8, 6), (8, 6, 8)]) if size == 2 else (8, 8, 8), 2: rng.choice([(4, 6), (8, 4)]) if size == 1 else (8, 8)}[dim]
    L = [rng.choice([2, 4]) * np.pi for _ in N]

    def go():
        s = get_solver(mesh=mesh, parse_args=['--N'] + [str(n) for n in N] + ['--L'] + [repr(x) for x in L] + ['--convection', 'Vortex', '--integrator', rng.choice(['RK4', 'AB2']), '--decomposition', DECO, solvername])
        c = s.get_context()
        f = solenoidal([rand_field(N, rng, 8) for _ in range(dim)], N, L)
        if solvername == 'VV':
            for g in f:
                g[(0,) * dim] = 0
        sl = tuple(c.T.local_slice(True))
        for j in range(dim):
            c.u[j] = f[j][sl]
        fn = comm.bcast(os.path.join(os.getcwd(), 'fields%d' % k), root=0)
        c.hdf5file.filename = fn
        P.filemode, P.write_result, P.checkpoint = 'w', rng.choice([1, 2]), int(1e8)
        P.t, P.tstep, P.dt, P.nu = 0., rng.choice([0, 5]), .015625, .0625
        P.T = P.dt * 3.5
        cut = [rng.randrange(n) for n in N]
        items = [('U%d' % j, 'all', j) for j in range(dim)]
        if dim == 3:
            data = {'U': [c.U, (c.U, [A, A, cut[2]])], 'mid': [(c.U[1], [cut[0], A, A])], 'other': [(c.U[0], [A, cut[1], A])]}
            items += [('U%d' % j, (A, A, cut[2]), j) for j in range(3)] + [('mid', (cut[0], A, A), 1), ('other', (A, cut[1], A), 0)]
            data['vort'] = [c.curl]
            items += [('vort%d' % j, 'all', 3 + j) for j in range(3)]
        else:
            data = {'U': [c.U], 'vort': [c.curl], 'line': [(c.U[1], [cut[0], A])]}
            items += [('vort', 'all', 2), ('line', (cut[0], A), 1)]
        c.hdf5file.results['data'] = data
        calls = []

        def prepare(**ctx):
            calls.append(int(P.tstep))
            s.get_velocity(**ctx)
            s.get_curl(**ctx)
        c.hdf5file.update_components = prepare
        orig = c.hdf5file.update
        sols = {}

        def output(params, **kw):
            orig(params, **kw)
            sols[int(params.tstep)] = [gather_at(np.asarray(c.u[j]), c.T.local_slice(True), comm) for j in range(dim)]
        c.hdf5file.update = output
        solve(s, c)
        comm.Barrier()
        if rank:
            return
        flat = np.arange(np.prod(N)).reshape(N)
        with h5py.File(fn + '_w.h5', 'r') as h:
            names = {}

            def visit(p, o):
                if isinstance(o, h5py.Dataset) and p.split('/')[1] in ('%dD' % d for d in (1, 2, 3)) and p.rsplit('/')[-1].isdigit():
                    names[p] = np.array(o)
            h.visititems(visit)
        for n in sorted(sols):
            its = []
            for name, cutting, j in items:
                if cutting == 'all':
                    p, sel = '%s/%dD/%d' % (name, dim, n), flat
                else:
                    p = '%s/%dD/%s/%d' % (name, dim - 1, '_'.join('slice' if isinstance(x, slice) else str(x) for x in cutting), n)
                    sel = flat[cutting]
                v = names.pop(p, None)
                its.append({'name': name, 'there': v is not None, 'shape': v is not None and v.shape == sel.shape, 'j': j + 1, 'sel': [int(x) + 1 for x in sel.flat],
                            'f': rl(v) if v is not None else []})
            ev.append({'op': 'fields', 'due': n % P.write_result == 0, 'u': [cx(x) for x in sols[n]], 'items': its, 'prepared': calls.count(n)})
        ev.append({'op': 'rest', 'names': sorted(names)})
    n3 = list(N) if dim == 3 else [N[0], 1, N[1]]
    ks = [hx(2 * np.pi / x) for x in L]
    scen.append({'name': 'fields %s np=%d %s N=%s %d' % (solvername, size, DECO, N, k), 'key': 'output:fields:%s:np%d' % (solvername, size), 'events': ev,
                 'cfg': {'solver': solvername, 'form': 'Vortex', 'mask': True, 'n': n3, 'ks': ks if dim == 3 else [ks[0], '1', ks[1]], 'dealias': '3/2-rule', 'tol': '1e-9', 'fourier': True}})
    attempt(ev, go, 'output')
save(scen, rank)
