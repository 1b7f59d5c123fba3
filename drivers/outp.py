"""Histories of runs over the same output files (generated by TLC from OutputModel), with the real output
files read back after every hook.  args: scripts.json solver"""
from dlib import *
import hashlib, h5py
scripts, solvername = json.load(open(ARGS[0])), ARGS[1]
DECO = ARGS[2] if len(ARGS) > 2 else 'slab'
from mpi4py import MPI
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
rng = random.Random('outp-%s-%s-%s' % (SEED, solvername, size))
CH = solvername in ('KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB')
import chan
from chan import gather_at, put
from spectralDNS import config, get_solver, solve
quiet()
dim = 2 if solvername in ('NS2D', 'Bq2D') else 3
mesh = 'channel' if CH else 'doublyperiodic' if dim == 2 else 'triplyperiodic'
P = config.params
if not CH:
    config.update({'verbose': False}, mesh)
    getattr(config, mesh).add_argument('--N', default=[4] * dim, nargs=dim)
scen = []
ND = {'NS': 3, 'VV': 3, 'MHD': 6, 'NS2D': 2, 'Bq2D': 3}


def dig(a):
    a = np.asarray(a)
    if a.dtype.names:
        a = a['r'] + 1j * a['i']
    return hashlib.md5(np.ascontiguousarray(a + 0.0).tobytes()).hexdigest()[:12]


def comps(c):
    """global arrays of the components of the solution, on rank 0"""
    if CH:
        out = [gather_at(np.asarray(c.U_hat[j]), c.FST.local_slice(True), comm) for j in range(3)]
        if solvername in chan.RB:
            out.append(gather_at(np.asarray(c.phi_hat), c.FST.local_slice(True), comm))
        if solvername in chan.COUPLED:
            out.append(gather_at(np.asarray(c.UP_hat[1]), c.FCP.local_slice(True), comm))
        return out
    return [gather_at(np.asarray(c.u[j]), c.T.local_slice(True), comm) for j in range(ND[solvername])]


def stack(c):
    """digests of what a checkpoint of this solution holds, by dataset name"""
    f = comps(c)
    if rank:
        return None
    name = {'NS': 'U', 'NS2D': 'U', 'VV': 'curl', 'MHD': 'UB', 'Bq2D': 'Ur'}.get(solvername, 'U')
    if solvername in chan.COUPLED:
        name = 'UP'
    d = {name: f[:3] + f[4:] if solvername in chan.RB else f}
    if solvername in chan.RB:
        d['phi'] = [f[3]]
    return {k: [dig(x) for x in v] for k, v in d.items()}


def where():
    """names of the arrays of a result"""
    n = {'NS': ('U', 3), 'NS2D': ('U', 2), 'VV': ('U', 3), 'MHD': ('UB', 6), 'Bq2D': ('UR', 3)}.get(solvername, ('U', 3))
    out = [n[0] + str(j) for j in range(n[1])]
    if solvername == 'VV':
        out += ['curl%d' % j for j in range(3)]
    if solvername in chan.RB:
        out += ['phi']
    return out


def files(fn, seen):
    """everything the files hold (rank 0)"""
    if rank:
        return None
    out = {'wexists': os.path.exists(fn + '_w.h5'), 'cexists': os.path.exists(fn + '_c.h5'), 'stored': [], 'new': [], 'ck': [], 'tstep': -1, 't': hx(-1.0)}
    if out['wexists']:
        with h5py.File(fn + '_w.h5', 'r') as f:
            steps = {}
            for nme in where():
                g = '%s/%dD' % (nme, dim)
                if g in f:
                    for k in f[g]:
                        if isinstance(f[g][k], h5py.Dataset):
                            steps.setdefault(int(k), {})[nme] = np.array(f[g][k])
            for s in sorted(steps):
                v = steps[s]
                ds = [dig(v[nme]) if nme in v else 'missing' for nme in where()]
                out['stored'].append({'step': s, 'digs': ds})
                if (s, tuple(ds)) not in seen and 'missing' not in ds:
                    seen.add((s, tuple(ds)))
                    out['new'].append({'step': s, 'f': [rl(v[nme]) for nme in where()]})
    if out['cexists']:
        with h5py.File(fn + '_c.h5', 'r') as f:
            out['tstep'] = int(f.attrs['tstep']) if 'tstep' in f.attrs else -1
            out['t'] = hx(f.attrs['t']) if 't' in f.attrs else hx(-1.0)

            def visit(n, o):
                if isinstance(o, h5py.Dataset) and n.split('/')[1] == '%dD' % dim and n.split('/')[2] in ('0', '1'):
                    a = np.array(o)
                    parts = [a] if a.ndim == dim else list(a)
                    out['ck'].append({'name': n.split('/')[0], 'lag': int(n.split('/')[2]), 'digs': [dig(x) for x in parts]})
            f.visititems(visit)
        out['ck'].sort(key=lambda e: (e['lag'], e['name']))
    return out


def make(N, L):
    if CH:
        s = chan.setup(solvername, N, L, nu=0.0625, dt=0.01, quad=rng.choice(['GC', 'GL']), global_args=['--decomposition', DECO])
    else:
        conv = 'Divergence' if solvername == 'MHD' else 'Vortex'
        a = ['--N'] + [str(n) for n in N] + ['--L'] + [str(x) for x in L] + ['--convection', conv, '--integrator', rng.choice(['RK4', 'ForwardEuler', 'AB2'])]
        s = get_solver(mesh=mesh, parse_args=a + ['--decomposition', DECO, solvername])
    c = s.get_context()
    return s, c


def start(c, N):
    if CH:
        w = chan.axes(solvername)[0]
        drop = [2, 2, 2]
        if solvername not in chan.COUPLED:
            drop[0 if solvername != 'KMMr' else 2] = 4
        put(c.U_hat, [chan.rand_chan(N, rng, d, 0.05, wall=w) for d in drop])
        if solvername in chan.RB:
            put(c.phi_hat, chan.rand_temp(N, rng, 0.05))
            if 'phi_hat0' in c:
                c.phi_hat0[:] = c.phi_hat
        if 'UP_hat0' in c:
            c.UP_hat0[:] = c.UP_hat
        elif 'U_hat0' in c:
            c.U_hat0[:] = c.U_hat
    else:
        L = [2 * np.pi] * dim
        f = [rand_field(N, rng, 10) for _ in range(ND[solvername])]
        d = dim if solvername != 'Bq2D' else 2
        f[:d] = solenoidal(f[:d], N, L)
        if solvername == 'MHD':
            f[3:] = solenoidal(f[3:], N, L)
        if solvername == 'VV':
            for g in f:
                g[(0,) * dim] = 0
        s = c.T.local_slice(True)
        for j in range(len(f)):
            c.u[j] = f[j][tuple(s)]


def one(k, hist):
    ev = []
    if CH:
        N = (14, 4, 6) if size == 1 else (16, 8, 8)
        N = (N[1], N[2], N[0]) if solvername == 'KMMr' else N
        L = (2, '2*pi', '2*pi') if solvername != 'KMMr' else ('2*pi', '2*pi', 2)
    else:
        N = ((4, 4, 6) if size == 1 else (8, 8, 8)) if dim == 3 else ((6, 8) if size == 1 else (8, 8))
        L = (2 * np.pi,) * dim
    n3 = list(N) if dim == 3 else [N[0], 1, N[1]]
    scen.append({'name': 'output %s np=%d %s' % (solvername, size, json.dumps(hist)), 'key': 'output:%s:np%d' % (solvername, size), 'events': ev,
                 'cfg': {'solver': solvername, 'form': 'Vortex', 'mask': True, 'n': n3, 'ks': ['1', '1', '1'], 'dealias': '3/2-rule', 'tol': '1e-9',
                         'fourier': not CH}})
    fn = os.path.join(os.getcwd(), rng.choice(['out', 'a_c', 'b.w', solvername]) + str(k))
    seen = set()

    def go():
        t = 0.0
        tstep = 0
        for r in hist:
            s, c = make(N, L)
            start(c, N)
            c.hdf5file.filename = fn
            P.filemode, P.write_result, P.checkpoint = r['mode'], r['w'], r['c']
            P.tstep = r['start']
            P.t = 0.5 * P.tstep
            P.dt = 0.01
            P.T = P.t + P.dt * (r['steps'] + 0.5) if r['steps'] else P.t
            ev.append({'op': 'run', 'mode': r['mode'], 'w': r['w'], 'c': r['c']})
            orig = c.hdf5file.update
            before = [stack(c)]

            def output(params, **kw):
                now = stack(c)
                u = comps(c)
                n, tt = int(params.tstep), hx(params.t)
                orig(params, **kw)
                comm.Barrier()
                f = files(fn, seen)
                after = stack(c)
                if rank == 0:
                    e = {'op': 'hook', 'step': n, 't': tt, 'files': f, 'now': now, 'before': before[0], 'same': after == now}
                    if not CH:
                        e['u'] = [cx(x) for x in u] if f['new'] else []
                    ev.append(e)
                before[0] = now
                comm.Barrier()
            c.hdf5file.update = output
            solve(s, c)
            comm.Barrier()
            f = files(fn, seen)
            writable = True
            if rank == 0:
                for x in ('_w.h5', '_c.h5'):
                    if os.path.exists(fn + x):
                        try:
                            with h5py.File(fn + x, 'r+'):
                                pass
                        except Exception:
                            writable = False
                ev.append({'op': 'over', 'files': f, 'writable': writable,
                           'stray': sorted(x for x in os.listdir('.') if x.endswith('.h5') and not x[:-5] in [os.path.basename(q['fn'])[:] for q in allfn])})
            comm.Barrier()
    allfn.append({'fn': fn})
    attempt(ev, go, 'output')


allfn = []
for k, h in enumerate(scripts):
    one(k, h)
save(scen, rank)
