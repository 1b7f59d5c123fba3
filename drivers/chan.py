"""Sets up the channel solvers."""
from dlib import *
from spectralDNS import config, get_solver
from mpi4py import MPI
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
config.update({'verbose': False}, 'channel')
config.channel.add_argument('--N', default=[8, 4, 4], nargs=3)
config.channel.add_argument('--kappa', default=0.25, type=float)
P = config.params
RB = ('KMM_RB', 'KMMRK3_RB')
COUPLED = ('Coupled', 'CoupledRK3')


def setup(name, N, L=(2, '2*pi', '2*pi'), quad='GC', dealias='3/2-rule', mask=True, conv='Vortex', nu=0.0625, dt=0.01, kappa=0.125, extra=(), global_args=()):
    """dt, nu and kappa enter the matrices when the context is made, so they are set with the options"""
    a = list(global_args)
    a += ['--N'] + [str(n) for n in N] + ['--L'] + [str(l) for l in L]
    a += ['--dealias', dealias, '--convection', conv, '--Dquad', quad, '--Bquad', quad, '--nu', repr(nu), '--dt', repr(dt)]
    a += ['--mask_nyquist' if mask else '--no-mask_nyquist', '--kappa', repr(kappa)]
    a += list(extra) + [name]
    return get_solver(mesh='channel', parse_args=a)


def axes(name):
    """position of the wall-normal, streamwise and spanwise-like axes"""
    return (2, 0, 1) if name == 'KMMr' else (0, 1, 2)


def rand_chan(N, rng, drop, amp, nmodes=6, wall=0, mean=True, decay=0.5):
    """Random coefficients, Hermitian in the periodic directions (last periodic axis halved).  The axis
    `wall` is the wall-normal one; the last `drop` coefficients are zero."""
    n = [N[i] for i in range(3) if i != wall]
    M = N[wall]
    planes = []
    cnt = 0
    ms = [tuple(m) for m in nyquist_free_modes(n)]
    pick = rng.sample(ms, min(nmodes, len(ms)))
    f = np.zeros((M, n[0], n[1] // 2 + 1), dtype=complex)
    for k in pick:
        if k == (0, 0) and not mean:
            continue
        for j in range(M - drop):
            z = amp * decay ** min(j, 8) * complex(rng.randint(-16, 16) / 16., rng.randint(-16, 16) / 16.)
            if k == (0, 0):
                z = complex(z.real, 0)
            f[(j,) + k] = z
            if k[1] == 0 and k != (0, 0):
                f[j, -k[0], 0] = z.conjugate()
    return np.moveaxis(f, 0, wall)


def rand_temp(N, rng, amp):
    """temperature: 1 at x=-1, 0 at x=1"""
    t = rand_chan(N, rng, 2, amp)
    t[-2, 0, 0] = 1
    return t


def put(fun, comps):
    """assign global arrays to a distributed vector or scalar Function"""
    if isinstance(comps, (list, tuple)):
        for j in range(len(comps)):
            put(fun[j], comps[j])
        return
    T = fun.function_space()
    s = T.local_slice(True)
    fun[:] = 0
    full = comps[tuple(slice(0, None) if False else x for x in s)]
    fun[tuple(slice(0, m) for m in full.shape)] = full


def gather(fun):
    """global array of a distributed scalar Function or Array on rank 0"""
    T = fun.function_space()
    fwd = getattr(fun, 'forward_output', None)
    spectral = np.iscomplexobj(np.asarray(fun))
    return gather_at(np.asarray(fun), T.local_slice(spectral), comm)


def gather_at(a, s, comm):
    parts = comm.gather((tuple((x.start, x.stop) for x in s), np.array(a)))
    if comm.Get_rank() != 0:
        return None
    shape = tuple(max(p[0][i][1] for p in parts) for i in range(len(s)))
    out = np.zeros(shape, dtype=parts[0][1].dtype)
    for sl, b in parts:
        out[tuple(slice(*x) for x in sl)] = b
    return out
