"""Forcing of the turbulence demos.   args: solver(NS|VV|KMM|KMMRK3) decomposition"""
from dlib import *
from mpi4py import MPI
import demos, chan
from chan import gather_at
from spectralDNS import config, get_solver, solve
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
solvername, dec = ARGS[:2]
rnd = random.Random('forcing-%s-%s-%s-%d' % (SEED, solvername, dec, size))
P = config.params
CH = solvername.startswith('KMM')
mod = demos.load('MKM' if CH else 'Isotropic')
quiet()
scen = []
BIG = int(1e8)


def gath(a):
    return gather_at(np.asarray(a), a.function_space().local_slice(True), comm) if hasattr(a, 'function_space') else None


def vec(T, a):
    return [gather_at(np.asarray(x), T.local_slice(True), comm) for x in a]


def place(T, a, g):
    s = tuple(T.local_slice(True))
    for i in range(3):
        a[i] = g[i][s]


def homogeneous(k):
    ev = []
    N = rnd.choice([(8, 8, 8), (8, 6, 10), (6, 8, 8)] if size == 1 else [(8, 8, 8), (8, 10, 8)])
    L = [rnd.choice([2, 2, 4]) * np.pi for _ in range(3)]
    kf, kd, re = rnd.choice([1, 2]), rnd.choice([8., 50.]), rnd.choice([84., 20.])
    deal = rnd.choice(['3/2-rule', '2/3-rule'])
    integ = rnd.choice(['RK4', 'AB2', 'BS5_fixed'])
    vv = solvername == 'VV'

    def go():
        args = ['--N'] + [str(n) for n in N] + ['--L'] + [repr(x) for x in L] + ['--dealias', deal, '--decomposition', dec, '--integrator', integ]
        args += ['--compute_energy', str(rnd.choice([1, 2, BIG])), '--Kf2', str(kf), '--kd', repr(kd), '--Re_lam', repr(re), '--convection', 'Vortex']
        s = get_solver(update=mod.update, mesh='triplyperiodic', parse_args=args + [solvername])
        P.nu = 1. / kd ** (4. / 3.)
        P.dt, P.t, P.tstep, P.write_result, P.checkpoint = 1e-4, 0., 0, BIG, BIG
        scen[-1]['cfg']['nu'] = hx(P.nu)
        c = s.get_context()
        s.conv = s.getConvection(P.convection)
        c.hdf5file.filename = 'iso%s%d' % (solvername, k)
        mod.initialize(s, c)
        u, w = vec(c.T, c.U_hat), vec(c.T, c.W_hat) if vv else []
        if rank == 0:
            ev.append({'op': 'start', 'u': [cx(x) for x in u], 'w': [cx(x) for x in w], 'target': hx(c.target_energy)})

        def update(ctx):
            e = {'op': 'force', 'target': hx(ctx.target_energy)}
            a = vec(c.T, ctx.W_hat if vv else ctx.U_hat)
            mod.update(ctx)
            b, w = vec(c.T, ctx.U_hat), vec(c.T, ctx.W_hat) if vv else []
            if rank == 0:
                e['w' if vv else 'u'] = [cx(x) for x in a]
                e['after'], e['wafter'] = [cx(x) for x in b], [cx(x) for x in w]
                ev.append(e)
        s.update = update
        P.T = 2.5e-4
        solve(s, c)
        for _ in range(2 if not THOROUGH else 6):         # any other state, with a mean
            f = solenoidal([rand_field(N, rnd, amp=8) for _ in range(3)], N, L)
            low = np.sqrt(sum(x * x for x in wavenumbers(N, L))) <= kf
            e2 = rnd.choice([.25, .5, 1.])
            full = np.array([2. if 0 < j < N[2] / 2 else 1. for j in range(N[2] // 2 + 1)])
            # less energy above the forced modes than the target, whatever below
            up = sum((np.abs(x * ~low) ** 2 * full).sum() for x in f)
            f = [np.where(low, x * e2, x * np.sqrt(c.target_energy / up) * e2 * .75) for x in f]
            if vv:
                K = wavenumbers(N, L)
                f = [1j * (K[1] * f[2] - K[2] * f[1]), 1j * (K[2] * f[0] - K[0] * f[2]), 1j * (K[0] * f[1] - K[1] * f[0])]
            place(c.T, c.W_hat if vv else c.U_hat, f)
            P.tstep += 1
            update(c)
    n3 = list(N)
    scen.append({'name': 'forcing %s np=%d %s N=%s kf=%s %s %s' % (solvername, size, dec, N, kf, deal, integ), 'key': 'forcing-%s-np%d-%s' % (solvername, size, dec),
                 'cfg': {'n': n3, 'ks': [hx(2 * np.pi / l) for l in L], 'kf': hx(kf), 'kd': hx(kd), 're': hx(re), 'nu': hx(1.), 'vv': vv, 'tol': hx(1e-10)}, 'events': ev})
    attempt(ev, go, 'forcing')


def channel(k):
    ev = []
    N = rnd.choice([(14, 4, 6), (16, 6, 4)] if size == 1 else [(16, 8, 8), (14, 8, 8)])
    L = (2, 2 * np.pi, rnd.choice([np.pi, 2 * np.pi]))

    def go():
        s = chan.setup(solvername, N, [2, '2*pi', repr(L[2])], quad=rnd.choice(['GC', 'GL']), conv='Vortex', mask=True, nu=.0625, dt=.001, extra=('--decomposition', dec))
        config.solver = s
        P.Re_tau, P.compute_energy, P.plot_result, P.sample_stats, P.print_energy0 = 180., rnd.choice([1, BIG]), BIG, BIG, BIG
        P.t, P.tstep, P.write_result, P.checkpoint = 0., 0, BIG, BIG
        c = s.get_context()
        s.conv = s.getConvection(P.convection)
        c.hdf5file.filename = 'mkm%s%d' % (solvername, k)
        rs = random.Random('%s-%d' % (SEED, k))
        u = [chan.rand_chan(N, rs, d, 0.05) for d in (4, 2, 2)]
        place(c.FST, c.U_hat, u)
        c.g[:] = 1j * c.K[1] * c.U_hat[2] - 1j * c.K[2] * c.U_hat[1]
        if 'RK3' not in solvername:
            c.U_hat0[:] = c.U_hat
            c.H_hat1[:] = s.get_convection(**c)
        mod.set_Source(**c)
        mod.flux[0] = rs.choice([3.5, 12., -2.])

        def update(ctx):
            a = vec(c.FST, ctx.U_hat)
            mod.update(ctx)
            b = vec(c.FST, ctx.U_hat)
            if rank == 0:
                m = [np.array(x[1][:-2, 0, 0]) for x in (a, b)]
                rest = []
                for x in (a, b):
                    x[1] = x[1].copy()
                    x[1][:, 0, 0] = 0
                    rest.append([cx(y) for y in x])
                ev.append({'op': 'flux', 'flux': hx(mod.flux[0]), 'area': hx(L[1] * L[2]), 'mean0': cx(m[0]), 'mean1': cx(m[1]), 'rest0': rest[0], 'rest1': rest[1]})
        s.update = update
        P.T = .0025
        solve(s, c)
    scen.append({'name': 'flux %s np=%d %s N=%s' % (solvername, size, dec, N), 'key': 'flux-%s-np%d-%s' % (solvername, size, dec), 'cfg': {'tol': hx(1e-11)}, 'events': ev})
    attempt(ev, go, 'forcing')


if not CH:
    config.update({'verbose': False}, 'triplyperiodic')
    t = config.triplyperiodic
    t.add_argument('--N', default=[8, 8, 8], nargs=3)
    for n, ty, d in (('compute_energy', int, 100), ('compute_spectrum', int, BIG), ('plot_step', int, BIG), ('Kf2', int, 3), ('kd', float, 50.), ('Re_lam', float, 84.)):
        t.add_argument('--' + n, type=ty, default=d)
for k in range(3 if not THOROUGH else 12):
    (channel if CH else homogeneous)(k)
save(scen, rank)
