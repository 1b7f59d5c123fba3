"""Drives the explicit integrators with a recorded right-hand side.
args: dim(2|3) optimization precision adaptive(0|1)"""
from dlib import *
dim, opt, prec, adaptive = int(ARGS[0]), ARGS[1], ARGS[2], ARGS[3] == '1'
rng = random.Random('integ-%s-%s-%s-%s-%s' % (SEED, dim, opt, prec, adaptive))
from mpi4py import MPI
comm = MPI.COMM_WORLD
from spectralDNS import config, get_solver
quiet()
mesh = 'doublyperiodic' if dim == 2 else 'triplyperiodic'
name = 'NS2D' if dim == 2 else 'NS'
config.update({'verbose': False}, mesh)
getattr(config, mesh).add_argument('--N', default=[4] * dim, nargs=dim)
a = (['--optimization', opt] if opt != 'none' else []) + ['--precision', prec, '--no-mask_nyquist']
gat = lambda x: [[hx(z.real), hx(z.imag)] for blk in comm.allgather(np.array(x)) for z in blk.ravel()]
gf = lambda x: [gat(x[j]) for j in range(x.shape[0])]
scen = []


def one(integ, N, nsteps, tstep0, dts, amps, TOL=1e-2):
    ev = []
    key = '%s:%dD:%s:%s' % (integ, dim, opt, prec)
    cfg = {'integrator': integ, 'tol': '1e-12' if prec == 'double' else '1e-5', 'TOL': hx(TOL)}
    s = {'name': '%s N=%s tstep0=%d dts=%s amps=%s TOL=%s ranks=%d' % (key, N, tstep0, dts, amps, TOL, comm.Get_size()), 'key': key, 'cfg': cfg, 'events': ev}
    scen.append(s)

    def go():
        args = a + ['--N'] + [str(n) for n in N] + ['--integrator', integ, name]
        solver = get_solver(mesh=mesh, parse_args=args)
        c = solver.get_context()
        p = config.params
        cfg['nmodes'] = int(np.prod(N[:-1]) * (N[-1] // 2 + 1))
        p.TOL = TOL
        p.tstep, p.t, p.dt = tstep0, 0.25, dts[0]
        r = np.random.RandomState(rng.randrange(1 << 30) + comm.Get_rank())
        u = c.u
        u[:] = r.randint(-16, 17, u.shape) / 16. + 1j * r.randint(-16, 17, u.shape) / 16.
        calls, rej = [], []
        state = {'amp': amps[0]}

        def rhsfun(rhs, uu, slv, **kw):
            f = (r.randint(-16, 17, u.shape) + 1j * r.randint(-16, 17, u.shape)) / 16.
            am = state['amp']
            if isinstance(am, tuple):           # calm as soon as a trial has been rejected
                am = am[1] if rej else am[0]
            if isinstance(am, list):            # one amplitude per component
                f = f * np.array([am[j % len(am)] for j in range(u.shape[0])]).reshape((-1,) + (1,) * (u.ndim - 1))
            elif am == 'const':
                f = np.full(u.shape, 0.5 + 0.25j)
            else:
                f = f * am
            rhs[:] = f
            calls.append((gf(np.array(uu)), gf(np.array(rhs))))
            return rhs
        solver.ComputeRHS = rhsfun
        def cb(ctx):
            if getattr(ctx, 'is_step_rejected_callback', False):
                rej.append((len(calls), float(ctx.dt_rejected), u.copy(), p.t, p.tstep))
                ctx.is_step_rejected_callback = False
        solver.additional_callback = cb
        step = solver.getintegrator(c.dU, c.u, solver, c)
        for k in range(nsteps):
            dt = dts[k % len(dts)] if not (adaptive and k and dts[-1] is None) else p.dt
            p.dt = dt
            dt = p.dt           # in the configured precision
            state['amp'] = amps[k % len(amps)]
            del calls[:]
            del rej[:]
            before = u.copy()
            b = gf(before)
            t_b = (p.t, p.tstep)
            ret, nxt, took = step()
            same = bool(np.array_equal(np.array(ret), np.array(u)))
            e = {'u0': b, 'u1': gf(np.array(u)), 'dt': hx(dt), 'next': hx(nxt), 'took': hx(took), 'inplace': same and (p.t, p.tstep) == t_b}
            if adaptive:
                trials = []
                lo = 0
                d = dt
                for (n, drej, ur, t_, ts_) in rej:
                    trials.append({'dt': hx(drej), 'announced': hx(drej), 'asked': [x[0] for x in calls[lo:n]], 'f': [x[1] for x in calls[lo:n]],
                                   'unchanged': bool(np.array_equal(ur, before)) and (t_, ts_) == t_b})
                    lo = n
                trials.append({'dt': hx(took), 'announced': '0', 'asked': [x[0] for x in calls[lo:]], 'f': [x[1] for x in calls[lo:]], 'unchanged': True})
                e.update(op='adapt', trials=trials)
            else:
                e.update(op='step', asked=[x[0] for x in calls], f=[x[1] for x in calls])
            ev.append(e)
            p.t += took
            p.tstep += 1
    attempt(ev, go, integ)


sizes = [(4, 4, 4), (2, 4, 6), (4, 6, 4), (6, 2, 4)] if dim == 3 else [(6, 8), (8, 4), (4, 10), (12, 6)]
if comm.Get_size() > 1:
    sizes = [n for n in sizes + [(6, 4, 5), (4, 8, 4)] if min(n[:2]) >= 2 * comm.Get_size() - 2]
rep = 3 if THOROUGH else 1
for _ in range(rep):
    if not adaptive:
        for integ in ['RK4', 'ForwardEuler', 'AB2'] + (['BS5_fixed'] if prec == 'double' else []):
            for t0 in ([0, rng.choice([1, 2, 5])] if integ != 'RK4' or THOROUGH else [0]):
                dts = [rng.choice([0.125, 0.1, 0.7]) for _ in range(3)]
                one(integ, rng.choice(sizes), 3, t0, dts, [1.0])
    else:
        N = rng.choice(sizes)
        one('BS5_adaptive', N, 3, 0, [0.125, None], [1.0, 3.0, 0.5], 1e-2)
        one('BS5_adaptive', rng.choice(sizes), 3, 3, [0.1, 0.2, 0.05], [[8.0, 0.1, 0.3], [0.05, 4.0, 0.5], [0.1, 0.2, 6.0]], 1e-2)
        one('BS5_adaptive', rng.choice(sizes), 3, 0, [0.25, 0.5, 0.1], [1e12, 'const', 1e-6], 1e-3)
        # a step that could grow again, were it not for the rejection
        one('BS5_adaptive', rng.choice(sizes), 3, 0, [0.125, None], [(8.0, 1e-3), 1e-3, (16.0, 1e-3)], 1e-2)
        one('BS5_adaptive', rng.choice(sizes), 2, 1, [0.5, None], [0.0, 2.0], 1e-1)
        one('BS5_adaptive', rng.choice(sizes), 4, 0, [rng.choice([0.3, 0.11, 1.0]), None], [rng.choice([0.2, 1.0, 5.0]) for _ in range(4)], rng.choice([1e-1, 1e-2, 1e-3]))
save(scen, comm.Get_rank())
