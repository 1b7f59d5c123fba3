"""Replays the schedules of questions of ObserveModel: runs of one problem that are looked at in different ways.
args: scripts.json solver decomposition"""
from dlib import *
scripts = json.load(open(ARGS[0]))
solvername, deco = ARGS[1:3]
import chan
from chan import gather_at, put, comm, rank, size
from spectralDNS import config, get_solver, solve
from shenfun import Function
import h5py
quiet()
CH = solvername.startswith(('KMM', 'Coupled'))
dim = 2 if solvername in ('NS2D', 'Bq2D') else 3
mesh = 'channel' if CH else 'doublyperiodic' if dim == 2 else 'triplyperiodic'
P = config.params
ND = {'NS': 3, 'VV': 3, 'MHD': 6, 'NS2D': 2, 'Bq2D': 3}
if not CH:
    config.update({'verbose': False}, mesh)
    getattr(config, mesh).add_argument('--N', default=[8] * dim, nargs=dim)
rng = random.Random('observe-%s-%s' % (SEED, solvername))
scen = []
base = [0]
STEPS = 3


def functionals(x, loc, m=6):
    """random linear functionals of a distributed array (the same ones on any number of processes)"""
    g = gather_at(np.asarray(x), loc, comm) if loc is not None else np.asarray(x)
    if rank:
        return []
    r = np.random.RandomState(5)
    g = np.asarray(g)
    g = np.concatenate([g.real.ravel(), g.imag.ravel()]) if np.iscomplexobj(g) else g.ravel()
    return list(r.randint(-8, 9, (m, g.size)).dot(g) / np.sqrt(g.size))


def several(x, loc):
    x = np.asarray(x)
    if x.ndim == dim:
        return functionals(x, loc)
    return [v for q in x for v in several(q, loc)]


def problem(k):
    """one problem and its questions; the runs of it differ in what is asked"""
    integ = ['RK4', 'BS5_adaptive', 'AB2', 'BS5_fixed', 'ForwardEuler'][k % 5]
    deal = ['3/2-rule', '2/3-rule', 'None'][(k + SEED) % 3]
    form = {'NS': ['Skewed', 'Vortex', 'Standard', 'Divergence'][(k + SEED) % 4], 'MHD': 'Divergence', 'KMM': ['Vortex', 'Skew', 'Standard', 'Divergence'][(k + SEED) % 4]}.get(solvername, 'Vortex')
    if CH:
        N, L = (14, 8, 8), (2, '2*pi', '4*pi/3')
        if solvername == 'KMMr':
            N, L = (N[1], N[2], N[0]), (L[1], L[2], L[0])
        s = chan.setup(solvername, N, L, quad=rng.choice(['GC', 'GL']), dealias=deal, conv=form, mask=True, nu=0.0625, dt=0.01, global_args=['--decomposition', deco])
        TS = (c := s.get_context()).FST
    else:
        N = (8, 10, 8)[:dim]
        L = ('2*pi', 'pi', '4*pi')[:dim]
        a = ['--decomposition', deco, '--N'] + [str(n) for n in N] + ['--L'] + [str(x) for x in L] + ['--dealias', deal, '--convection', form, '--integrator', integ, '--mask_nyquist']
        s = get_solver(mesh=mesh, parse_args=a + [solvername])
        TS = (c := s.get_context()).T
    s.conv = s.getConvection(P.convection)
    Lf = [eval(str(x), {'pi': np.pi}) for x in L]
    if CH:
        w = chan.axes(solvername)[0]
        drop = [2, 2, 2]
        if solvername not in chan.COUPLED:
            drop[w] = 4
        f = [chan.rand_chan(N, rng, d, 0.1, nmodes=10, wall=w) for d in drop]
        temp = chan.rand_temp(N, rng, 0.1)
    else:
        f = [rand_field(N, rng, 30) for _ in range(ND[solvername])]
        d = min(3, dim)
        f[:d] = solenoidal(f[:d], N, Lf)
        if solvername == 'MHD':
            f[3:] = solenoidal(f[3:], N, Lf)
        if solvername == 'VV':
            for g in f:
                g[(0,) * dim] = 0

    def initial():
        if not CH:
            sl = tuple(TS.local_slice(True))
            for j in range(ND[solvername]):
                c.u[j] = f[j][sl] * 0.2
            return
        put(c.U_hat, f)
        if solvername in chan.RB:
            put(c.phi_hat, temp)
            for nme in ('phi_hat0', 'phi_hat1'):
                if nme in c:
                    c[nme][:] = c.phi_hat
        c.Source[:] = 0
        c.Source[1 if solvername != 'KMMr' else 0] = -0.25
        for j in range(3):
            c.Sk[j] = c.FST.scalar_product(c.Source[j], c.Sk[j]) if j else c.Sk[j]
        if 'UP_hat0' in c:
            c.UP_hat0[:] = c.UP_hat
        elif 'U_hat0' in c:
            c.U_hat0[:] = c.U_hat
        if solvername in ('KMM', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB'):
            c.g[:] = 1j * c.K[1] * c.U_hat[2] - 1j * c.K[2] * c.U_hat[1]
        elif solvername == 'KMMr':
            c.g[:] = 1j * c.K[0] * c.U_hat[1] - 1j * c.K[1] * c.U_hat[0]
        H = s.get_convection(**c)
        if 'H_hat1' in c:
            c.H_hat1[:] = H

    phys = TS.local_slice(False)
    qs = []
    if hasattr(s, 'get_velocity'):
        qs.append(('velocity', lambda: (s.get_velocity(**c), phys)))
    if hasattr(s, 'get_curl'):
        if CH:
            qs.append(('curl', lambda: (s.get_curl(np.zeros_like(c.u_dealias), **c), c.FSTp.local_slice(False))))
        else:
            qs.append(('curl', lambda: (s.get_curl(**c), phys)))
    if hasattr(s, 'get_divergence'):
        qs.append(('divergence', lambda: (s.get_divergence(**c), phys)))
    if hasattr(s, 'get_pressure') and solvername not in ('VV', 'MHD', 'KMMRK3') and not solvername.endswith('_RB'):
        qs.append(('pressure', (lambda: (s.get_pressure(c, s), phys)) if CH else (lambda: (s.get_pressure(**c), phys))))
    if hasattr(s, 'get_rho'):
        qs.append(('rho', lambda: (s.get_rho(**c), phys)))
    if hasattr(s, 'compute_derivatives'):
        qs.append(('gradient', lambda: (s.compute_derivatives(**c), phys)))
    if hasattr(s, 'get_convection'):
        qs.append(('convection', lambda: (s.get_convection(**c), TS.local_slice(True))))
    files = os.path.join(os.getcwd(), 'observe%d' % k)
    c.hdf5file.filename = files
    ev = []
    scen.append({'name': '%s %s %s %s np=%d %s' % (solvername, integ if not CH else '', form, deal, size, deco), 'key': 'observe:%s' % solvername, 'cfg': {'tol': '1e-9'}, 'events': ev})

    def run(script):
        wrote = []
        if rank == 0:
            ev.append({'op': 'run', 'script': script})
        initial()
        base[0] += 2 * STEPS
        first = base[0]
        P.t, P.tstep, P.dt, P.TOL, P.filemode = 0.0, first, 0.01 if CH else 0.02, 1e-3, 'w'
        P.T = P.dt * (STEPS - 0.5) if not CH else P.dt * (STEPS + 0.5)
        inside = {'n': 0}

        def ask(o, n, place):
            if o == 6:
                P.checkpoint = 1
            elif o == 5:
                P.write_result = 1
                if not place:
                    wrote.append(n)
            else:
                what, fn = qs[(o - 1) % len(qs)] if len(qs) <= 4 else qs[(o - 1 + (4 if n % 2 == 0 and o <= len(qs) - 4 else 0)) % len(qs)]
                x, loc = fn()
                v = several(x, loc)
                if rank == 0:
                    ev.append({'op': 'answer', 'what': what, 'n': n, 'place': place, 'v': [rl(v)]})

        def update(ctx):
            n = P.tstep - first
            inside['n'] = 0
            if n > 20:
                raise RuntimeError('too many steps')
            P.write_result = P.checkpoint = 10 ** 8
            v = several(ctx.U_hat if CH else ctx.u, TS.local_slice(True))
            if 'phi_hat' in ctx:
                v += several(ctx.phi_hat, TS.local_slice(True))
            if rank == 0:
                ev.append({'op': 'step', 'v': [rl(v + [P.t])]})
            for o in (script[n - 1] if n <= len(script) else []):
                ask(o, n, '')

        def within(ctx):
            n = P.tstep - first
            inside['n'] += 1
            for o in (script[n] if n < len(script) else []):
                if o < 5:
                    ask(o, n, 'inside%d' % inside['n'])
        s.update = update
        s.additional_callback = within
        P.write_result = P.checkpoint = 10 ** 8
        solve(s, c)
        if rank == 0:
            if wrote:
                with h5py.File(files + '_w.h5', 'r') as fi:
                    names = []
                    fi.visititems(lambda nme, o: names.append(nme) if isinstance(o, h5py.Dataset) and '/%dD/' % dim in nme and 'mesh' not in nme else None)
                    for n in wrote:
                        for nme in sorted(names):
                            if nme.endswith('/%d' % (first + n)):
                                ev.append({'op': 'answer', 'what': 'file', 'n': n, 'place': nme.split('/')[0], 'v': [rl(functionals(np.array(fi[nme]), None))]})
            ev.append({'op': 'end'})
        comm.Barrier()
    mine = rng.sample(scripts, len(scripts) // 4 if THOROUGH else 45 if size == 1 else 15)
    for script in [[]] + mine:
        if not attempt(ev, lambda: run(script), 'run'):
            break


for k in range(1 if CH and solvername != 'KMM' else 4 if not THOROUGH else 10):
    problem(k)
save(scen, rank)
