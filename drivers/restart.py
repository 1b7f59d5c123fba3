"""A run, interrupted and continued from its checkpoint file.  args: phase(first|again|demo|zero) solver folder
first: the whole run (checkpoint files are left in the folder); again: a new process loads the checkpoint
and continues; demo: the same with the loader of the demo programs; zero: the same, but the step counter and the time start from zero."""
from dlib import *
phase, solvername, folder = ARGS[:3]
import chan
from chan import gather_at, put, comm, rank, size
from spectralDNS import config, get_solver, solve
import h5py
import demos
quiet()
CH = solvername.startswith(('KMM', 'Coupled'))
dim = 2 if solvername in ('NS2D', 'Bq2D') else 3
mesh = 'channel' if CH else 'doublyperiodic' if dim == 2 else 'triplyperiodic'
P = config.params
ND = {'NS': 3, 'VV': 3, 'MHD': 6, 'NS2D': 2, 'Bq2D': 3}
DEMO = {'NS': 'Isotropic', 'KMM': 'MKM', 'KMMRK3': 'MKM', 'KMM_RB': 'RayleighBenard', 'KMMRK3_RB': 'RayleighBenard'}
SET = {'NS': 'U', 'NS2D': 'U', 'VV': 'curl', 'MHD': 'UB', 'Bq2D': 'Ur'}
if not CH:
    config.update({'verbose': False}, mesh)
    getattr(config, mesh).add_argument('--N', default=[8] * dim, nargs=dim)
scen = []


def curl_of(c):
    if solvername == 'KMMr':
        c.g[:] = 1j * c.K[0] * c.U_hat[1] - 1j * c.K[1] * c.U_hat[0]
    elif solvername.startswith('KMM'):
        c.g[:] = 1j * c.K[1] * c.U_hat[2] - 1j * c.K[2] * c.U_hat[1]


def load(f, name, lag, n, sl):
    d = f['%s/%dD/%d' % (name, dim, lag)]
    a = d[(slice(0, n),) + sl] if n else d[sl]
    return a['r'] + 1j * a['i'] if a.dtype.names else a


def channel_load(s, c, f):
    """as a user restarts: the solution before the checkpoint gives the old convection, then the solution itself"""
    sl = tuple(c.FST.local_slice(True))
    name = 'UP' if solvername in chan.COUPLED else 'U'

    def get(lag):
        if name == 'UP':
            c.UP_hat[:] = load(f, 'UP', lag, 4, sl)
        else:
            c.U_hat[:] = load(f, 'U', lag, 3, sl)
        curl_of(c)
    if 'RK3' not in solvername:
        get(1)
        c.H_hat1[:] = s.get_convection(**c)
        if 'phi_hat1' in c:
            c.phi_hat1[:] = load(f, 'phi', 1, 0, sl)
    get(0)
    if 'phi_hat' in c:
        c.phi_hat[:] = load(f, 'phi', 0, 0, sl)
        if 'phi_hat0' in c:
            c.phi_hat0[:] = c.phi_hat
    if 'UP_hat0' in c:
        c.UP_hat0[:] = c.UP_hat
    elif 'U_hat0' in c:
        c.U_hat0[:] = c.U_hat


def problem(k):
    rng = random.Random('restart-%s-%s-%s' % (SEED, solvername, k))
    ev = []
    if CH:
        N, L = rng.choice([(14, 4, 6), (16, 6, 4), (14, 6, 6)]), (2, rng.choice(['2*pi', '4*pi/3']), '2*pi')
        if solvername == 'KMMr':
            N, L = (N[1], N[2], N[0]), (L[1], L[2], L[0])
    elif dim == 3:
        N = rng.choice([(6, 4, 6), (4, 6, 5), (6, 6, 4)])
        L = [rng.choice(['2*pi', 'pi', 3.0]) for _ in range(3)]
    else:
        N = rng.choice([(8, 8), (8, 12), (12, 9)])
        L = [rng.choice(['2*pi', 'pi', 3.0]) for _ in range(2)]
    integ = ['RK4', 'AB2', 'BS5_fixed', 'ForwardEuler', 'BS5_adaptive'][k % 5]
    form = {'NS': ['Standard', 'Divergence', 'Skewed', 'Vortex'][(k + SEED) % 4], 'MHD': 'Divergence'}.get(solvername, 'Vortex')
    if solvername in ('KMM', 'KMMRK3'):
        form = ['Vortex', 'Standard', 'Divergence'][k % 3]
    quad = rng.choice(['GC', 'GL'])
    n1, n2 = rng.choice([1, 2, 3]), 3
    scen.append({'name': phase, 'problem': '%s:%d %s N=%s L=%s %s n1=%d' % (solvername, k, integ if not CH else quad, N, L, form, n1),
                 'integ': integ if not CH else '', 'key': 'restart:%s:%s' % (solvername, integ if not CH else form), 'events': ev, 'cfg': {'tol': '1e-9'}})

    def obs(cls, what, v):
        v = np.asarray(v)
        ev.append({'op': 'obs', 'cls': cls, 'what': what, 'v': [cx(v) if np.iscomplexobj(v) else rl(v)]})

    def go():
        ev.append({'op': 'begin'})
        if CH:
            s = chan.setup(solvername, N, L, quad=quad, conv=form, mask=True, nu=0.0625, dt=0.01)
        else:
            s = get_solver(mesh=mesh, parse_args=['--N'] + [str(n) for n in N] + ['--L'] + [str(x) for x in L] + ['--convection', form, '--integrator', integ, '--mask_nyquist', solvername])
        c = s.get_context()
        s.conv = s.getConvection(P.convection)
        P.dt = 0.01 if CH else 0.02
        P.TOL = 1e-5
        if not CH:
            P.nu = 0.05
        Lf = [eval(str(x), {'pi': np.pi}) for x in L]
        fn = os.path.join(folder, 'f%d' % k)
        if CH:
            c.Source[:] = 0
            a = 1 if solvername != 'KMMr' else 0
            c.Source[a] = -0.25
            c.Sk[a] = c.FST.scalar_product(c.Source[a], c.Sk[a])
        elif 'Source' in c and solvername in ('NS', 'VV', 'NS2D'):
            for j in range(dim):
                c.Source[j] = rand_field(N, rng, 8)
        if phase == 'first':
            if CH:
                w = chan.axes(solvername)[0]
                drop = [2, 2, 2]
                if solvername not in chan.COUPLED:
                    drop[0 if solvername != 'KMMr' else 2] = 4
                put(c.U_hat, [chan.rand_chan(N, rng, d, 0.05, wall=w) for d in drop])
                if 'phi_hat' in c:
                    put(c.phi_hat, chan.rand_temp(N, rng, 0.05))
                    for nme in ('phi_hat0', 'phi_hat1'):
                        if nme in c:
                            c[nme][:] = c.phi_hat
                curl_of(c)
                if 'UP_hat0' in c:
                    c.UP_hat0[:] = c.UP_hat
                elif 'U_hat0' in c:
                    c.U_hat0[:] = c.U_hat
                if 'H_hat1' in c:
                    c.H_hat1[:] = s.get_convection(**c)
            else:
                f = [rand_field(N, rng, 14) for _ in range(ND[solvername])]
                d = min(3, dim)
                f[:d] = solenoidal(f[:d], N, Lf)
                if solvername == 'MHD':
                    f[3:] = solenoidal(f[3:], N, Lf)
                if solvername == 'VV':
                    for g in f:
                        g[(0,) * dim] = 0
                for j in range(len(f)):
                    c.u[j] = 0.25 * f[j]
            t0, tstep0 = 0.5, rng.choice([0, 0, 7])
        else:
            with h5py.File(fn + '_c.h5', 'r') as f:
                t0, tstep0 = (float(f.attrs['t']), int(f.attrs['tstep'])) if phase != 'zero' else (0.0, 0)
                if phase == 'demo':
                    pass
                elif CH:
                    channel_load(s, c, f)
                else:
                    a = load(f, SET[solvername], 0, ND[solvername], (slice(None),) * dim)
                    c.u[:] = a
            if phase == 'demo':         # as the demo programs continue a run
                mod = demos.load(DEMO[solvername])
                mod.h5py = h5py
                P.t = P.tstep = -1
                mod.init_from_file(fn + '_c.h5', s, c)
                if solvername.endswith('_RB'):
                    t0, tstep0 = float(P.t), int(P.tstep)
            P.dt = json.load(open(fn + '.dt'))
        nst = n1 + n2 if phase == 'first' else n2
        P.t, P.tstep = t0, tstep0
        P.T = 1e3
        P.write_result = int(1e8)
        P.checkpoint = (tstep0 + n1) if phase == 'first' else int(1e8)
        c.hdf5file.filename = fn if phase == 'first' else os.path.join(os.getcwd(), 'g%d' % k)
        P.filemode = 'w'
        n, p = [0], []

        def update(ctx):
            n[0] += 1
            if solvername in ('KMM', 'KMMr', 'KMM_RB'):
                p[:] = [np.array(s.get_pressure(ctx, s))]

        def hook(ctx):
            r = base(ctx)
            m = n[0] - (n1 if phase == 'first' else 0)
            if m == 0:
                json.dump(P.dt, open(fn + '.dt', 'w'))
                P.checkpoint = int(1e8)
            if m > 0:
                if phase != 'zero':
                    obs('time', 'step %d time' % m, np.array([P.t, P.tstep, P.dt], dtype=float))
                comps = ctx.U_hat if CH else ctx.u
                for j in range(3 if CH else ND[solvername]):
                    obs('solution', 'step %d u[%d]' % (m, j), np.asarray(comps[j]))
                if 'phi_hat' in ctx:
                    obs('temperature', 'step %d phi' % m, np.asarray(ctx.phi_hat))
                if p:
                    obs('pressure', 'step %d p' % m, p[0])
                if 'P_hat' in ctx and CH and 'UP_hat' in ctx:
                    obs('pressure', 'step %d p' % m, np.asarray(ctx.UP_hat[1]))
            return n[0] >= nst
        base = s.end_of_tstep
        s.update, s.end_of_tstep = update, hook
        try:
            solve(s, c)
        finally:
            s.end_of_tstep = base
        ev.append({'op': 'end'})
    attempt(ev, go, 'execution')


for k in range(5 if not CH else 3):
    problem(k)
save(scen)
