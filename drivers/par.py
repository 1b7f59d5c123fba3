"""One problem, executed on any number of processes with any decomposition: everything observable about it.
args: solver decomposition variant [nprocs are those of mpirun]"""
from dlib import *
solvername, deco, variant = ARGS[:3]
OPT = ARGS[3] if len(ARGS) > 3 else ''
import chan
from chan import gather_at, put, comm, rank, size
from spectralDNS import config, get_solver, solve
import h5py
quiet()
CH = solvername.startswith(('KMM', 'Coupled'))
dim = 2 if solvername in ('NS2D', 'Bq2D') else 3
mesh = 'channel' if CH else 'doublyperiodic' if dim == 2 else 'triplyperiodic'
P = config.params
ND = {'NS': 3, 'VV': 3, 'MHD': 6, 'NS2D': 2, 'Bq2D': 3}
if not CH:
    config.update({'verbose': False}, mesh)
    getattr(config, mesh).add_argument('--N', default=[8] * dim, nargs=dim)
scen = []


def run_problem(k):
    rng = random.Random('par-%s-%s-%s-%s' % (SEED, solvername, variant, k))      # the same on every execution
    ev = []
    if CH:
        N, L = rng.choice([(16, 8, 8), (14, 8, 10), (16, 10, 8)]), (2, rng.choice(['2*pi', '4*pi/3']), '2*pi')
        if solvername == 'KMMr':
            N, L = (N[1], N[2], N[0]), (L[1], L[2], L[0])
    elif dim == 3:
        N = rng.choice([(8, 8, 8), (8, 10, 8), (10, 8, 12), (12, 8, 10)])
        L = [rng.choice(['2*pi', 'pi', '4*pi', 3.0]) for _ in range(3)]
    else:
        N = rng.choice([(8, 8), (8, 12), (12, 10), (16, 8)])
        L = [rng.choice(['2*pi', 'pi', 3.0]) for _ in range(2)]
    deal = rng.choice(['3/2-rule', '2/3-rule', 'None'])
    integ = ['BS5_adaptive', 'RK4', 'AB2', 'ForwardEuler', 'BS5_fixed'][k % 5]
    form = {'NS': ['Standard', 'Divergence', 'Skewed', 'Vortex'][(k + SEED) % 4], 'MHD': 'Divergence'}.get(solvername, 'Vortex')
    if CH:
        form = {'KMM': ['Vortex', 'Standard', 'Divergence', 'Skew'], 'KMMRK3': ['Vortex', 'Standard', 'Divergence', 'Skew']}.get(solvername, ['Vortex'])[k % 4 if solvername in ('KMM', 'KMMRK3') else 0]
    quad = rng.choice(['GC', 'GL'])
    scen.append({'name': 'np=%d %s' % (size, deco), 'problem': '%s:%s:%d %s N=%s L=%s %s %s %s' % (solvername, variant, k, integ if not CH else quad, N, L, deal, form, OPT and ''),
                 'key': '%s:%s:np%d:%s' % (variant, solvername, size, deco + OPT), 'events': ev, 'cfg': {'tol': '1e-8'}})

    def obs(cls, what, v):
        if rank == 0:
            v = np.asarray(v)
            ev.append({'op': 'obs', 'cls': cls, 'what': what, 'v': [cx(v) if np.iscomplexobj(v) else rl(v)]})

    def go():
        ev.append({'op': 'begin'})
        gl = ['--decomposition', deco] + (['--optimization', OPT] if OPT and OPT != 'none' else [])
        if CH:
            s = chan.setup(solvername, N, L, quad=quad, dealias=deal, conv=form, mask=True, nu=rng.choice([0.0625, 0.125]), dt=0.01, global_args=gl)
        else:
            a = gl + ['--N'] + [str(n) for n in N] + ['--L'] + [str(x) for x in L] + ['--dealias', deal, '--convection', form, '--integrator', integ, '--mask_nyquist']
            s = get_solver(mesh=mesh, parse_args=a + [solvername])
        c = s.get_context()
        s.conv = s.getConvection(P.convection)
        if CH:
            TS = c.FST
        else:
            TS = c.T
        G = lambda x, spec: gather_at(np.asarray(x), TS.local_slice(spec), comm)

        def vec(cls, what, x, spec, n=None):
            x = np.asarray(x)
            if x.ndim == dim:
                g = G(x, spec)
                obs(cls, what, g)
            else:
                for j in range(len(x)):
                    obs(cls, '%s[%d]' % (what, j), G(x[j], spec))

        Lf = [eval(str(x), {'pi': np.pi}) for x in L]
        if CH:
            w = chan.axes(solvername)[0]
            drop = [2, 2, 2]
            if solvername not in chan.COUPLED:
                drop[0 if solvername != 'KMMr' else 2] = 4
            f = [chan.rand_chan(N, rng, d, 0.05, nmodes=10, wall=w) for d in drop]
            put(c.U_hat, f)
            if solvername in chan.RB:
                put(c.phi_hat, chan.rand_temp(N, rng, 0.05))
                for nme in ('phi_hat0', 'phi_hat1'):
                    if nme in c:
                        c[nme][:] = c.phi_hat
            src = chan.rand_chan(N, rng, 2, 0.1, nmodes=1)
            c.Source[:] = 0
            c.Source[1 if solvername != 'KMMr' else 0] = -0.25
            for j in range(3):
                c.Sk[j] = c.FST.scalar_product(c.Source[j], c.Sk[j]) if j else c.Sk[j]
            if 'UP_hat0' in c:
                c.UP_hat0[:] = c.UP_hat
            elif 'U_hat0' in c:
                c.U_hat0[:] = c.U_hat
            if solvername in ('KMM', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB'):
                c.g[:] = 1j * c.K[1] * c.U_hat[2] - 1j * c.K[2] * c.U_hat[1]
            elif solvername == 'KMMr':
                c.g[:] = 1j * c.K[0] * c.U_hat[1] - 1j * c.K[1] * c.U_hat[0]
            H = s.get_convection(**c)
            vec('convection', 'convection', H, True)
            if 'H_hat1' in c:
                c.H_hat1[:] = H
        else:
            n = ND[solvername]
            f = [rand_field(N, rng, 40) for _ in range(n)]
            d = min(3, dim)
            f[:d] = solenoidal(f[:d], N, Lf)
            if solvername == 'MHD':
                f[3:] = solenoidal(f[3:], N, Lf)
            if solvername == 'VV':
                for g in f:
                    g[(0,) * dim] = 0
            sl = tuple(TS.local_slice(True))
            for j in range(n):
                c.u[j] = f[j][sl] * 0.1
            if 'Source' in c and solvername in ('NS', 'VV', 'NS2D'):
                q = [rand_field(N, rng, 8) for _ in range(dim)]
                for j in range(dim):
                    c.Source[j] = q[j][sl]
            P.nu = 0.02
            r = s.ComputeRHS(c.dU, c.u, s, **c)
            vec('rhs', 'rhs', r, True)
            if 'P_hat' in c:
                vec('rhs-pressure', 'P_hat', c.P_hat, True)
            getters(s, c, vec, 'initial')
        if variant == 'rhs':
            return
        P.dt = 0.01 if CH else 0.02
        nst = 3
        P.t, P.tstep, P.T = 0.0, 0, P.dt * (nst + 0.5)
        P.TOL = 1e-4
        if integ == 'BS5_adaptive' and not CH:
            P.T, P.dt = 0.4, 0.05
        P.write_result, P.checkpoint = 2, 2
        c.hdf5file.filename = os.path.join(os.getcwd(), 'f%d' % k)
        P.filemode = 'w'

        def update(ctx):
            if P.tstep > 40:
                raise RuntimeError('too many steps')
            lab = 'step %d ' % P.tstep
            obs('time', lab + 'time', np.array([P.t, P.dt]))
            if CH:
                vec('solution', lab + 'U_hat', ctx.U_hat, True)
                if 'phi_hat' in ctx:
                    vec('temperature', lab + 'phi_hat', ctx.phi_hat, True)
                u = s.get_velocity(**ctx)
                vec('velocity', lab + 'U', u, False)
                vec('divergence', lab + 'divergence', s.get_divergence(**ctx), False)
                if hasattr(s, 'get_curl') and solvername in ('KMM', 'KMMRK3'):
                    curl = s.get_curl(np.zeros_like(ctx.u_dealias), **ctx)
                    for j in range(3):
                        obs('curl', lab + 'curl%d' % j, gather_at(np.asarray(curl[j]), ctx.FSTp.local_slice(False), comm))
                from spectralDNS.utilities import dx
                w = chan.axes(solvername)[0]
                if variant != 'optimization':
                    for j in range(3):
                        val = [dx(np.array(u[j]), ctx.FST, axis=w), dx(np.array(u[j]) ** 2, ctx.FST, axis=w)]
                        obs('integral', lab + 'dx%d' % j, np.array(val, dtype=float))
                        if rank and any(val):
                            raise RuntimeError('the integral is reported by another process than the first')
            else:
                vec('solution', lab + 'u', ctx.u, True)
        s.update = update
        solve(s, c)
        if not CH:
            getters(s, c, vec, 'final')
        comm.Barrier()
        if rank == 0:
            for x in ('_w.h5', '_c.h5'):
                with h5py.File(c.hdf5file.filename + x, 'r') as fi:
                    names = []
                    fi.visititems(lambda nme, o: names.append(nme) if isinstance(o, h5py.Dataset) and ('%dD/' % dim) in nme and 'mesh' not in nme else None)
                    for nme in sorted(names):
                        a = np.array(fi[nme])
                        if a.dtype.names:
                            a = a['r'] + 1j * a['i']
                        obs('file', x + nme, a.ravel())
        comm.Barrier()
        ev.append({'op': 'end'})
    attempt(ev, go, 'execution')


def getters(s, c, vec, lab):
    vec('velocity', lab + ' velocity', s.get_velocity(**c) if solvername != 'MHD' else c.UB_hat.backward(c.UB), False)
    vec('divergence', lab + ' divergence', s.get_divergence(**c), False)
    if solvername != 'MHD':
        vec('curl', lab + ' curl', s.get_curl(**c), False)
    if solvername in ('NS', 'NS2D', 'Bq2D'):
        vec('pressure', lab + ' pressure', s.get_pressure(**c), False)


nprob = int(os.environ.get('NPROB', '3' if not CH else '2'))
for k in range(nprob):
    run_problem(k)
save(scen, rank)
