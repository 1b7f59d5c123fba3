"""Several runs in one process.  args: alone CONFIG | script SCRIPTS.json PART PARTS
A script is a sequence of uses of the configurations: run (a complete run), part (a run begun and left after a step),
build (only the context is made), pair (two contexts advanced in turns); every complete run is observed."""
from dlib import *
from spectralDNS import config, get_solver, solve
from shenfun import Function
import h5py
quiet()
P = config.params
config.channel.add_argument('--kappa', default=0.25, type=float)
TRI, DBL, CH = 'triplyperiodic', 'doublyperiodic', 'channel'
# name: mesh, global options, solver, options of the solver
CONF = {
    'NS-skewed':   (TRI, '--M 2 2 2 --dealias None --convection Skewed --integrator RK4 --nu 0.0625 --dt 0.03125 --T 0.1 --checkpoint 2', 'NS', ''),
    'NS-adaptive': (TRI, '--M 3 2 2 --dealias 3/2-rule --convection Vortex --integrator BS5_adaptive --nu 0.01 --dt 0.125 --T 0.3 --TOL 1e-4 --L 2*pi pi 4.0', 'NS', ''),
    'NS-plain':    (TRI, '--M 2 2 2 --t 0.5 --T 0.6 --tstep 4 --write_result 5', 'NS', ''),
    'VV-ab2':      (TRI, '--M 2 2 2 --no-mask_nyquist --integrator AB2 --nu 0.125 --dt 0.05 --T 0.16', 'VV', ''),
    'MHD':         (TRI, '--M 2 2 2 --convection Divergence --integrator ForwardEuler --nu 0.25 --dt 0.0625 --T 0.2', 'MHD', '--eta 0.0625'),
    'NS2D':        (DBL, '--M 3 2 --dealias None --integrator BS5_fixed --nu 0.03125 --dt 0.0625 --T 0.2', 'NS2D', ''),
    'Bq2D':        (DBL, '--M 2 3 --dealias 3/2-rule --integrator RK4 --nu 0.0625 --dt 0.03125 --T 0.1', 'Bq2D', '--Ri 0.5 --Pr 2.0'),
    'KMM':         (CH, '--M 4 2 2 --dealias 3/2-rule --convection Vortex --nu 0.0625 --dt 0.01 --T 0.03', 'KMM', ''),
    'KMMRK3':      (CH, '--M 4 2 2 --dealias None --convection Standard --nu 0.125 --dt 0.02 --T 0.04', 'KMMRK3', ''),
    'KMMr':        (CH, '--M 2 2 4 --L 2*pi pi 2 --dealias 3/2-rule --nu 0.03125 --dt 0.01 --T 0.03', 'KMMr', ''),
    'Coupled':     (CH, '--M 4 2 2 --L 2 4.0 2*pi --dealias None --nu 0.0625 --dt 0.02 --T 0.05', 'Coupled', ''),
    'KMM_RB':      (CH, '--M 4 2 2 --kappa 0.125 --nu 0.0625 --dt 0.01 --T 0.03', 'KMM_RB', ''),
}
if THOROUGH:
    CONF['CoupledRK3'] = (CH, '--M 4 2 2 --dealias 3/2-rule --nu 0.0625 --dt 0.01 --T 0.03', 'CoupledRK3', '')
    CONF['KMMRK3_RB'] = (CH, '--M 4 2 2 --kappa 0.0625 --nu 0.0625 --dt 0.01 --T 0.03', 'KMMRK3_RB', '')
NAMES = sorted(CONF)
count = [0]
scen = []


def variant(a, mesh, sol, v):
    """the same mesh and solver with other parameters"""
    if v in (1, 2):
        for w, x, f in [('--dt', '0.01', 0.75), ('--nu', '0.0625', 2)][v - 1:v]:
            if w not in a:
                a += [w, x]
            a[a.index(w) + 1] = repr(float(a[a.index(w) + 1]) * f)
    if v == 3:
        d = a[a.index('--dealias') + 1] if '--dealias' in a else '2/3-rule'
        wall = {CH: 0}.get(mesh)
        if '--L' in a:
            i = a.index('--L') + 1
            L, wall = a[i:i + 3], [j for j in range(3) if mesh == CH and a[i + j] == '2']
        else:
            L, wall = ['2', '2*pi', '2*pi'] if mesh == CH else ['2*pi'] * (2 if mesh == DBL else 3), [0] if mesh == CH else []
        L = [l if j in wall else l + '*1.5' if 'pi' in l else repr(float(l) * 1.5) for j, l in enumerate(L)]
        a += ['--dealias', '3/2-rule' if d != '3/2-rule' else 'None', '--L'] + L
        if mesh != DBL and sol != 'VV' and ('--convection' not in a or a[a.index('--convection') + 1] != 'Divergence'):
            a += ['--convection', 'Vortex' if '--convection' in a and a[a.index('--convection') + 1] != 'Vortex' else 'Standard']
    return a


def build(name, rep=0, v=0):
    mesh, glob, sol, opts = CONF[name]
    count[0] += 1
    a = variant(glob.split(), mesh, sol, v)
    solver = get_solver(mesh=mesh, parse_args=a + ['--h5filename', 'run%d' % count[0], sol] + opts.split())
    solver.update = lambda c: None
    solver.regression_test = lambda c: None
    c = solver.get_context()
    rng = random.Random('%s %s' % (sol, rep))
    ini(name, solver, c, rng)
    return solver, c


def smooth(u, rng, amp):
    """the same small number of modes whatever came before: set in physical space"""
    x = np.meshgrid(*[np.arange(n) * 2 * np.pi / n for n in u.shape], indexing='ij')
    u[:] = 0
    for j in range(4):
        k = [rng.randint(-1, 1) for _ in x]
        u += amp * rng.randint(1, 16) / 16. * np.cos(sum(a * b for a, b in zip(k, x)) + rng.randint(0, 6))


def ini(name, solver, c, rng):
    mesh, _, sol, _ = CONF[name]
    if mesh != CH:
        if sol == 'MHD':
            for j in range(6):
                smooth(c.UB[j], rng, 0.5)
            c.UB_hat = c.UB.forward(c.UB_hat)
            solenoid(c, c.UB_hat[:3])
            solenoid(c, c.UB_hat[3:])
        elif sol == 'VV':
            for j in range(3):
                smooth(c.U[j], rng, 0.5)
            c.U_hat = c.U.forward(c.U_hat)
            solenoid(c, c.U_hat)
            w = 1j * np.cross(np.array(np.broadcast_arrays(*c.K)), np.asarray(c.U_hat), axis=0)
            c.W_hat[:] = w
        elif sol == 'Bq2D':
            for j in range(3):
                smooth(c.Ur[j], rng, 0.5)
            c.Ur_hat = c.Ur.forward(c.Ur_hat)
            solenoid(c, c.Ur_hat[:2])
        else:
            for j in range(len(c.U)):
                smooth(c.U[j], rng, 0.5)
            c.U_hat = c.U.forward(c.U_hat)
            solenoid(c, c.U_hat)
        if name == 'NS-skewed':
            for j in range(3):
                c.Source[j][0, 1, 0] = 0.125 * (j + 1)
        return
    ax = (2, 0, 1) if sol == 'KMMr' else (0, 1, 2)
    n = c.U_hat.shape[1:]
    for j in range(3):
        for k in range(6):
            i = [0, 0, 0]
            i[ax[0]] = k
            i[ax[1]] = rng.randint(0, 1)
            i[ax[2]] = rng.randint(0, 1)
            z = 0.125 * complex(rng.randint(-8, 8) / 8., rng.randint(-8, 8) / 8. if i[ax[1]] and i[ax[2]] else 0)
            c.U_hat[(j,) + tuple(i)] += z
    if 'Coupled' not in sol:
        k1, k2 = c.K[ax[1]], c.K[ax[2]]
        c.g[:] = 1j * k1 * c.U_hat[ax[2]] - 1j * k2 * c.U_hat[ax[1]]
    if sol in ('KMM_RB', 'KMMRK3_RB'):
        c.phi_hat[-2, 0, 0] = 1
        c.phi_hat[1, 1, 1] = 0.25 + 0.125j
        for nm in ('phi_hat0', 'phi_hat1'):
            if nm in c:
                c[nm][:] = c.phi_hat
    else:
        c.Sk[ax[1], 0, 0, 0] = -0.25
    if 'UP_hat0' in c:
        c.UP_hat0[:] = c.UP_hat
    elif 'U_hat0' in c:
        c.U_hat0[:] = c.U_hat
    if 'H_hat1' in c:
        d = dict(c)
        d['H_hat'] = Function(c.H_hat.function_space())
        c.H_hat1[:] = solver.get_convection(**d)


def solenoid(c, u):
    K2 = np.where(c.K2 == 0, 1, c.K2)
    q = sum(np.asarray(u[j]) * c.K[j] for j in range(len(u))) / K2
    for j in range(len(u)):
        u[j] -= q * c.K[j]


def state(c):
    if 'UP_hat' in c:
        return [np.asarray(c.UP_hat)]
    if 'FST' not in c:
        return [np.asarray(c.u)]
    r = [np.asarray(c.U_hat)]
    if 'phi_hat' in c:
        r.append(np.asarray(c.phi_hat))
    if 'g' in c:
        r.append(np.asarray(c.g))
    return r


def observe(name, s):
    ev = s['events']

    def obs(cls, what, v):
        v = np.atleast_1d(np.asarray(v))
        ev.append({'op': 'obs', 'cls': cls, 'what': what, 'v': [cx(v) if np.iscomplexobj(v) else rl(v)]})

    def short(what, v):
        """a large field: its size, and as many of its values as its size allows"""
        v = v.ravel()
        obs('solution', what, v[::max(1, len(v) // 12)])
        obs('solution', '|%s|' % what, [float(np.sqrt((abs(v) ** 2).sum())), float(abs(v).max())])

    def look(tag, c):
        for j, v in enumerate(state(c)):
            short('%s state %d' % (tag, j), v)
        obs('time', '%s time' % tag, [P.t, P.tstep, P.dt])
    ev.append({'op': 'begin'})

    def go():
        solver, c = build(name)
        obs('parameters', 'parameters', [float(x) for w in ('N', 'L', 'nu', 'dt', 'T', 't', 'tstep', 'checkpoint', 'write_result', 'mask_nyquist') for x in np.atleast_1d(P[w])]
            + [float(P.dealias == d) for d in ('3/2-rule', '2/3-rule', 'None')])
        look('start', c)
        solver.update = lambda c: look('step %d' % P.tstep, c)
        solve(solver, c)
        look('end', c)
        if name != 'MHD':
            short('velocity', np.asarray(solver.get_velocity(**c)))
        f = c.hdf5file.filename
        for part in ('w', 'c'):
            n = []
            if os.path.exists('%s_%s.h5' % (f, part)):
                with h5py.File('%s_%s.h5' % (f, part), 'r') as h:
                    h.visititems(lambda k, v: n.append((k, v[()])) if isinstance(v, h5py.Dataset) else None)
            obs('files', 'datasets %s' % part, [float(len(n))])
            for k, v in n:
                obs('files', 'dataset %s %s' % (part, k), [float(np.sqrt((abs(np.asarray(v)) ** 2).sum()))])
    attempt(ev, go, 'run')
    ev.append({'op': 'end'})


def use(kind, name, s, v):
    """uses whose own outcome is not observed"""
    ev = s['events']

    def go():
        solver, c = build(name, 1, v)
        if kind == 'build':
            return
        if kind == 'run':
            solve(solver, c)
        if kind == 'part':

            class Left(Exception):
                pass

            def update(_):
                raise Left()
            solver.update = update
            try:
                solve(solver, c)
            except Left:
                pass
    attempt(ev, go, kind)


def pair(name, s):
    """two contexts of one configuration advanced in turns; each must go as it goes alone"""
    ev = s['events']
    res = {}

    def advance(order, reps):
        cs = {}
        for r in reps:
            solver, c = build(name, r)
            solver.conv = solver.getConvection(P.convection)
            cs[r] = [c, solver.getintegrator(c.dU, c.u, solver, c), P.t, P.dt, P.tstep]
        out = {r: [] for r in reps}
        for r in order:
            c, f, P.t, P.dt, P.tstep = cs[r]
            _, nxt, took = f()
            cs[r][2:] = [P.t + took, nxt, P.tstep + 1]
            out[r] += [nxt, took] + [float(np.sqrt((abs(v) ** 2).sum())) for v in state(c)] + [float(abs(v).max()) for v in state(c)]
            out[r] += [x for v in state(c) for z in v.ravel()[::max(1, v.size // 20)] for x in (z.real, z.imag)]
        return out

    def rec(out):
        for r in sorted(out):
            ev.append({'op': 'obs', 'cls': 'in-turns', 'what': 'context %d' % r, 'v': [rl(out[r])]})

    def go():
        ev.append({'op': 'begin'})
        o = advance([0] * 4, [0])
        o.update(advance([5] * 4, [5]))
        rec(o)
        ev.append({'op': 'end'})
        ev.append({'op': 'begin'})
        rec(advance([0, 5, 5, 0, 0, 5, 0, 5], [0, 5]))
        ev.append({'op': 'end'})
    attempt(ev, go, 'pair')


def new(problem, name, key):
    s = {'name': name, 'problem': problem, 'key': key, 'cfg': {'tol': '1e-12'}, 'events': []}
    scen.append(s)
    return s


if ARGS[0] == 'alone':
    if ARGS[1] in CONF:
        observe(ARGS[1], new(ARGS[1], 'alone', 'alone:' + ARGS[1]))
elif ARGS[0] == 'pair':
    if ARGS[1] in CONF:
        pair(ARGS[1], new('pair ' + ARGS[1], 'in turns', 'pair:' + ARGS[1]))
else:
    scripts = json.load(open(ARGS[1]))[int(ARGS[2])::int(ARGS[3])]
    past = []
    for sc in scripts:
        for o in sc:
            name = NAMES[(o['c'] - 1) % len(NAMES)]
            if o['use'] == 'run' and not o['v']:
                observe(name, new(name, 'after %s' % ', '.join(past[-4:]), 'session:' + name))
            else:
                s = new('use', '%s %s' % (o['use'], name), 'use:' + name)
                use(o['use'], name, s, o['v'])
                if not s['events']:
                    scen.remove(s)
            past.append('%s %s%s' % (o['use'], name, "'" * o['v']))
save(scen)
