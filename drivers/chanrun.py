"""Drives the channel solvers.  args: what(conv|run) solver optimization part"""
from dlib import *
import chan
from chan import setup, axes, rand_chan, P
from spectralDNS import solve
what, name, opt = ARGS[:3]
part = ARGS[3] if len(ARGS) > 3 else '0'
rng = random.Random('%s-%s-%s-%s-%s' % (SEED, what, 'any' if what == 'rot' else name, opt, part))
from shenfun import Function
import hashlib, json
quiet()
ax = axes(name)
wall = ax[0]
LCH = ['2*pi', '2*pi', 'pi', '4*pi', 3.0, '2*pi/3', 5.5]
COUPLED = name in chan.COUPLED
RB = name in chan.RB


def rec(f):
    """one scalar spectral field: modes x wall-normal coefficients"""
    f = np.moveaxis(np.asarray(f), wall, -1)
    return [[[hx(z.real), hx(z.imag)] for z in row] for row in f.reshape(-1, f.shape[-1])]


def recv(u):
    return [rec(u[i]) for i in ax]


def dcoef(c):
    """Chebyshev coefficients (last axis, vanishing at the walls) -> Dirichlet coefficients"""
    a = np.zeros_like(c)
    for m in range(c.shape[-1] - 2):
        a[..., m] = c[..., m] + (a[..., m - 2] if m >= 2 else 0)
    return a


def bcheb(b):
    c = np.zeros_like(b)
    M = b.shape[-1]
    for k in range(M - 4):
        c[..., k] += b[..., k]
        c[..., k + 2] -= 2. * (k + 2) / (k + 3) * b[..., k]
        c[..., k + 4] += (k + 1.) / (k + 3) * b[..., k]
    return c


def velocity(n, K1, K2, amp, solen):
    """n = (M, n1, n2).  Components <<wall, stream, span>> with the wall-normal axis last"""
    def f(drop):
        return np.moveaxis(rand_chan(n, rng, drop, amp, 5, 0), 0, -1)
    u = f(4)
    if not solen:
        w = [u, f(2), f(2)]
        if COUPLED:
            w[0] = f(2)
        return some(w, rng)
    g = f(2)
    if COUPLED:
        u = f(2)
    u, g = some([u, g], rng)
    u[0, 0] = 0
    v0, w0 = f(2)[0, 0], f(2)[0, 0]
    fd = dcoef(np.polynomial.chebyshev.chebder(np.concatenate([bcheb(u), 0 * u[..., :1]], -1), axis=-1))
    K22 = np.where(K1 * K1 + K2 * K2 == 0, 1, K1 * K1 + K2 * K2)[..., None]
    a, b = K1[..., None], K2[..., None]
    v = 1j * (a * fd + b * g) / K22
    w = 1j * (b * fd - a * g) / K22
    v0, w0 = some([v0, w0], rng)
    if rng.random() < 0.3:
        v0, w0 = abs(v0), -abs(w0)
    v[0, 0], w[0, 0] = v0.real + amp * np.r_[rng.randint(-9, 9) / 8., np.zeros(n[0] - 1)], w0.real
    return [u, v, w]


def temperature(N, amp):
    t = rand_chan(N, rng, 2, amp, 5, 0)
    t[-2:] = 0
    t[-2, 0, 0] = 1.
    return t


def load(c, vel):
    for j, i in enumerate(ax):
        c.U_hat[i] = np.moveaxis(vel[j], -1, wall)


def setg(c, K1, K2):
    if COUPLED:
        return
    s, t = c.U_hat[ax[1]], c.U_hat[ax[2]]
    k1, k2 = c.K[ax[1]], c.K[ax[2]]
    c.g[:] = 1j * k1 * t - 1j * k2 * s


def convection(c, solver, fresh=True):
    d = dict(c)
    d['H_hat'] = Function(c.H_hat.function_space())
    return solver.get_convection(**d)


def stepev(c):
    e = {'op': 'step', 'u': recv(c.U_hat)}
    if COUPLED:
        e['p'] = rec(c.P_hat)
    else:
        e['g'] = rec(c.g)
    if RB:
        e['p'] = rec(c.phi_hat)
    return e


def rotated(solver, c, ev):
    """observations in the order <<wall, stream, span>>, wall-normal axis last"""
    def obs(w, v, cls):
        ev.append({'op': 'obs', 'what': w, 'cls': cls, 'v': v})

    def turn(a):
        return np.moveaxis(np.asarray(a), wall, -1)

    def noq(h):
        """the modes of H that enter the equations"""
        h = np.array(h)
        for j in ax[1:]:
            if P.N[j] % 2 == 0:
                s = [slice(None)] * 4
                s[j + 1] = P.N[j] // 2
                h[tuple(s)] = 0
        return recv(h)

    def fields(tag):
        obs(tag + ' velocity', rl(np.array([turn(solver.get_velocity(**c)[i]) for i in ax])), 'velocity')
        curl = np.zeros_like(c.u_dealias)
        w = solver.get_curl(curl, **c)
        obs(tag + ' curl', rl(np.array([turn(w[i]) for i in ax])), 'curl')
        obs(tag + ' divergence', rl(turn(solver.get_divergence(**c))), 'divergence')
        d = solver.compute_derivatives(**c)
        obs(tag + ' gradient', rl(np.array([[turn(d[i, j]) for j in ax] for i in ax])), 'gradient')
        if P.convection in ('Vortex', 'Standard') or all(P.N[j] % 2 for j in ax[1:]):    # no Nyquist modes of products
            obs(tag + ' pressure', rl(turn(solver.get_pressure(c, solver))), 'pressure')
    if rng.random() < 0.5:
        x = np.asarray(c.FST.mesh()[wall]).ravel()
        sh = [1, 1, 1]
        sh[wall] = -1
        c.Source[ax[1]] = (-P.nu + 0.25 * x * x).reshape(sh)
        c.Sk[ax[1]] = c.FST.scalar_product(c.Source[ax[1]], c.Sk[ax[1]])
    c.U_hat0[:] = c.U_hat
    H = solver.get_convection(**c)
    c.H_hat1[:] = H
    obs('first convection', noq(H), 'convection')
    fields('first')
    P.t, P.tstep, P.T = 0.0, 0, 3 * P.dt

    def update(ctx):
        tag = 'step %d' % P.tstep
        obs(tag + ' coefficients', recv(ctx.U_hat), 'coefficients')
        obs(tag + ' vorticity', rec(ctx.g), 'wall-normal-vorticity')
        fields(tag)
    solver.update = update
    solve(solver, c)
    obs('last convection', noq(solver.get_convection(**c)), 'convection')


def phys(a):
    a = np.moveaxis(np.asarray(a), wall, 0)
    return [rl(x) for x in a.reshape(a.shape[0], -1)]


def state(c):
    s = [recv(c.U_hat)]
    for k in ('g', 'P_hat', 'H_hat', 'H_hat1', 'U_hat0', 'UP_hat0', 'phi_hat', 'phi_hat0', 'phi_hat1', 'N_hat', 'N_hat0'):
        if k in c:
            s.append([hx(x) for x in np.asarray(c[k]).view(float).ravel()])
    return hashlib.sha1(json.dumps(s).encode()).hexdigest()


def getters(c, solver):
    """accessors by name; each returns its field(s) as physical values in canonical order"""
    def velocity():
        u = solver.get_velocity(**c)
        return [phys(u[i]) for i in ax]

    def curl():
        w = solver.get_curl(np.zeros_like(c.u_dealias), **c)
        return [phys(w[i]) for i in ax]

    def divergence():
        return [phys(solver.get_divergence(**c))]

    def gradient():
        d = solver.compute_derivatives(**c)
        return [phys(d[i, j]) for i in ax for j in ax]

    def pressure():
        solver.get_pressure(c, solver)
    out = {'velocity': velocity, 'divergence': divergence}
    if not COUPLED:
        out['curl'] = curl
        out['gradient'] = gradient
        if 'U_hat0' in c and name not in chan.RB:
            out['pressure'] = pressure
    return out


def accessors(c, solver, ev):
    """all accessors in some order, some twice"""
    gs = getters(c, solver)
    names = list(gs) + rng.sample(list(gs), 1)
    rng.shuffle(names)
    for w in names:
        u, before = recv(c.U_hat), state(c)
        try:
            out = gs[w]()
        except Exception as x:
            ev.append({'op': 'raised', 'what': 'get-%s-%s' % (w, type(x).__name__)})
            continue
        if w != 'pressure':
            ev.append({'op': 'get', 'what': w, 'u': u, 'out': out, 'before': before, 'after': state(c)})
        elif before != state(c):
            ev.append({'op': 'raised', 'what': 'get-pressure-modifies-state'})


def stored(c, ev):
    """the fields in the results file"""
    import h5py
    u, before = recv(c.U_hat), state(c)
    c.hdf5file.filename = 'chan%d' % len(ev)
    c.U[:] = 9          # what was computed before must not be stored
    P.write_result, P.checkpoint, P.tstep = 1, 1000, 3
    c.hdf5file.update(P, **c)
    c.hdf5file.close()
    with h5py.File('chan%d_w.h5' % len(ev), 'r') as f:
        out = [phys(f['U%d/3D/3' % i][:]) for i in ax]
        if RB:
            ev.append({'op': 'get', 'what': 'temperature', 'u': rec(c.phi_hat), 'out': [phys(f['phi/3D/3'][:])], 'before': before, 'after': state(c)})
    ev.append({'op': 'get', 'what': 'stored', 'u': u, 'out': out, 'before': before, 'after': state(c)})


def pressure(c, solver, ev):
    u, u0, before = recv(c.U_hat), recv(c.U_hat0), state(c)
    p = solver.get_pressure(c, solver)
    ev.append({'op': 'pressure', 'u': u, 'u0': u0, 'out': phys(p), 'before': before, 'after': state(c)})


def configs(n):
    out = []
    shift = rng.randrange(100)
    forms = ['Vortex', 'Standard', 'Divergence', 'Skew'] if what in ('conv', 'rot', 'get', 'press') else ['Vortex', 'Standard', 'Vortex', 'Divergence']
    for j in range(n):
        form = forms[(j + shift) % len(forms)]
        deal = ['3/2-rule', '2/3-rule', 'None'][(j + j // len(forms) + shift // 4) % 3] if what in ('conv', 'rot', 'get', 'press') else rng.choice(['3/2-rule', '3/2-rule', '2/3-rule', 'None'])
        quad = rng.choice(['GC', 'GL'])
        M = rng.choice([10, 11, 12]) if COUPLED else rng.choice([14, 16])
        a, b = rng.choice([(6, 4), (4, 6), (5, 4), (4, 4), (5, 5), (4, 5)])
        if deal == '2/3-rule':
            a, b = rng.choice([(6, 6), (6, 8), (7, 6)])
        L = [2, rng.choice(LCH), rng.choice(LCH)]
        mask = rng.random() < 0.75
        if what == 'press':
            a, b = rng.choice([(7, 7), (9, 7), (7, 9)] if deal == '2/3-rule' else [(5, 5), (7, 5), (5, 7)])
        elif what != 'conv' and not mask:
            a, b = a + 1 - a % 2, b + 1 - b % 2
        out.append(((M, a, b), L, quad, deal, mask, form))
    return out


def main():
    scen = []
    nconf = {'conv': 6, 'run': 3, 'rot': 4, 'get': 4, 'file': 2, 'press': 3}[what] * (3 if THOROUGH else 1)
    for (n, L, quad, deal, mask, form) in configs(nconf):
        N, LL = [0] * 3, [0] * 3
        for j, i in enumerate(ax):
            N[i], LL[i] = n[j], L[j]
        Lf = [eval(str(l), {'pi': np.pi}) for l in L]
        nu = rng.choice([0.0625, 0.01, 0.3, 0.002])
        kappa = rng.choice([0.125, 0.02, 0.5])
        dt = rng.choice([0.01, 0.0625, 0.002, 0.03125])
        ev = []
        scheme = 'RK3' if 'RK3' in name else 'AB'
        key = '%s:%s:%s' % (name, opt, form)
        scen.append({'name': '%s %s %s n=%s L=%s mask=%s nu=%s dt=%s kappa=%s' % (key, quad, deal, n, L, mask, nu, dt, kappa), 'key': key, 'events': ev,
                     'cfg': {'n': n, 'ks': [hx(2 * np.pi / Lf[1]), hx(2 * np.pi / Lf[2])], 'quad': quad, 'form': form, 'mask': mask,
                             'dealias': deal, 'wall': 'D' if COUPLED else 'B', 'scheme': scheme, 'rb': RB, 'kappa': hx(kappa), 'nu': hx(nu), 'dt': hx(dt), 'tol': '1e-9'}})

        def go():
            solver = setup(name, N, LL, quad, deal, mask, form, nu=nu, dt=dt, kappa=kappa, global_args=() if opt == 'none' else ('--optimization', opt))
            c = solver.get_context()
            solver.conv = solver.getConvection(P.convection)
            K1 = np.moveaxis(np.broadcast_to(c.K[ax[1]], c.U_hat[0].shape), wall, -1)[..., 0]
            K2 = np.moveaxis(np.broadcast_to(c.K[ax[2]], c.U_hat[0].shape), wall, -1)[..., 0]
            ev.append({'op': 'context'})
            if what == 'conv':
                for rep in range(2):
                    load(c, velocity(n, K1, K2, rng.choice([0.1, 1., 4.]), rep == 1))
                    if 'g' in c:
                        setg(c, K1, K2)
                    before = recv(c.U_hat)
                    H = convection(c, solver) if rng.random() < 0.5 else solver.get_convection(**c)
                    ev.append({'op': 'conv', 'u': before, 'out': recv(H), 'after': recv(c.U_hat)})
                return
            load(c, velocity(n, K1, K2, rng.choice([0.1, 0.5]), True))
            setg(c, K1, K2)
            if what == 'file':
                if RB:
                    c.phi_hat[:] = temperature(N, 0.5)
                    c.phi[:] = 9
                stored(c, ev)
                return
            if what == 'get':
                if RB:
                    c.phi_hat[:] = temperature(N, 0.5)
                for rep in range(2):
                    accessors(c, solver, ev)
                    if not rep:
                        stored(c, ev)
                    load(c, velocity(n, K1, K2, rng.choice([0.1, 1., 4.]), not COUPLED))
                    setg(c, K1, K2)
                    u = recv(c.U_hat)
                    solver.get_velocity(**c)
                    c.U_hat[:] = 7
                    solver.set_velocity(**c)
                    ev.append({'op': 'set', 'u': u, 'out': recv(c.U_hat)})
                return
            if what == 'rot':
                return rotated(solver, c, ev)
            if what == 'press':
                # of two velocities, and of the velocities of a run from within its steps
                c.U_hat0[:] = c.U_hat
                load(c, velocity(n, K1, K2, rng.choice([0.1, 1.]), True))
                setg(c, K1, K2)
                pressure(c, solver, ev)
                c.U_hat0[:] = c.U_hat
                c.H_hat1[:] = solver.get_convection(**c)
                P.t, P.tstep, P.T = 0.0, 0, 2 * dt
                solver.update = lambda ctx: pressure(ctx, solver, ev)
                solve(solver, c)
                if sum(e['op'] == 'pressure' for e in ev) != 3:
                    ev.append({'op': 'raised', 'what': 'number-of-pressures'})
                return
            prev = recv(c.U_hat)
            if scheme == 'AB':
                if COUPLED:
                    c.UP_hat0[:] = c.UP_hat
                else:
                    c.U_hat0[:] = c.U_hat
                if rng.random() < 0.6:      # an earlier solution that differs, as after a restart
                    keep = np.array(c.U_hat), None if COUPLED else np.array(c.g)
                    load(c, velocity(n, K1, K2, 0.3, True))
                    setg(c, K1, K2)
                    prev = recv(c.U_hat)
                    c.H_hat1[:] = solver.get_convection(**c)
                    c.U_hat[:] = keep[0]
                    if not COUPLED:
                        c.g[:] = keep[1]
                else:
                    c.H_hat1[:] = solver.get_convection(**c)
            ev0 = {}
            if RB:
                c.phi_hat[:] = temperature(N, rng.choice([0.5, 0.5, 0]))
                ev0 = {'p': rec(c.phi_hat), 'pprev': rec(c.phi_hat)}
                if scheme == 'AB':
                    c.U_hat0[:] = c.U_hat
                    c.phi_hat0[:] = c.phi_hat
                    c.phi_hat1[:] = temperature(N, 0.5) if rng.random() < 0.6 else c.phi_hat
                    ev0['pprev'] = rec(c.phi_hat1)
            source = []
            if rng.random() < 0.8:
                x = np.asarray(c.FST.mesh()[wall]).ravel()
                s = -2. * nu + rng.choice([0, 0.25, -1]) * x * x
                sh = [1, 1, 1]
                sh[wall] = -1
                c.Source[ax[1]] = s.reshape(sh)
                c.Sk[ax[1]] = c.FST.scalar_product(c.Source[ax[1]], c.Sk[ax[1]])
                source = rl(s)
            ev.append(dict({'op': 'run', 'u': recv(c.U_hat), 'prev': prev, 'source': source}, **ev0))
            nst = 3 if scheme == 'AB' else 2
            P.t, P.tstep, P.T = 0.0, rng.choice([0, 7]), dt * nst
            look = part.startswith('get')

            def update(ctx):
                ev.append(stepev(ctx))
                if look:
                    ex = []
                    accessors(ctx, solver, ex)
                    ev.extend(e for e in ex if e['op'] == 'raised')
                    bad = [e for e in ex if e['op'] == 'get' and e['before'] != e['after']]
                    ev.extend({'op': 'raised', 'what': 'get-%s-modifies-state' % e['what']} for e in bad)
            solver.update = update
            solve(solver, c)
            if sum(e['op'] == 'step' for e in ev) != nst:
                ev.append({'op': 'raised', 'what': 'number-of-steps'})
        if what == 'rot':
            scen[-1].update(problem=scen[-1]['name'].split(':', 1)[1], cfg={'tol': '1e-9'})
            ev.append({'op': 'begin'})
        attempt(ev, go, what)
        if what == 'rot':
            ev[:] = [e for e in ev if e['op'] != 'context'] + [{'op': 'end'}]
    save(scen)


main()
