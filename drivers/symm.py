"""A run and its images under symmetries of the equations.   args: solver decomposition part   (on any number of processes)"""
from dlib import *
import chan
from chan import gather_at, comm, rank, size, P
from spectralDNS import config, get_solver, solve
from shenfun import Function
name, dec, part = ARGS[:3]
rng = random.Random('symm-%s-%s-%s-%s-%d' % (SEED, name, dec, part, size))
quiet()
CH = name in ('KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB')
RBS = name in chan.RB
TWO = name in ('NS2D', 'Bq2D')
if not CH:
    par = config.doublyperiodic if TWO else config.triplyperiodic
    par.add_argument('--N', default=[8, 8] if TWO else [8, 8, 8], nargs=2 if TWO else 3)
    config.update({'verbose': False}, 'doublyperiodic' if TWO else 'triplyperiodic')
ax = chan.axes(name) if CH else ((None, 0, 1) if TWO else (0, 1, 2))      # position of the directions <<1, 2, 3>> of the specification
wall = ax[0]
scen = []
BIG = int(1e8)


def kinds():
    v = [{'axis': a, 'axial': name == 'VV', 'power': 1, 'flip': 0, 'set': 1} for a in ((2, 3) if TWO else (1, 2, 3))]
    if name == 'MHD':
        v += [dict(x, set=2) for x in v]
    if name == 'Bq2D':
        v.append({'axis': 0, 'axial': False, 'power': 2, 'flip': 3, 'set': 1})
    if RBS:
        v.append({'axis': 0, 'axial': False, 'power': 0, 'flip': 0, 'set': 1})
    return v


def move(f, n, t):
    """physical values on the mesh n (axes 1, 2, 3) -> values of the transformed scalar"""
    p = t['perm']
    f = np.transpose(f, [p[i] - 1 for i in range(3)])
    for i in range(3):
        if t['sgn'][i] == -1 and f.shape[i] > 1:
            f = np.roll(np.flip(f, i), 1, i)
        f = np.roll(f, t['quarter'][i] * (f.shape[i] // 4) if t['quarter'][i] else 0, i)
    return f


def image(vel, n, t, mirror_wall=True):
    """vel: components (axes 1, 2, 3) of a vector, each [layers] of half spectra on n; independent of the specification: in physical space"""
    p = t['perm']
    out = []
    for i in range(len(vel)):
        a = i if len(vel) == 1 else p[i] - 1
        o = []
        for l, f in enumerate(vel[a]):
            g = move(np.fft.irfftn(f, s=n) * np.prod(n), n, t)
            if len(vel) > 1:
                g = g * t['sgn'][i] * float(t['scale'])
            if t['sgn'][0] == -1 and l % 2 and len(vel[a]) > 1:
                g = -g
            o.append(np.fft.rfftn(g) / g.size)
        out.append(o)
    return out


def transformations(n, L, adaptive, exchange, sourced):
    r = []
    for _ in range(3 if not THOROUGH else 6):
        t = {'perm': [1, 2, 3], 'sgn': [1, 1, 1], 'quarter': [0, 0, 0], 'scale': '1'}
        if exchange and not adaptive and rng.random() < 0.7:
            if CH or TWO:
                t['perm'] = [1, 3, 2]
            else:
                t['perm'] = rng.choice([[1, 3, 2], [3, 2, 1], [2, 1, 3], [2, 3, 1], [3, 1, 2]])
        m = [n[t['perm'][i] - 1] for i in range(3)]
        for i in range(3):
            if TWO and i == 0 or RBS and i == 0:
                continue
            if sourced and CH and i == 1:
                continue                                    # the pressure gradient has a direction
            if rng.random() < 0.5:
                t['sgn'][i] = -1
        for i in range(3):
            if m[i] > 1 and m[i] % 4 == 0:
                t['quarter'][i] = rng.randint(0, 3)
        if not adaptive and not RBS and rng.random() < 0.5:
            t['scale'] = rng.choice(['2', '0.5', '4'])
        r.append(t)
    return r


def put(fun, comps, T=None):
    """comps in the order of the axes 1, 2, 3: [layers] of spectra -> the distributed arrays"""
    s = (T or fun.function_space()).local_slice(True)
    for j in range(len(comps)):
        i = ax[j] if CH else j
        put1(fun[i], comps[j], s)


def put1(fun, layers, s):
    f = np.moveaxis(np.array(layers)[:, 0], 0, wall) if CH else (layers[0][0] if TWO else layers[0])
    fun[:] = 0
    full = f[tuple(s)]
    fun[tuple(slice(0, m) for m in full.shape)] = full


def take(fun, T):
    """the whole of a scalar: [layers] of spectra on (n1, n2, n3)"""
    f = gather_at(np.asarray(fun), T.local_slice(True), comm)
    if f is None:
        return None
    if CH:
        f = np.moveaxis(f, wall, 0)
        return [x[None] for x in f]
    return [f[None] if TWO else f]


def curl(v, K):
    a = [x[0] for x in v]
    return [[1j * (K[1] * a[2] - K[2] * a[1])], [1j * (K[2] * a[0] - K[0] * a[2])], [1j * (K[0] * a[1] - K[1] * a[0])]]


def problem(k):
    ev = []
    mesh = [(8, 8), (8, 12), (12, 8), (6, 8), (10, 6)] if size == 1 else [(8, 8)]
    adaptive, integ, form, deal = False, '', 'Vortex', rng.choice(['3/2-rule', '2/3-rule', 'None'])
    sourced = rng.random() < 0.5
    if CH:
        W = rng.choice([14, 16])
        n = (1,) + rng.choice([(4, 4), (4, 6), (6, 8), (8, 6)] if size == 1 else [(8, 8)])
        form = rng.choice(['Vortex', 'Standard', 'Divergence', 'Skew'] if name in ('KMM', 'KMMRK3', 'Coupled', 'CoupledRK3') else ['Vortex'])
        quad = rng.choice(['GC', 'GL']) if name not in chan.COUPLED else 'GC'
    elif TWO:
        n = (1,) + rng.choice(mesh)
    else:
        n = rng.choice([(8, 8, 8), (4, 6, 8), (8, 4, 6), (6, 8, 4), (8, 6, 4)] if size == 1 else [(8, 8, 8)])
    if not CH:
        integ = rng.choice(['RK4', 'AB2', 'BS5_fixed', 'ForwardEuler', 'BS5_adaptive'])
        adaptive = integ == 'BS5_adaptive'
        form = {'NS': rng.choice(['Standard', 'Divergence', 'Skewed', 'Vortex']), 'MHD': 'Divergence'}.get(name, 'Vortex')
    L = [2.0 if (CH and i == 0) else rng.choice([2 * np.pi, np.pi, 4.0, 3.0]) for i in range(3)]
    nu, dt = rng.choice([0.125, 0.0625]), rng.choice([0.03125, 0.015625])
    # shenfun's 2/3-rule leaves a direction of fewer than six points alone, unless it is the one transformed last
    small = deal == '2/3-rule' and 4 in n
    exchange = name != 'Bq2D' and not (CH and sourced and not RBS) and not small
    s = {'name': 'symmetry %s np=%d %s n=%s L=%s %s %s %s%s' % (name, size, dec, n, [round(x, 3) for x in L], form, deal, integ, ' source' if sourced else ''),
         'key': 'symm-%s-np%d-%s' % (name, size, dec), 'events': ev,
         'cfg': {'n': list(n), 'kinds': kinds(), 'tol': '1e-10' if CH else '1e-11'}}
    scen.append(s)
    # the original
    if CH:
        v0 = []
        for _ in range(3):
            f = chan.rand_chan((W,) + n[1:], rng, 4, 1, 5, 0)
            v0.append([x[None] for x in f])
        v0 = [[np.array(x) for x in f] for f in v0]
        if rng.random() < 0.4:
            for a in (1, 2):                                # mean flows of one sign
                for x in v0[a]:
                    x[0, 0, 0] = rng.choice([-1, -1, 0]) * abs(x[0, 0, 0]) if a == 2 else abs(x[0, 0, 0])
            v0[2][0][0, 0, 0] = -rng.choice([0.25, 1.])
        if rng.random() < 0.4:
            for a in rng.sample(range(3), rng.randint(1, 2)):
                v0[a] = [x * 0 for x in v0[a]]
        temp = chan.rand_chan((W,) + n[1:], rng, 4, 1, 4, 0)
        temp[-2:] = 0
        temp[-2, 0, 0] = 1
        temp = [[x[None] for x in temp]]
    else:
        d = 2 if TWO else 3
        nn = n[-d:]
        fs = solenoidal([rand_field(nn, rng, 14, mean=name != 'VV', amp=6) for _ in range(d)], nn, L[-d:])
        gs = solenoidal([rand_field(nn, rng, 10, amp=6) for _ in range(d)], nn, L[-d:])
        q = solenoidal([rand_field(nn, rng, 4, mean=False, amp=6) for _ in range(d)], nn, L[-d:])
        if rng.random() < 0.4:
            fs = special(fs, nn, L[-d:], rng)
        if rng.random() < 0.4:
            gs = special(gs, nn, L[-d:], rng)
        if rng.random() < 0.5:
            q = special(q, nn, L[-d:], rng)
        if name == 'VV':
            for f in fs:
                f[(0,) * d] = 0
        rho = rand_field(nn, rng, 10, amp=6)
        w3 = lambda f: [[x[None] if TWO else x] for x in f]
        v0, b0, q0, temp = w3(fs), w3(gs), w3(q), w3([rho])
    ts = [{'perm': [1, 2, 3], 'sgn': [1, 1, 1], 'quarter': [0, 0, 0], 'scale': '1'}] + transformations(n, L, adaptive, exchange, sourced)
    for j, t in enumerate(ts):
        p, sc = t['perm'], float(t['scale'])
        m = tuple(n[p[i] - 1] for i in range(3))
        Lm = [L[p[i] - 1] for i in range(3)]
        if j and rank == 0:
            ev.append({'op': 'end'})
        ev.append({'op': 'begin', 'tr': t, 'n': list(m)})

        def go():
            if CH:
                channelrun(t, m, Lm, sc, v0, temp, n, W, nu, dt, quad, form, deal, sourced, ev)
            else:
                periodic(t, m, Lm, sc, v0, b0, q0, temp, n, nu, dt, integ, form, deal, sourced, adaptive, ev)
        if not attempt(ev, go, 'run'):
            break
        if j == len(ts) - 1:
            ev.append({'op': 'end'})
    if rank != 0:
        ev[:] = []


def steps(solver, c, ev, T, fields):
    cnt = [0]

    def look(_=None):
        u = [take(f, S) for f, S in fields()]
        if rank == 0:
            ev.append({'op': 'state', 'step': cnt[0], 't': hx(P.t), 'u': [[cx(l) for l in f] for f in u]})
        cnt[0] += 1
    solver.update = look
    solver.regression_test = lambda c: None
    solver.additional_callback = lambda c: None
    P.write_result = P.checkpoint = BIG
    P.t, P.tstep, P.T = 0.0, 0, T
    look()
    solve(solver, c)
    return cnt[0]


def periodic(t, m, Lm, sc, v0, b0, q0, temp, n, nu, dt, integ, form, deal, sourced, adaptive, ev):
    d = 2 if TWO else 3
    args = ['--N'] + [str(x) for x in m[-d:]] + ['--L'] + [repr(float(x)) for x in Lm[-d:]] + ['--dealias', deal, '--integrator', integ, '--convection', form]
    args += ['--nu', repr(nu * sc), '--dt', repr(dt / sc), '--TOL', '1e-3', '--decomposition', dec, name]
    opts = {'MHD': ['--eta', repr(nu / 2 * sc)], 'Bq2D': ['--Ri', '0.5', '--Pr', '2.0']}.get(name, [])
    solver = get_solver(mesh='doublyperiodic' if TWO else 'triplyperiodic', parse_args=args + opts)
    c = solver.get_context()
    full = lambda v: [[np.zeros((1,) + v[0][0].shape[1:], complex)]] + v if TWO else v
    tr = lambda v: image(full(v), n, t)[-d:]
    v = tr(v0)
    if name == 'NS':
        put(c.U_hat, v, c.T)
        if sourced:
            put(c.Source, [[x * sc for x in f] for f in tr(q0)], c.T)
        fields = lambda: [(c.U_hat[i], c.T) for i in range(3)]
    elif name == 'NS2D':
        put(c.U_hat, v, c.T)
        fields = lambda: [(c.U_hat[i], c.T) for i in range(2)]
    elif name == 'Bq2D':
        put(c.Ur_hat, v, c.T)
        q = image(temp, n, t)[0]
        f = (-1 if t['sgn'][2] == -1 else 1) * sc * sc
        put1(c.Ur_hat[2], [x * f for x in q], c.T.local_slice(True))
        fields = lambda: [(c.Ur_hat[i], c.T) for i in range(3)]
    elif name == 'MHD':
        put(c.UB_hat, v + tr(b0), c.T)
        fields = lambda: [(c.UB_hat[i], c.T) for i in range(6)]
    else:
        put(c.W_hat, curl(v, wavenumbers(m, Lm)), c.T)
        put(c.U_hat, v, c.T)
        fields = lambda: [(c.W_hat[i], c.T) for i in range(3)]
    steps(solver, c, ev, 4 * dt / sc if not adaptive else 0.2, fields)


def channelrun(t, m, Lm, sc, v0, temp, n, W, nu, dt, quad, form, deal, sourced, ev):
    N, LL = [0, 0, 0], [0, 0, 0]
    for i in range(3):
        N[ax[i]] = W if i == 0 else m[i]
        LL[ax[i]] = 2 if i == 0 else repr(float(Lm[i]))
    solver = chan.setup(name, N, LL, quad=quad, dealias=deal, conv=form, nu=nu * sc, dt=dt / sc, kappa=0.125, extra=('--decomposition', dec))
    c = solver.get_context()
    c.U_hat[:] = 0
    put(c.U_hat, image(v0, n, t), c.FST)
    if name not in chan.COUPLED:
        c.g[:] = 1j * c.K[ax[1]] * c.U_hat[ax[2]] - 1j * c.K[ax[2]] * c.U_hat[ax[1]]
    if RBS:
        put1(c.phi_hat, image(temp, n, t)[0], c.FRB.local_slice(True))
        for nm in ('phi_hat0', 'phi_hat1'):
            if nm in c:
                c[nm][:] = c.phi_hat
    if sourced and not RBS and rank == 0:
        c.Sk[ax[1], 0, 0, 0] = -0.5 * sc * sc
    if 'UP_hat0' in c:
        c.UP_hat0[:] = c.UP_hat
    elif 'U_hat0' in c:
        c.U_hat0[:] = c.U_hat
    if 'H_hat1' in c:
        d = dict(c)
        d['H_hat'] = Function(c.H_hat.function_space())
        c.H_hat1[:] = solver.get_convection(**d)
    fields = lambda: [(c.U_hat[ax[i]], c.FST) for i in range(3)] + ([(c.phi_hat, c.FRB)] if RBS else [])
    steps(solver, c, ev, 3 * dt / sc, fields)


for k in range((3 if CH else 4) if not THOROUGH else 10):
    problem(k)
save(scen, rank)
