"""Drives the periodic solvers.  args: what(rhs|get|run) solver optimization precision configs..."""
from dlib import *
what, solvername, opt, prec = ARGS[:4]
part = int(ARGS[4]) if len(ARGS) > 4 else 0
rng = random.Random('%s-%s-%s-%s-%s-%s' % (SEED, what, solvername, opt, prec, part))
from spectralDNS import config, get_solver, solve
dim = 2 if solvername in ('NS2D', 'Bq2D') else 3
mesh = 'doublyperiodic' if dim == 2 else 'triplyperiodic'
quiet()
args = ['--optimization', opt] if opt != 'none' else []
args += ['--precision', prec]
config.update({'verbose': False}, mesh)
getattr(config, mesh).add_argument('--N', default=[4] * dim, nargs=dim)
forms = {'NS': ['Standard', 'Divergence', 'Skewed', 'Vortex'], 'MHD': ['Divergence']}.get(solvername, ['Vortex'])
solver = None
# one step integrators are run for their own sake in other properties; here they carry the solver


def setup(N, L, dealias, mask, form, extra=()):
    a = list(args)
    a += ['--N'] + [str(n) for n in N] + ['--L'] + [str(l) for l in L]
    a += ['--dealias', dealias, '--convection', form]
    a += ['--mask_nyquist' if mask else '--no-mask_nyquist']
    a += list(extra) + [solvername]
    return get_solver(mesh=mesh, parse_args=a)


def ks_of(L):
    out = []
    for l in L:
        l = eval(str(l), {'pi': np.pi})
        out.append(hx(2 * np.pi / l))
    return out


def as3(x):
    return list(x) if len(x) == 3 else [x[0], 1, x[1]]


def grid3(N, L):
    k = ks_of(L)
    return as3(N), (k if len(k) == 3 else [k[0], '1', k[1]])


def ncomp():
    return {'NS': 3, 'VV': 3, 'MHD': 6, 'NS2D': 2, 'Bq2D': 3}[solvername]


def fields(N, L, nm, solen, case=None):
    nc = ncomp()
    f = [rand_field(N, rng, nm, amp=16) for _ in range(nc)]
    Lf = [eval(str(l), {'pi': np.pi}) for l in L]
    blocks = {'NS': [(0, 3)], 'VV': [(0, 3)], 'MHD': [(0, 3), (3, 6)], 'NS2D': [(0, 2)], 'Bq2D': [(0, 2)]}[solvername]
    if solen:
        for s in blocks:
            f[s[0]:s[1]] = solenoidal(f[s[0]:s[1]], N, Lf)
    if case is not None:
        s = blocks[case[0]]
        f[s[0]:s[1]] = special(f[s[0]:s[1]], N, Lf, rng, case[1])
    elif not what.startswith('cons') and rng.random() < 0.3:       # (rates of conserved quantities are judged by the size of the tendency, which may vanish)
        for s in rng.sample(blocks, rng.randint(1, len(blocks))):
            f[s[0]:s[1]] = special(f[s[0]:s[1]], N, Lf, rng)
    if solvername == 'VV':
        for g in f:
            g[(0,) * dim] = 0
    return f


CASES = [(b, k) for k in specials(dim) for b in range(2 if solvername == 'MHD' else 1)]
ALLOPT = ('none', 'cython', 'numba', 'pythran')
LCH = ['2*pi', '2*pi', 'pi', '4*pi', 3.0, '2*pi/3', 5.5]


def config_list(n):
    """n diverse configurations"""
    out = []
    d3 = [(4, 6, 5), (6, 4, 4), (4, 4, 6), (5, 4, 6), (6, 5, 4), (4, 4, 4), (3, 6, 4), (6, 6, 6)]
    d2 = [(8, 6), (6, 8), (7, 8), (8, 9), (12, 4), (4, 12), (9, 9), (8, 8)]
    dl = ['3/2-rule', '2/3-rule', 'None']
    shift = rng.randrange(100)
    if what.startswith('cons'):
        for j in range(n):
            deal = '3/2-rule' if what == 'cons' else dl[(j + shift) % 3]
            form = forms[(j + shift) % len(forms)]
            mask = prec == 'double' and rng.random() < 0.6
            N = rng.choice([(8, 8, 8), (8, 6, 10), (6, 12, 8), (10, 8, 6)] if dim == 3 else [(16, 16), (20, 12), (12, 24), (18, 14)])
            if not mask:
                N = tuple(n - 1 for n in N)
            out.append((N, [rng.choice(LCH) for _ in range(dim)], deal, mask, form))
        return out
    for j in range(n):
        # every form meets every dealiasing rule in turn
        form = forms[(j + shift) % len(forms)]
        deal = dl[(j // len(forms) + shift) % 3]
        N = (d3 if dim == 3 else d2)[rng.randrange(8)]
        if deal == '2/3-rule':      # sizes that leave something after truncation
            N = rng.choice([(6, 8, 6), (8, 6, 6), (6, 7, 8), (9, 6, 6)] if dim == 3 else [(9, 12), (12, 8), (10, 9), (12, 12)])
        L = [rng.choice(LCH) for _ in range(dim)]
        mask = rng.random() < 0.7 and prec == 'double'
        if what != 'rhs':       # the products of Nyquist modes are not specified, so a run must not create any
            mask = prec == 'double'
            if not mask:
                N = tuple(n + 1 - n % 2 for n in N)
        out.append((N, L, deal, mask, form))
    return out


def num(vals):
    return rng.choice(vals)


def state(context):
    u = context.u
    return [np.array(u[i]) for i in range(ncomp())]


def main():
    scen = []
    nconf = {'rhs': 6, 'get': 3, 'run': 3, 'cons': 6, 'consrun': 4}[what] * (4 if THOROUGH else 1)
    if solvername == 'NS' and what == 'rhs':
        nconf *= 2
    for (N, L, deal, mask, form) in config_list(nconf):
        n3, ks3 = grid3(N, L)
        key = '%s:%s:%s:%s:%s' % (solvername, form, opt, prec, deal)
        ev = []
        sc = {'name': '%s N=%s L=%s mask=%s' % (key, N, L, mask), 'key': '%s:%s:%s' % (solvername, opt, prec), 'events': ev,
              'cfg': {'solver': solvername, 'form': form, 'mask': mask, 'n': n3, 'ks': ks3, 'dealias': deal,
                      'tol': '1e-10' if prec == 'double' else '1e-4'}}
        scen.append(sc)

        def params(**kw):
            for k, v in kw.items():
                setattr(config.params, k, v)
            g = lambda k, d: hx(getattr(config.params, k)) if k in config.params else d
            ev.append({'op': 'params', 'nu': g('nu', '1'), 'eta': g('eta', '1'), 'Ri': g('Ri', '1'), 'Pr': g('Pr', '1')})

        def newpars():
            p = {'nu': num([0.5, 0.125, 0.0, 2.0, 0.01])}
            if solvername == 'MHD':
                p['eta'] = num([0.25, 0.75, 1.5, 0.0])
            if solvername == 'Bq2D':
                p['Ri'] = num([0.5, 2.0, -0.25])
                p['Pr'] = num([0.5, 2.0, 0.7])
            return p

        def go():
            global solver
            extra = []
            integ = 'RK4'
            if what == 'run':
                integ = rng.choice(['RK4', 'RK4', 'AB2', 'ForwardEuler'])
                extra = ['--integrator', integ]
            solver = setup(N, L, deal, mask, form, extra)
            c = solver.get_context()
            solver.conv = solver.getConvection(config.params.convection)
            ev.append({'op': 'context'})
            params(**newpars())
            full = n3[0] * n3[1] * n3[2]
            nm = 24 if dim == 3 else 30

            def put(f):
                for j in range(ncomp()):
                    c.u[j] = f[j]

            def source():
                if solvername not in ('NS', 'VV', 'NS2D'):
                    return
                f = [rand_field(N, rng, 8) for _ in range(dim)]
                b = (ALLOPT.index(opt) + 4 * (prec == 'single') + 5 * len(scen)) % (2 ** dim)
                f = [g * (b >> i & 1) for i, g in enumerate(f)]
                for j in range(dim):
                    c.Source[j] = f[j]
                ev.append({'op': 'source', 'f': [cx(g) for g in np.asarray(c.Source)]})

            rhs = c.dU

            def evalrhs(f, dirty=False):
                put(f)
                if dirty:
                    rhs[:] = 7.25
                before = [cx(x) for x in state(c)]
                u_in = c.u
                if rng.random() < 0.5:          # integrators pass stage states that are not context.u
                    u_in = c.u.copy()
                    for j in range(ncomp()):
                        c.u[j] = 0
                r = solver.ComputeRHS(rhs, u_in, solver, **c)
                e = {'op': 'rhs', 'u': before, 'out': [cx(r[j]) for j in range(ncomp())],
                     'after': [cx(u_in[j]) for j in range(ncomp())], 'inplace': bool(np.shares_memory(r, rhs))}
                if 'P_hat' in c:
                    e['p'] = cx(c.P_hat)
                ev.append(e)

            def get(name, fn):
                before = [cx(x) for x in state(c)]
                out = fn()
                out = np.asarray(out)
                comps = [rl(out)] if out.ndim == dim else [rl(o) for o in out]
                ev.append({'op': 'get', 'what': name, 'u': before, 'out': comps, 'after': [cx(x) for x in state(c)]})

            if what == 'rhs':
                f = fields(N, L, nm, rng.random() < 0.5)
                evalrhs(f)
                case = CASES[(ALLOPT.index(opt) + 4 * (prec == 'single') + 5 * len(scen)) % len(CASES)]
                evalrhs(fields(N, L, nm, True, case))
                if form != 'Standard' or THOROUGH or rng.random() < 0.5:
                    source()
                    params(**newpars())
                    g = fields(N, L, nm, rng.random() < 0.3)
                    evalrhs(g, True)
                    if rng.random() < 0.4:
                        evalrhs(f, True)
            elif what == 'cons':
                for k in range(4):
                    if k % 2 == 0:
                        params(**dict(newpars(), **({'nu': 0.0, 'eta': 0.0} if k == 0 else {})))
                    evalrhs(fields(N, L, rng.choice([40, 200, None]), True), k == 3)
            elif what == 'consrun':
                visc = rng.choice([0.0, 0.05, 0.05])
                if visc:
                    params(nu=visc)
                else:
                    params(nu=0.0)
                if solvername == 'MHD':
                    params(eta=visc)
                f = fields(N, L, 40, True)
                # speeds of order one
                top = max(1e-9, max(abs(g).sum() for g in f))
                put([g / top for g in f])
                # well inside the stability region of the integrator, for diffusion and for advection
                wave = [(float.fromhex(k) if 'x' in k else float(k)) * (n // 2) for k, n in zip(ks3, n3)]
                k2 = sum(w * w for w in wave)
                dt = 0.0625
                while dt * visc * 2 * k2 > 0.5 or dt * k2 ** 0.5 * ncomp() > 1.0:
                    dt /= 2
                nst = 4
                config.params.dt, config.params.T, config.params.t, config.params.tstep = dt, dt * nst, 0.0, 0
                dec = bool(visc)
                snap = lambda: ev.append({'op': 'state', 'u': [cx(x) for x in state(c)], 'decays': dec and deal == '3/2-rule',
                                          'mean': solvername != 'Bq2D'})
                ev.append({'op': 'run'})
                snap()
                solver.update = lambda ctx: snap()
                solve(solver, c)
            elif what == 'get':
                getters(c, put, evalrhs, get, ev, N, L)
            elif what == 'run':
                if solvername != 'MHD' and rng.random() < 0.7:
                    source()
                put(fields(N, L, 12, True))
                dt = rng.choice([0.02, 0.0625, 0.01])
                nst = 2 if integ == 'RK4' else 3
                config.params.dt, config.params.T, config.params.t, config.params.tstep = dt, dt * nst, 0.0, 0
                if solvername in ('NS', 'NS2D') and rng.random() < 0.3:
                    config.params.write_result = 1
                hist = [[cx(x) for x in state(c)]]
                solver.update = lambda ctx: hist.append([cx(x) for x in state(ctx)])
                c.hdf5file.filename = 'run%d' % len(scen)
                ev.append({'op': 'run'})
                solve(solver, c)
                config.params.write_result = int(1e8)
                for a, b in zip(hist, hist[1:]):
                    ev.append({'op': 'step', 'integrator': integ, 'dt': hx(config.params.dt), 'u0': a, 'u1': b})
                if len(hist) != nst + 1:
                    ev.append({'op': 'raised', 'what': 'number-of-steps'})

        attempt(ev, go, what)
    save(scen)


def getters(c, put, evalrhs, get, ev, N, L):
    names = {'NS': ['velocity', 'curl', 'divergence', 'pressure', 'set'],
             'VV': ['velocity', 'curl', 'divergence'],
             'MHD': ['divergence', 'all'],
             'NS2D': ['velocity', 'curl', 'divergence', 'pressure', 'set'],
             'Bq2D': ['velocity', 'curl', 'divergence', 'density', 'all', 'pressure']}[solvername]
    fn = {'velocity': lambda: solver.get_velocity(**c), 'curl': lambda: solver.get_curl(**c),
          'divergence': lambda: solver.get_divergence(**c), 'pressure': lambda: solver.get_pressure(**c),
          'density': lambda: solver.get_rho(**c)}
    if solvername == 'MHD':
        def allf():
            c.hdf5file.update_components(**c)
            return c.UB
        fn['all'] = allf
    if solvername == 'Bq2D':
        fn['all'] = lambda: solver.get_Ur(**c)
    have_rhs = False
    for rnd in range(2):
        put(fields(N, L, 20, rng.random() < 0.5))
        order = list(names)
        rng.shuffle(order)
        if solvername == 'VV':      # accessors must not disturb one another
            order += ['divergence', 'velocity', 'curl']
        for nme in order:
            if rng.random() < 0.25 or (nme == 'pressure' and not have_rhs):
                f = fields(N, L, 16, rng.random() < 0.5)
                evalrhs(f)
                have_rhs = True
                put(fields(N, L, 20, rng.random() < 0.5))
            if nme == 'set':
                X = np.random.RandomState(rng.randrange(1 << 30))
                # physical values without Nyquist content
                f = [rand_field(N, rng, 20) for _ in range(dim)]
                ph = [np.fft.irfftn(g, s=N, axes=range(dim)) * np.prod(N) for g in f]
                for j in range(dim):
                    c.U[j] = ph[j]
                r = solver.set_velocity(**c)
                ev.append({'op': 'set', 'phys': [rl(p) for p in ph], 'out': [cx(c.U_hat[j]) for j in range(dim)]})
            else:
                get(nme, fn[nme])


main()
