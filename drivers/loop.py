"""Replays scripted runs (generated by TLC from LoopModel) through spectralDNS.solve, and records real
adaptive runs.  args: scripts.json | 'adaptive'"""
from dlib import *
from spectralDNS import config, get_solver, solve
rng = random.Random('loop-%s' % SEED)
quiet()
config.update({'verbose': False}, 'triplyperiodic')
config.triplyperiodic.add_argument('--N', default=[4, 4, 4], nargs=3)
scen = []
P = config.params


class Out(object):
    """stands for the output files: records that it is called, and with what"""
    def __init__(self, ev, sol):
        self.ev, self.sol = ev, sol

    def update(self, params, **kw):
        self.ev.append({'op': 'output', 't': hx(params.t), 'tstep': int(params.tstep), 'sol': self.sol()})

    def close(self):
        self.ev.append({'op': 'close'})


def begin(ev):
    ev.append({'op': 'begin', 't': hx(P.t), 'dt': hx(P.dt), 'T': hx(P.T), 'tstep': int(P.tstep)})


def end(ev):
    ev.append({'op': 'return', 't': hx(P.t), 'dt': hx(P.dt), 'tstep': int(P.tstep)})


def scripted(scripts):
    solver = get_solver(mesh='triplyperiodic', parse_args=['NS'])
    ctx = solver.get_context()
    ctx.pop('hdf5file')
    for k, sc in enumerate(scripts):
        unit = [0.0625, 0.1, 0.01][k % 3]
        ev = []
        s = {'name': 'script %d unit %s %s' % (k, unit, json.dumps(sc)), 'key': 'loop:scripted', 'events': ev, 'cfg': {'land': False, 'hook': False}}
        scen.append(s)

        def go():
            P.t, P.dt, P.T, P.tstep = sc['t'] * unit, sc['dt'] * unit, sc['T'] * unit, sc['tstep']
            P.make_profile = k % 7 == 3
            ctx.u[:] = 0
            sol = lambda: int(round(float(np.real(ctx.u[0].flat[0]))))
            ctx['hdf5file'] = Out(ev, sol)
            n = [0]

            def getintegrator(rhs, u, slv, c):
                def f():
                    j = n[0]
                    if j >= len(sc['steps']):
                        raise RuntimeError('more steps than the script has')
                    n[0] += 1
                    if ev and ev[-1]['op'] == 'integrate-':
                        raise RuntimeError('unexpected')
                    st = sc['steps'][j]
                    u[:] = j + 1
                    ev.append({'op': 'integrate', 'dt': hx(P.dt), 'next': hx(st['next'] * unit), 'took': hx(st['took'] * unit), 'sol': j + 1})
                    return u, st['next'] * unit, st['took'] * unit
                return f

            def update(c):
                ev.append({'op': 'update', 't': hx(P.t), 'tstep': int(P.tstep), 'sol': sol()})

            def endhook(c):
                st = sc['steps'][n[0] - 1]
                P.dt = st['newdt'] * unit
                ev.append({'op': 'endhook', 't': hx(P.t), 'tstep': int(P.tstep), 'ret': bool(st['stop']), 'newdt': hx(P.dt)})
                return bool(st['stop'])

            def regression(c):
                ev.append({'op': 'regression', 't': hx(P.t), 'tstep': int(P.tstep), 'sol': sol()})
            solver.getintegrator, solver.update, solver.end_of_tstep, solver.regression_test = getintegrator, update, endhook, regression
            begin(ev)
            solve(solver, ctx)
            end(ev)
        ok = attempt(ev, go, 'solve')
        # the time shown after each step is that of the next recorded event
        for a, b in zip(ev, ev[1:]):
            if a['op'] == 'integrate':
                a['shown'] = b.get('t', hx(P.t))
        if ev and ev[-1]['op'] == 'integrate':
            ev[-1]['shown'] = hx(P.t)


def real(nrun):
    """Real runs: real integrator, end-of-step hook and output files"""
    landing = []                    # end times near the end of a step, also where rounding errors have piled up
    for i, (dt0, n) in enumerate([(0.1, 10), (0.1, 3), (0.03, 10), (0.07, 5), (0.01, 20), (0.1, 7)] + ([(0.013, 40), (0.1, 30), (0.0625, 4)] if THOROUGH else [])):
        for j, off in enumerate([0, 4e-13, -4e-13, 3e-12, -3e-12, 1e-11, -1e-11, 1e-9, -1e-9, 1e-5, -1e-5, 0.3 * dt0, -0.003 * dt0]):
            if THOROUGH or j == 0 or (i + j) % 3 == 0:
                landing.append((dt0, n * dt0 + off))
    for k in range(nrun + len(landing)):
        ev = []
        integ = rng.choice(['BS5_adaptive', 'RK4', 'AB2', 'BS5_fixed']) if k else 'BS5_adaptive'
        name = rng.choice(['NS', 'VV'])
        T = rng.choice([0.5, 0.3, 0.07, 1.0, 0.05])
        dt0 = rng.choice([0.1, 0.05, 0.03, 0.013, 0.07])
        tol = rng.choice([1e-2, 1e-4, 1e-6])
        t0 = rng.choice([0.0, 0.0, 0.2])
        if rng.random() < 0.15:
            T = dt0 * 0.5           # no step fits
        if k and rng.random() < 0.6 and integ != 'BS5_adaptive':        # just before and just after a step's end
            T = dt0 * rng.choice([1, 2, 5]) + rng.choice([4e-13, -4e-13, 3e-12, -3e-12, 1e-11, -1e-11, 1e-9, -1e-9])
        if k >= nrun:
            dt0, T = landing[k - nrun]
            integ = ['RK4', 'ForwardEuler', 'AB2', 'BS5_fixed'][k % 4]
            name = ['NS', 'VV', 'MHD'][k % 3]
        T += t0
        s = {'name': 'real %s %s t0=%s T=%s dt=%s TOL=%s' % (name, integ, t0, T, dt0, tol), 'key': 'loop:real:%s' % integ, 'events': ev, 'cfg': {'land': T - t0 >= dt0, 'hook': True}}
        scen.append(s)

        def go():
            solver = get_solver(mesh='triplyperiodic', parse_args=['--integrator', integ, '--convection', 'Divergence' if name == 'MHD' else 'Vortex', name])
            ctx = solver.get_context()
            fs = solenoidal([rand_field((4, 4, 4), rng, 10) for _ in range(3)], (4, 4, 4), [2 * np.pi] * 3)
            u = ctx.u
            for j in range(3):
                u[j] = fs[j]
            P.t, P.dt, P.T, P.tstep, P.TOL, P.nu = t0, dt0, T, rng.choice([0, 0, 4]), tol, rng.choice([0.01, 0.1])
            P.make_profile = 0
            ctx.hdf5file.filename = 'real%d' % k
            n = [0]
            gi = type(solver).__getattribute__(solver, 'getintegrator')

            def getintegrator(*a):
                f = gi(*a)

                def g():
                    dt_in = P.dt
                    if n[0] >= 600:
                        raise RuntimeError('the run does not end')
                    u, nxt, took = f()
                    n[0] += 1
                    ev.append({'op': 'integrate', 'dt': hx(dt_in), 'next': hx(nxt), 'took': hx(took), 'sol': n[0]})
                    return u, nxt, took
                return g
            hook = solver.end_of_tstep
            upd = ctx.hdf5file.update
            cls = ctx.hdf5file.close

            def endhook(c):
                t, was = hx(P.t), hx(P.dt)
                r = hook(c)
                ev.append({'op': 'endhook', 't': t, 'was': was, 'tstep': int(P.tstep), 'ret': bool(r), 'newdt': hx(P.dt)})
                return r

            def output(params, **kw):
                ev.append({'op': 'output', 't': hx(P.t), 'tstep': int(P.tstep), 'sol': n[0]})
                upd(params, **kw)

            def close():
                cls()
                ev.append({'op': 'close'})
            ctx.hdf5file.update, ctx.hdf5file.close = output, close
            saved = solver.getintegrator, solver.end_of_tstep, solver.update, solver.regression_test
            solver.getintegrator, solver.end_of_tstep = getintegrator, endhook
            solver.update = lambda c: ev.append({'op': 'update', 't': hx(P.t), 'tstep': int(P.tstep), 'sol': n[0]})
            solver.regression_test = lambda c: ev.append({'op': 'regression', 't': hx(P.t), 'tstep': int(P.tstep), 'sol': n[0]})
            begin(ev)
            try:
                solve(solver, ctx)
            finally:
                solver.getintegrator, solver.end_of_tstep, solver.update, solver.regression_test = saved
            end(ev)
        attempt(ev, go, 'solve')
        for a, b in zip(ev, ev[1:]):
            if a['op'] == 'integrate':
                a['shown'] = b.get('t', hx(P.t))
        if ev and ev[-1]['op'] == 'integrate':
            ev[-1]['shown'] = hx(P.t)


if ARGS[0] == 'real':
    real(60 if THOROUGH else 20)
else:
    scripted(json.load(open(ARGS[0])))
save(scen)
