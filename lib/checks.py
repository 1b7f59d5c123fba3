"""The check of every property: which real executions are recorded and which specification judges them."""
import random
from vf import CheckError



def claim(technique, note):
    def deco(fn):
        fn.technique, fn.note = technique, note
        return fn
    return deco


TV = 'trace validation with TLC: recorded executions of the real code checked against a TLA+ specification (%s)'
FLOWNOTE = ('Every recorded evaluation is recomputed by TLC in exact rational arithmetic from the convolution definition of the '
            'pseudo-spectral product; bounded to small meshes and sampled inputs. Nyquist modes of products are not compared under the 3/2-rule without mask.')


def flow(ctx, what, jobs):
    js = []
    for j in jobs:
        js.append(('flow', (what,) + tuple(j), {'key': ':'.join(str(x) for x in j[:3])}))
    return ctx.drive_many(js)



CHANNELS = ('KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB')
ALLOPT = ('none', 'cython', 'numba', 'pythran')


@claim(TV % 'Fourier, Flow, FlowTrace', FLOWNOTE)
def P08(ctx):
    jobs = [('NS', o, 'double') for o in ALLOPT] + [('NS', 'cython', 'single')]
    sc = flow(ctx, 'rhs', jobs) + flow(ctx, 'run', [('NS', 'none', 'double'), ('NS', 'cython', 'double')])
    ctx.trace('FlowTrace', sc)


@claim(TV % 'Fourier, Flow, FlowTrace', FLOWNOTE)
def P09(ctx):
    sc = flow(ctx, 'rhs', [('VV', o, 'double') for o in ALLOPT] + [('VV', 'numba', 'single')]) + flow(ctx, 'run', [('VV', 'none', 'double')])
    ctx.trace('FlowTrace', sc)


@claim(TV % 'Fourier, Flow, FlowTrace', FLOWNOTE)
def P10(ctx):
    sc = flow(ctx, 'rhs', [('MHD', o, 'double') for o in ALLOPT] + [('MHD', 'pythran', 'single')]) + flow(ctx, 'run', [('MHD', 'none', 'double')])
    ctx.trace('FlowTrace', sc)


@claim(TV % 'Fourier, Flow, FlowTrace', FLOWNOTE)
def P11(ctx):
    sc = flow(ctx, 'rhs', [('NS2D', o, 'double') for o in ALLOPT] + [('NS2D', 'cython', 'single')]) + flow(ctx, 'run', [('NS2D', 'none', 'double')])
    ctx.trace('FlowTrace', sc)


@claim(TV % 'Fourier, Flow, FlowTrace', FLOWNOTE)
def P12(ctx):
    sc = flow(ctx, 'rhs', [('Bq2D', o, 'double') for o in ALLOPT] + [('Bq2D', 'none', 'single')]) + flow(ctx, 'run', [('Bq2D', 'none', 'double')])
    ctx.trace('FlowTrace', sc)


@claim(TV % 'Fourier, Flow, FlowTrace', FLOWNOTE)
def P13(ctx):
    sc = flow(ctx, 'get', [(s, 'none', 'double') for s in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D')])
    ctx.trace('FlowTrace', sc)


@claim(TV % 'Integrators, IntegTrace', 'The real integrators are driven with arbitrary recorded tendencies; TLC recomputes every stage and result from the tableaux in exact arithmetic. Bounded to short runs on small meshes, every optimisation mode, precision and dimension offered.')
def P03(ctx):
    jobs = [('integ', (d, o, p, 0), {'key': '%sD:%s:%s' % (d, o, p)}) for d in (2, 3) for o in ALLOPT for p in ('double', 'single')]
    ctx.trace('IntegTrace', ctx.drive_many(jobs))


@claim('exhaustive TLC exploration of the loop specification (Loop, LoopModel); every explored run replayed into solve() and checked by trace validation (LoopTrace)',
       'The loop is explored exhaustively over small integer times; all complete behaviours of the generator configuration are replayed through the real solve() in three time units, and real runs are validated too. Floating point comparisons within 1e-14 of the 1e-12 boundary follow exact arithmetic.')
def P01(ctx):
    ctx.model('LoopModel')
    scripts = ctx.scripts('LoopModel', 'LoopGen.cfg')
    sc = ctx.drive_many([('loop', (ctx.file('scripts.json', scripts),), {'key': 'loop:scripted'}), ('loop', ('real',), {'key': 'loop:real'})])
    ctx.trace('LoopTrace', sc)


@claim(TV % 'Integrators, IntegTrace, Loop, LoopTrace', 'TLC recomputes every trial step, its error estimate and the resulting decision and step size exactly (square and fifth roots are compared as powers); on 1 to 3 processes. The end of real runs with adaptive and fixed-step integrators is judged step by step, for end times on, just before and just after the end of a step.')
def P02(ctx):
    jobs = [('integ', (d, o, 'double', 1), {'key': 'adaptive:%sD:%s' % (d, o)}) for d in (2, 3) for o in ('none', 'numba')]
    jobs += [('integ', (3, 'none', 'double', 1), {'key': 'adaptive:3D:none:np%d' % n, 'np': n}) for n in (2, 3)]
    ctx.trace('IntegTrace', ctx.drive_many(jobs, workers=5))
    ctx.trace('LoopTrace', ctx.drive('loop', 'real', key='loop:real'))


@claim('exhaustive TLC exploration of the kill protocol (Kill); every explored outcome replayed into real MPI runs and checked by trace validation (KillTrace)',
       'All interleavings of 1 to 4 processes looking for the file are explored in the model; every distinct outcome (who sees the file at which step) is replayed with real mpirun processes, real output files and a real kill file whose visibility is scheduled.')
def P06(ctx):
    jobs = []
    for n in (1, 2, 3, 4):
        scripts = ctx.scripts('Kill', 'Kill%d.cfg' % n)
        if n == 4 and not ctx.thorough:
            scripts = scripts[ctx.seed % 3::3]
        scripts.append({'step': 0, 'saw': [False] * n})
        jobs.append(('kill', (ctx.file('kill%d.json' % n, scripts),), {'np': n, 'key': 'kill:np%d' % n, 'timeout': 200}))
    ctx.trace('KillTrace', ctx.drive_many(jobs, workers=3))


@claim('exhaustive TLC exploration of the output specification (Output, OutputModel); explored histories of runs replayed into the code with real files and checked by trace validation (OutputTrace)',
       'All histories of two runs over the same files (intervals, file modes, starting steps) are explored in the model; a seeded sample is replayed for every solver, on 1, 2 and 4 processes. The data stored by the channel solvers is compared on states of its own (ChannelTrace).')
def P05(ctx):
    ctx.model('OutputModel')
    import random
    scripts = ctx.scripts('OutputModel', 'OutputGen.cfg')
    rng = random.Random(ctx.seed)
    jobs = []

    def add(s, np, k, *a):
        k *= 4 if ctx.thorough else 1
        jobs.append(('outp', (ctx.file('o%d.json' % len(jobs), rng.sample(scripts, k)), s) + a, {'np': np, 'key': 'output:%s:np%d' % (s, np or 1), 'timeout': 300}))
    for s in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D'):
        add(s, 0, 14)
    for s in ('KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB'):
        add(s, 0, 8)
    add('NS', 2, 6)
    add('VV', 4, 4, 'pencil')
    add('KMM', 2, 4)
    # what the program itself chose to store: more fields, slices, its own preparation
    for s, np, dec in (('NS', 0, 'slab'), ('VV', 0, 'slab'), ('NS2D', 0, 'slab'), ('NS', 3, 'slab'), ('VV', 4, 'pencil'), ('NS2D', 2, 'slab')):
        jobs.append(('fields', (s, dec), {'np': np, 'key': 'output:fields:%s' % s}))
    ctx.trace('OutputTrace', ctx.drive_many(jobs, workers=6))
    ctx.trace('ChannelTrace', channel(ctx, 'file', [(s, 'none') for s in CHANNELS]))


def together(scen, prefix=''):
    """scenarios of several executions of one problem become one: the executions in sequence"""
    out = {}
    for s in scen:
        p = s['problem']
        if p not in out:
            out[p] = {'name': p, 'key': s['key'], 'events': [], 'cfg': s['cfg'], 'parts': []}
        out[p]['parts'].append((len(out[p]['events']), s['name']))
        out[p]['events'] += s['events']
    return list(out.values())


@claim(TV % 'Same', 'Each problem (solver, mesh, form, integrator) is executed on 1 to 4 processes with slab and pencil decomposition; every observation (right-hand side, solution after each step, derived fields, integrals, times, file contents) must be the same function of the problem.')
def P16(ctx):
    jobs = []
    for s in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D', 'KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB'):
        confs = [(0, 'slab'), (2, 'slab'), (4, 'slab')]
        if s not in ('NS2D', 'Bq2D'):
            confs += [(4, 'pencil')]
        if s in ('NS', 'NS2D'):
            confs += [(3, 'slab')]
        for n, d in confs:
            jobs.append(('par', (s, d, 'mpi'), {'np': n, 'key': 'mpi:%s:np%d:%s' % (s, n or 1, d), 'timeout': 300}))
    sc = ctx.drive_many(jobs, workers=3)
    ctx.trace('Same', together(sc))


@claim(TV % 'Same', 'A run, and runs continued from its checkpoint file in a new process, observe the same times, step counters and solutions; continuations with another step counter (and, for the two-step explicit scheme, all continuations among themselves) agree too. Every solver, every integrator.')
def P04(ctx):
    import os
    names = ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D', 'KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB')
    d = {}
    for s in names:
        d[s] = os.path.join(ctx.scratch, 'ck_' + s)
        os.makedirs(d[s])
    first = ctx.drive_many([('restart', ('first', s, d[s]), {'key': 'restart:%s' % s}) for s in names])
    rest = {ph: ctx.drive_many([('restart', (ph, s, d[s]), {'key': 'restart:%s' % s}) for s in names]) for ph in ('again', 'zero')}
    import copy
    # the explicit two-step scheme restarts with its first-step formula, so only the continuations agree
    sc = together([s for s in first if s['integ'] != 'AB2'] + [s for s in rest['again'] if s['integ'] != 'AB2'])
    bare = copy.deepcopy(rest['again'])
    for s in bare:
        s['events'] = [e for e in s['events'] if e.get('cls') != 'time']
    zero = together(bare + rest['zero'])
    for s in zero:
        s['key'] += ':counter'
    # continued by the loaders of the demo programs (the one of MKM leaves the time to the user)
    demos = ('KMM', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB')
    demo = together([s for s in copy.deepcopy(first) if s['key'].split(':')[1] in demos]
                    + ctx.drive_many([('restart', ('demo', s, d[s]), {'key': 'restart:%s' % s}) for s in demos]))
    for s in demo:
        s['key'] += ':demo'
    ctx.trace('Same', sc + zero + demo)


@claim(TV % 'Kernels, Same', 'Every pointwise routine that has accelerated versions is called in every mode and precision with arbitrary arrays, including sizes of one and zero and negative wavenumbers, and TLC recomputes it at every point; whole problems must observe the same in every mode.')
def P15(ctx):
    jobs = []
    for s in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D', 'KMM', 'KMMRK3', 'KMMr', 'Coupled'):
        for o in ALLOPT:
            for p in ('double', 'single') if s in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D') else ('double',):
                jobs.append(('kern', (s, o, p), {'key': 'kernel:%s:%s:%s' % (s, o, p)}))
    ctx.trace('Kernels', ctx.drive_many(jobs))
    jobs = []
    for s in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D', 'KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3', 'KMM_RB', 'KMMRK3_RB'):
        for o in ALLOPT:
            jobs.append(('par', (s, 'slab', 'optimization', o), {'key': 'optimization:%s:%s' % (s, o)}))
    ctx.trace('Same', together(ctx.drive_many(jobs)))


CHNOTE = ('TLC recomputes every step of real runs in exact rational arithmetic from Galerkin matrices built from the basis polynomials; bounded to '
          'meshes of up to 16 wall-normal points and a few Fourier modes, two or three steps per run, sampled states and parameters.')


def channel(ctx, what, jobs, timeout=300):
    js = [('chanrun', (what,) + tuple(j), {'key': ':'.join(str(x) for x in j[:2]), 'timeout': timeout}) for j in jobs]
    return ctx.drive_many(js)


@claim(TV % 'Channel, ChannelTrace', CHNOTE)
def P17(ctx):
    ctx.trace('ChannelTrace', channel(ctx, 'run', [('KMM', o, str(i)) for o in ALLOPT for i in range(2 if o == 'none' else 1)]))


@claim(TV % 'Channel, ChannelTrace', CHNOTE)
def P18(ctx):
    ctx.trace('ChannelTrace', channel(ctx, 'run', [('KMMRK3', o, str(i)) for o in ALLOPT for i in range(2 if o == 'none' else 1)]))


@claim(TV % 'Channel, ChannelTrace', 'TLC recomputes the convection point by point with exact (padded) convolutions and projects it with exact Galerkin matrices. Bounded to small meshes and sampled states; Nyquist modes are not compared.')
def P19(ctx):
    jobs = [(s, 'none') for s in ('KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3')] + [(s, o) for s in ('KMM', 'KMMr', 'Coupled') for o in ALLOPT[1:]]
    ctx.trace('ChannelTrace', channel(ctx, 'conv', jobs))


@claim(TV % 'Same, Channel, ChannelTrace', CHNOTE + ' The rotated solver and the wall-normal-first solver also run the same problems and must observe the same.')
def P20(ctx):
    parts = [('none', '0'), ('none', '1'), ('cython', '0'), ('numba', '0')]
    ctx.trace('Same', together(channel(ctx, 'rot', [(s, o, i) for s in ('KMM', 'KMMr') for o, i in parts])))
    ctx.trace('ChannelTrace', channel(ctx, 'run', [('KMMr', o) for o in ALLOPT]))


@claim(TV % 'Channel, ChannelTrace', CHNOTE + ' The coupled system of every wavenumber is solved exactly by TLC.')
def P21(ctx):
    ctx.trace('ChannelTrace', channel(ctx, 'run', [('Coupled', o, str(i)) for o in ALLOPT for i in range(2 if o == 'none' else 1)] + [('CoupledRK3', 'none', '0'), ('CoupledRK3', 'none', '1')]))


@claim(TV % 'Channel, ChannelTrace', 'TLC evaluates the exact derivatives of the recorded coefficients on the mesh (or padded mesh) and compares accessors and results files with them; and runs in which every accessor is called after every step must still be the runs of the step equations. Bounded to small meshes and sampled states.')
def P25(ctx):
    all5 = ('KMM', 'KMMRK3', 'KMMr', 'Coupled', 'CoupledRK3')
    sc = channel(ctx, 'get', [(s, 'none') for s in all5] + [(s, 'none') for s in ('KMM_RB', 'KMMRK3_RB')] + [('KMM', 'cython'), ('KMMr', 'numba')])
    sc += channel(ctx, 'run', [(s, 'none', 'get') for s in all5 + ('KMM_RB', 'KMMRK3_RB')])
    ctx.trace('ChannelTrace', sc)


@claim(TV % 'Channel, ChannelTrace', CHNOTE)
def P22(ctx):
    jobs = [(s, o, str(i)) for s in ('KMM_RB', 'KMMRK3_RB') for o in ALLOPT for i in range(2 if o == 'none' else 1)]
    ctx.trace('ChannelTrace', channel(ctx, 'run', jobs))


@claim(TV % 'Channel, Operators', 'TLC builds the Galerkin matrices exactly from the basis polynomials (Chebyshev expansions, differentiation matrix, quadrature norms) and applies them to the recorded columns. Sizes 9 to about 24 (thorough: to 47), every axis, both quadratures.')
def P24(ctx):
    ctx.trace('Operators', ctx.drive_many([('oper', (q,), {'key': 'operators-' + q}) for q in ('GC', 'GL')]))


@claim(TV % 'Channel, Integral', 'TLC derives the exact weights of the points from the interpolating polynomial (whose exactness for every resolved degree it checks first) and integrates the recorded field with them. Sizes 8 to 19, both quadratures, every axis, 1 to 4 processes.')
def P23(ctx):
    jobs = [('dxint', (q, d), {'key': 'integral-' + q, 'np': n}) for q in ('GC', 'GL') for d, n in (('slab', 1), ('slab', 2), ('slab', 4), ('pencil', 4), ('pencil', 3))]
    ctx.trace('Integral', ctx.drive_many(jobs))


@claim(TV % 'Fourier, Flow, Conserve, ConserveTrace, ConserveModel', 'TLC evaluates the balances (momentum, divergence, energy, cross helicity, density and enstrophy) of recorded tendencies and states exactly, and proves on 2240 states in exact arithmetic that the specified right-hand sides conserve them. Bounded to small meshes, sampled states and runs of a few steps.')
def P14(ctx):
    solvers = ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D')
    sc = flow(ctx, 'cons', [(s, 'none', 'double') for s in solvers] + [('NS', 'cython', 'double'), ('MHD', 'numba', 'double')])
    sc += flow(ctx, 'consrun', [(s, 'none', 'double') for s in solvers] + [('NS', 'pythran', 'double'), ('Bq2D', 'cython', 'double')])
    ctx.trace('ConserveTrace', sc)
    ctx.model('ConserveModel', 'ConserveModel')


@claim('exhaustive TLC exploration of configuration histories (Config, ConfigModel) against the rule of precedence; every history replayed into config.update, get_solver and the parameters, and checked by trace validation (ConfigTrace)',
       'All histories of 5 operations on one option in the model; all of 3 operations replayed, spread over every option of every solver with random other options alongside. Not judged: planner_effort, abbreviated options, and values the program itself sets outside the choices.')
def P07(ctx):
    ctx.model('ConfigModel')
    scripts = ctx.scripts('ConfigModel', 'ConfigGen.cfg')
    ctx.trace('ConfigTrace', ctx.drive_many([('conf', (ctx.file('scripts.json', scripts),), {'key': 'config'})]))


@claim('exhaustive TLC exploration of the timers of all processes (Timer, TimerModel) against the whole history; every run replayed through solve with a scripted clock and checked by trace validation (TimerTrace)',
       'All runs of up to 3 steps with durations 1 to 3 on 1 to 3 processes in the model (replayed: 3, 2, 1 steps); the profile is compared with the statistics of every process by functions whose name is unique in them.')
def P26(ctx):
    ctx.model('TimerModel')
    jobs = []
    for n in (1, 2, 3):
        f = ctx.file('scripts%d.json' % n, ctx.scripts('TimerModel', 'Timer%d.cfg' % n))
        jobs.append(('timing', (f, 'NS' if n != 2 else 'NS2D'), {'key': 'timing:np%d' % n, 'np': n}))
    jobs.append(('timing', (f, 'NS'), {'key': 'timing:np4', 'np': 4}))
    ctx.trace('TimerTrace', ctx.drive_many(jobs, workers=4))


@claim(TV % 'Same', 'The stand-alone programs are executions of the packaged problem: the C++ program built from the tree for 8 to 32 points on 1 to 4 processes (every energy it reports), the short Python program on 1, 2 and 4 processes and the demo written with shenfun alone on 1 and 3 (final velocity and spectrum). The right-hand side and the integrator of the packaged execution are decided by P08 and P03. Flow, viscosity, step and end time are constants of these programs.')
def P27(ctx):
    import os, subprocess
    d = os.path.join(ctx.scratch, 'cpp')
    os.makedirs(d)
    env = {k: v for k, v in ctx.env.items() if k not in ('CC', 'CXX')}
    env['FFTW3_INSTALL_DIR'] = '/usr'
    r = subprocess.run('cmake /repo/cpp && make', shell=True, cwd=d, env=env, capture_output=True, text=True)
    if r.returncode:
        raise CheckError('the C++ program does not build: ' + (r.stdout + r.stderr)[-1500:])
    binary = os.path.join(d, 'spectralDNS')
    sizes = [(3, 1), (3, 2), (3, 3), (3, 4), (4, 1), (4, 4), (5, 3)] + ([(4, 2), (4, 3), (4, 7), (5, 1), (5, 4), (6, 1), (6, 8)] if ctx.thorough else [])
    jobs = [('alone', ('pkg', 32), {'key': 'package'}), ('alone', ('pkg', 64), {'key': 'package'})]
    jobs += [('alone', ('cpp', binary, m, n), {'key': 'cpp'}) for m, n in sizes]
    jobs += [('alone', ('py',), {'np': n, 'key': 'short-program'}) for n in (0, 2, 4) + ((8,) if ctx.thorough else ())]
    jobs += [('alone', ('pkg', 64, 'None'), {'key': 'package'})] + [('alone', ('shen',), {'np': n, 'key': 'shenfun-program'}) for n in (0, 3)]
    ctx.trace('Same', together(ctx.drive_many(jobs, workers=4)))


@claim(TV % 'Channel, ChannelTrace', 'TLC derives the pressure from the exact balance of momentum of the recorded velocities and compares it, up to a constant, on the mesh. Bounded to small meshes of odd tangential sizes; pairs of velocities and the steps of short runs.')
def P28(ctx):
    ctx.trace('ChannelTrace', channel(ctx, 'press', [(s, o, str(i)) for s in ('KMM', 'KMMr') for o in ('none', 'cython') for i in range(2 if o == 'none' else 1)]))


@claim(TV % 'Statistics, StatsModel, StatsTrace', 'TLC explores every history of sampling, writing and continuing (bounded) and generates the histories replayed on the real accumulators of both demo programs, on one to four processes and both decompositions; TLC recomputes every average from the recorded fields.')
def P29(ctx):
    ctx.model('StatsModel')
    f = ctx.file('scripts.json', ctx.scripts('StatsModel', 'StatsGen.cfg'))
    jobs = []
    for demo, solvers in (('MKM', ('KMM', 'KMMRK3')), ('RayleighBenard', ('KMM_RB', 'KMMRK3_RB'))):
        for n, (np, dec) in enumerate(((0, 'slab'), (2, 'slab'), (3, 'slab'), (4, 'slab'), (3, 'pencil'), (4, 'pencil'))):
            jobs.append(('stats', (f, demo, solvers[n % 2], dec), {'np': np, 'key': 'stats:%s' % demo}))
    ctx.trace('StatsTrace', ctx.drive_many(jobs, workers=3))


@claim(TV % 'Fourier, Forcing, ForceTrace', 'TLC recomputes the scaling of the forced modes and the flux in exact arithmetic from the recorded states before and after the forcing, after every step of short runs and for arbitrary states.')
def P30(ctx):
    jobs = [('forcing', (s, dec), {'np': n, 'key': 'forcing:%s' % s}) for s in ('NS', 'VV', 'KMM', 'KMMRK3') for n, dec in ((0, 'slab'), (2, 'slab'), (4, 'pencil'))]
    ctx.trace('ForceTrace', ctx.drive_many(jobs, workers=3))


@claim(TV % 'Observe, ObserveModel, ObserveTrace', 'TLC explores every schedule of questions (derived fields, results, checkpoints) between and within the steps of a short run and generates the schedules replayed on every solver; every run must go on as the one that nobody looked at, and every question has one answer.')
def P31(ctx):
    ctx.model('ObserveModel')
    f = ctx.file('scripts.json', ctx.scripts('ObserveModel', 'ObserveGen.cfg'))
    jobs = [('observe', (f, s, 'slab'), {'key': 'observe:%s' % s}) for s in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D') + CHANNELS]
    jobs += [('observe', (f, s, dec), {'np': n, 'key': 'observe:%s' % s}) for s, n, dec in (('NS', 4, 'pencil'), ('VV', 2, 'slab'), ('KMM', 2, 'slab'), ('KMMRK3', 2, 'slab'))]
    ctx.trace('ObserveTrace', ctx.drive_many(jobs, workers=6))


SESSION = ['NS-skewed', 'NS-adaptive', 'NS-plain', 'VV-ab2', 'MHD', 'NS2D', 'Bq2D', 'KMM', 'KMMRK3', 'KMMr', 'Coupled', 'KMM_RB']


@claim('exhaustive TLC exploration of the uses of one process (Session); every explored sequence of uses executed on the real code and checked by trace validation (Same)',
       'Every pair (use, run) of twelve configurations - eleven solvers and meshes - is executed, with histories of many uses behind it; a use may be a complete run, a run left after a step, or only a context. Runs are compared with the same run alone in its process to 1e-12. Two contexts of one configuration are advanced in turns and compared with each alone. No optimisation (the optimised modules are bound to one dimension at import), one process; callbacks are set for every run.')
def P32(ctx):
    ctx.model('Session')
    scripts = ctx.scripts('Session', 'SessionDeep.cfg' if ctx.thorough else 'SessionGen.cfg')
    random.Random(1).shuffle(scripts)
    extra = ['CoupledRK3', 'KMMRK3_RB'] if ctx.thorough else []
    f = ctx.file('scripts.json', scripts)
    jobs = [('session', ('alone', c), {'key': 'alone:' + c}) for c in SESSION + extra]
    parts = 8
    late = [('session', ('script', f, str(k), str(parts)), {'key': 'session:%d' % k}) for k in range(parts)]
    pairs = [('session', ('pair', c), {'key': 'pair:' + c}) for c in SESSION + extra]
    ctx.trace('Same', together(ctx.drive_many(jobs + late + pairs)))


@claim('exhaustive TLC exploration of the equivariance of the specified right-hand sides under the generators of the group (SymModel); trace validation (TLC) of recorded runs and of their images against Symmetry, through SymTrace',
       'Transformations: every quarter translation, mirror, exchange of axes with mesh and domain, and scaling by a power of two that the solver admits (constant pressure gradient, gravity and fixed walls leave fewer; adaptive steps no scaling and no exchange). Some problems per solver with drawn form, dealiasing rule, integrator, mesh, box, data with and without source; 1 to 4 processes. Axes are not exchanged on meshes with a direction of four points under the 2/3-rule, which shenfun truncates there only in the direction it transforms last. States are compared to 1e-11 (periodic) and 1e-10 (channels) of their size.')
def P33(ctx):
    ctx.model('SymModel', 'SymModelDeep.cfg' if ctx.thorough else 'SymModel.cfg')
    jobs = [('symm', (s, 'slab', str(p)), {'key': 'symm-%s-np1' % s}) for s in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D') + CHANNELS for p in range(4 if ctx.thorough else 1)]
    some = [('NS', 4, 'pencil'), ('VV', 2, 'slab'), ('KMM', 2, 'slab'), ('CoupledRK3', 2, 'slab'), ('MHD', 2, 'slab')]
    if ctx.thorough:
        some += [('NS', 4, 'slab'), ('MHD', 4, 'pencil'), ('VV', 4, 'pencil'), ('NS2D', 4, 'slab'), ('Bq2D', 2, 'slab')] + [(s, 2, 'slab') for s in CHANNELS]
    jobs += [('symm', (s, d, 'n%d' % n), {'np': n, 'key': 'symm-%s-np%d-%s' % (s, n, d)}) for s, n, d in some]
    ctx.trace('SymTrace', ctx.drive_many(jobs))
