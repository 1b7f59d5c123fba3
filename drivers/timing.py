"""Replays scripted step durations (generated by TLC from TimerModel) through solve() with a clock of its own, on any
number of processes, with and without verbose output and profiling.   args: scripts.json solver"""
import time
CLOCK = [1000.0]
fake = lambda: CLOCK[0]
real_time = time.time
time.time = time.perf_counter = time.monotonic = time.process_time = fake
from dlib import *
import hashlib, io, re, pstats
from mpi4py import MPI
MPI.Wtime = fake
import spectralDNS
from spectralDNS import config, get_solver, solve
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
scripts = json.load(open(ARGS[0]))
solvername = ARGS[1]
rng = random.Random('timing-%s-%s' % (SEED, size))
quiet()
mesh = 'doublyperiodic' if solvername in ('NS2D', 'Bq2D') else 'triplyperiodic'
dim = 2 if mesh == 'doublyperiodic' else 3
getattr(config, mesh).add_argument('--N', default=[8] * dim, nargs=dim)
P = config.params
solver = get_solver(mesh=mesh, parse_args=[solvername])
c = solver.get_context()
U0 = np.zeros_like(c.u)
sh = U0.shape
U0[...] = np.random.RandomState(3 + rank).randint(-8, 8, sh) / 64.
solver.pressure_project = None
state = {}


def vf_probe(context):
    CLOCK[0] += state['d'].pop(0)
    state['sol'].append(hashlib.sha1(np.ascontiguousarray(context.u).tobytes()).hexdigest())


solver.update = vf_probe
scen = []


def nums(label, text):
    m = re.findall(r'%s\s*[=:]\s*(.*)' % label, text)
    return m, [hx(x) for x in re.findall(r'(?<![\w.])[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', m[0] if m else '')]


def one(ev, script, unit):
    n = len(script['steps'])
    mine = [s[rank % len(s)] * unit for s in script['steps']]
    state['d'], state['sol'] = list(mine), []
    c.u[...] = U0
    CLOCK[0] = rng.choice([0.0, 1000.25, 65536.5])
    P.t, P.tstep, P.dt, P.T, P.verbose, P.make_profile = 0.0, 0, 0.0625, 0.0625 * n, script['verbose'], int(script['profile'])
    P.write_result = P.checkpoint = int(1e8)
    ev.append({'op': 'run', 'verbose': script['verbose'], 'profile': script['profile'], 'total': hx(sum(mine))})
    for s in script['steps']:
        ev.append({'op': 'step', 'd': [hx(s[r % len(s)] * unit) for r in range(size)]})
    keep, sys.stdout = sys.stdout, io.StringIO()
    try:
        solve(solver, c)
    finally:
        text, sys.stdout = sys.stdout.getvalue(), keep
    f, fv = nums('Fastest', text)
    s, sv = nums('Slowest', text)
    t, tv = nums('Time', text)
    said = len(f) + len(s) + len(t)
    everywhere = comm.gather(said, root=0)
    try:
        st = pstats.Stats(solver.profiler).stats
    except TypeError:          # a profiler without measurements
        st = {}
    calls = comm.gather(sum(v[0] for k, v in st.items() if k[2] == 'vf_probe'), root=0)
    sols = comm.gather(state['sol'], root=0)
    res = getattr(solver, 'results', {}) if script['profile'] else {}
    names = comm.bcast(sorted(res), root=0)
    cand = comm.gather([[(hx(v[2]), hx(v[3])) for k, v in st.items() if k[2] == q] for q in names], root=0)
    if rank:
        return
    ev.append({'op': 'report', 'times': 1 if (len(f), len(s), len(t)) == (1, 1, 1) else said, 'elsewhere': sum(everywhere[1:]),
               'fastest': fv, 'slowest': sv, 'total': tv[0] if tv else '-1'})
    items = []
    for j, q in enumerate(names):
        if all(len(p[j]) == 1 for p in cand):
            items.append({'name': q, 'tot': [p[j][0][0] for p in cand], 'cum': [p[j][0][1] for p in cand], 'got': [hx(x) if x is not None else '-1' for x in res[q]]})
    ev.append({'op': 'profile', 'calls': calls, 'items': items, 'summary': bool(items)})
    ev.append({'op': 'result', 'sol': [list(x) for x in zip(*sols)]})


full = {'verbose': False, 'profile': False, 'steps': [[1] * size] * 4}
if size > 3:
    scripts = [{'verbose': True, 'profile': k % 2 == 0, 'steps': [[rng.randint(1, 9) for _ in range(size)] for _ in range(rng.randint(1, 4))]} for k in range(20)]
if THOROUGH:
    scripts = scripts + [{'verbose': k % 3 > 0, 'profile': k % 2 == 0, 'steps': [[rng.randint(1, 99) for _ in range(size)] for _ in range(rng.randint(1, 12))]} for k in range(200)]
for k in range(0, len(scripts), 20):
    ev = []
    scen.append({'name': '%s np=%d scripts %d-%d' % (solvername, size, k, k + 19), 'key': '%s:np%d' % (solvername, size), 'events': ev, 'cfg': {'np': size}})
    attempt(ev, lambda: one(ev, full, 0.25), 'run')
    for sc in scripts[k:k + 20]:
        if not attempt(ev, lambda: one(ev, sc, rng.choice([1 / 64., 0.5, 3.0])), 'run'):
            break
save(scen, rank)
