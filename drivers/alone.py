"""The stand-alone programs and the packaged solver on the Taylor-Green vortex.
args: cpp BINARY M | py | shen | pkg N [dealias]    (on any number of processes)"""
from dlib import *
import os, subprocess, re, runpy, builtins
from mpi4py import MPI
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
kind = ARGS[0]
scen = []
ev = []
DT, NU, END = 0.01, 0.000625, 0.1


def new(problem, key, tol='1e-13'):
    global ev
    ev = []
    scen.append({'name': '%s np=%d' % (kind, size), 'problem': problem, 'key': key, 'cfg': {'tol': tol}, 'events': ev})
    ev.append({'op': 'begin'})


def obs(cls, what, v):
    if rank == 0:
        v = np.atleast_1d(np.asarray(v))
        ev.append({'op': 'obs', 'cls': cls, 'what': what, 'v': [cx(v) if np.iscomplexobj(v) else rl(v)]})


def sample(u, uh, N, axes, t, steps):
    """u, uh: complete arrays; the spectrum in the order of the package"""
    k = list(range(-5, 6))
    for j in range(3):
        obs('velocity', 'U%d' % j, u[j][::N // 8, ::N // 8, ::N // 8])
        obs('spectrum', 'U_hat%d' % j, uh[j][np.ix_(k, k, range(6))])
        obs('spectrum-size', '|U_hat%d|' % j, np.array([np.sqrt((abs(uh[j]) ** 2).sum())]))
    obs('time', 't', np.array([t]))
    obs('steps', 'steps', np.array([float(steps)]))


def cpp_run():
    binary, M, n = ARGS[1], int(ARGS[2]), int(ARGS[3])
    new('energies', 'cpp')
    scen[-1]['name'] = 'C++ np=%d' % n
    env = {k: v for k, v in os.environ.items() if not k.startswith(('OMPI_', 'PMIX_', 'PRTE_', 'OPAL_'))}
    env['OMPI_MCA_orte_tmpdir_base'] = os.getcwd()
    if n == 1:
        env['OMPI_MCA_ess_singleton_isolated'] = '1'
    mpi = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-n', str(n)] if n > 1 else []
    r = subprocess.run(mpi + [binary, str(M)], capture_output=True, text=True, timeout=200, env=env)
    if r.returncode and 'orte' in r.stderr and any(w in r.stderr for w in ('init failed', 'orte_session_dir', 'unable to reliably start')):
        print(r.stderr)                                     # MPI itself did not start: the check starts this again
        os._exit(1)
    out = r.stdout
    ks = [float(x) for x in re.findall(r'k = (\S+)', out)]
    mesh = re.findall(r'N = (\d+)', out)
    obs('mesh', 'mesh', np.array([float(mesh == [str(2 ** M)])]))
    for j, x in enumerate(ks):
        obs('energy', 'energy %d' % j, np.array([x]))
    tm = {w: [float(x) for x in re.findall(r'%s = (\S+), (\S+)' % w, out)[0]] for w in ('Fastest', 'Slowest')}
    a, b = tm['Fastest'], tm['Slowest']
    # Fastest: smallest over the processes of the fastest and the slowest step, Slowest: largest
    obs('timing', 'timing', np.array([float(0 < a[0] <= a[1] and b[0] <= b[1] and a[0] <= b[0] and a[1] <= b[1])]))
    obs('exit', 'exit', np.array([float(r.returncode)]))
    ev.append({'op': 'end'})


def py_run():
    new('fields:64', 'short-program', '1e-12')
    g = runpy.run_path('/repo/spectralDNS3D_short.py', run_name='__main__')
    n = 64
    if all(x in g for x in ('U', 'U_hat', 't', 'tstep')):
        U = comm.gather(np.array(g['U']))
        H = comm.gather(np.array(g['U_hat']))
        if rank == 0:
            U = np.concatenate(U, axis=1)
            H = np.concatenate(H, axis=2) / n ** 3
            sample(U, H, n, None, g['t'], g['tstep'])
            if 'k' in g:
                obs('energy', 'energy', np.array([g['k']]))
        ev.append({'op': 'end'})
    else:
        # other names inside: its own assertion of the final energy is what there is to observe
        scen[-1]['problem'] = 'own-assertion'
        obs('exit', 'exit', np.array([0.0]))
        ev.append({'op': 'end'})


def shen_run():
    """the demo written with shenfun alone: no dealiasing"""
    from chan import gather_at
    new('fields:64:None', 'shenfun-program', '1e-11')
    g = runpy.run_path('/repo/demo/NS_shenfun.py', run_name='__main__')
    if all(x in g for x in ('U', 'U_hat', 't', 'tstep', 'T')):
        T = g['T']
        U = [gather_at(np.asarray(g['U'][j]), T.local_slice(False), comm) for j in range(3)]
        H = [gather_at(np.asarray(g['U_hat'][j]), T.local_slice(True), comm) for j in range(3)]
        if rank == 0:
            sample(U, H, 64, None, g['t'], g['tstep'])
            if 'k' in g:
                obs('energy', 'energy', np.array([g['k']]))
    else:
        scen[-1]['problem'] = 'own-assertion'
        obs('exit', 'exit', np.array([0.0]))
    ev.append({'op': 'end'})


def pkg_run():
    from spectralDNS import config, get_solver, solve
    from chan import gather_at
    P = config.params
    N, deal = int(ARGS[1]), ARGS[2] if len(ARGS) > 2 else '2/3-rule'
    config.update({'verbose': False, 'nu': NU, 'dt': DT, 'T': END}, 'triplyperiodic')
    config.triplyperiodic.add_argument('--N', default=[N] * 3, nargs=3)
    energies = []

    def energy(c):
        s.get_velocity(**c)
        return 0.5 * comm.allreduce(float((np.asarray(c.U) ** 2).sum())) / N ** 3

    def update(c):
        if P.tstep % 2 == 0:
            energies.append(energy(c))
    s = get_solver(mesh='triplyperiodic', update=update, parse_args=['--dealias', deal, '--integrator', 'RK4', '--convection', 'Vortex', 'NS'])
    c = s.get_context()
    x = c.X
    c.U[0] = np.sin(x[0]) * np.cos(x[1]) * np.cos(x[2])
    c.U[1] = -np.cos(x[0]) * np.sin(x[1]) * np.cos(x[2])
    c.U[2] = 0
    s.set_velocity(**c)
    P.write_result = P.checkpoint = 10 ** 6
    P.t, P.tstep = 0.0, 0
    P.T = END
    solve(s, c)
    energies.append(energy(c))
    if N < 64:
        new('energies', 'cpp')
        obs('mesh', 'mesh', np.array([1.0]))
        for j, e in enumerate(energies):
            obs('energy', 'energy %d' % j, np.array([e]))
        obs('timing', 'timing', np.array([1.0]))
        obs('exit', 'exit', np.array([0.0]))
        ev.append({'op': 'end'})
    else:
        new('fields:%d%s' % (N, '' if deal == '2/3-rule' else ':' + deal), 'short-program' if deal == '2/3-rule' else 'shenfun-program', '1e-12' if deal == '2/3-rule' else '1e-11')
        U = [gather_at(np.asarray(c.U[j]), c.T.local_slice(False), comm) for j in range(3)]
        H = [gather_at(np.asarray(c.U_hat[j]), c.T.local_slice(True), comm) for j in range(3)]
        if rank == 0:
            sample(U, H, N, None, P.t, P.tstep)
            obs('energy', 'energy', np.array([energies[-1]]))
        ev.append({'op': 'end'})


quiet()
try:
    {'cpp': cpp_run, 'py': py_run, 'shen': shen_run, 'pkg': pkg_run}[kind]()
except (Exception, SystemExit) as e:
    ev.append({'op': 'raised', 'what': what_of(e)})
    if kind != 'cpp' and size > 1:
        save(scen, rank)
        comm.Abort(0)
save(scen, rank)
