"""Runs with kill files that become visible to the processes in the order TLC generated.  args: scripts.json
The kill file is real and lies in a scratch folder; which process can see it at the deciding hook is
controlled by wrapping the functions that look at the file system (reads only)."""
from dlib import *
import shutil, genericpath, posixpath
from mpi4py import MPI
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()
rng = random.Random('kill-%s-%s' % (SEED, size))
from spectralDNS import config, get_solver, solve
quiet()
NAME = 'killspectraldns'
scripts = json.load(open(ARGS[0]))
top = os.getcwd()
hidden = [False]
_listdir, _stat, _lstat, _scandir, _access = os.listdir, os.stat, os.lstat, os.scandir, os.access


def isit(p):
    try:
        return hidden[0] and os.path.basename(os.fspath(p)) in (NAME, NAME.encode())
    except TypeError:
        return False


os.listdir = lambda *a: [x for x in _listdir(*a) if not (hidden[0] and x == NAME)]


class scan(object):
    def __init__(self, *a):
        self.it = _scandir(*a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.it.close()

    def __iter__(self):
        return self

    def __next__(self):
        e = next(self.it)
        while hidden[0] and e.name == NAME:
            e = next(self.it)
        return e

    def close(self):
        self.it.close()


os.scandir = scan


def stat(p, *a, **k):
    if isit(p):
        raise FileNotFoundError(2, 'No such file', p)
    return _stat(p, *a, **k)


def lstat(p, *a, **k):
    if isit(p):
        raise FileNotFoundError(2, 'No such file', p)
    return _lstat(p, *a, **k)


os.stat, os.lstat = stat, lstat
os.access = lambda p, *a, **k: False if isit(p) else _access(p, *a, **k)
for m in (genericpath, posixpath, os.path):      # exists and isfile may be implemented in C
    m.exists = lambda p: _true(p)
    m.isfile = lambda p: _true(p)


def _true(p):
    try:
        os.stat(p)
        return True
    except (OSError, ValueError):
        return False


scen = []
config.update({'verbose': False}, 'triplyperiodic')
config.triplyperiodic.add_argument('--N', default=[4 if size < 3 else 8] * 3, nargs=3)
config.update({'verbose': False}, 'channel')
config.channel.add_argument('--N', default=[14] + [4 if size < 3 else 8] * 2, nargs=3)
P = config.params


def checkpoint(c, name, sols):
    """the step the checkpoint file holds, and whether its data are the given solutions (level: array)"""
    import h5py
    res = None
    allu = comm.gather((c['FST' if 'FST' in c else 'T'].local_slice(True), [[np.array(x) for x in u] for u in sols]))
    if rank == 0:
        try:
            with h5py.File(name + '_c.h5', 'r') as f:
                ts = int(f.attrs['tstep'])
                data = {}
                f.visititems(lambda n, o: data.update({n.split('/')[-1]: np.array(o)}) if isinstance(o, h5py.Dataset) and n.split('/')[-1].isdigit() else None)
                ok = sorted(data) == [str(j) for j in range(len(sols))]
                for lev, arr in data.items():
                    if arr.dtype.names:
                        arr = arr['r'] + 1j * arr['i']
                    ok = ok and all(np.array_equal(arr[(j,) + tuple(s)], x) for s, us in allu for j, x in enumerate(us[int(lev)]))
                res = (ts, bool(ok))
        except Exception as e:
            res = (-1, False)
    return comm.bcast(res)


def one(k, sc, second, name):
    d = os.path.join(top, 's%d' % k)
    if rank == 0:
        os.makedirs(d)
        open(os.path.join(d, NAME + '.txt'), 'w').close()     # names that are not the kill file
        open(os.path.join(d, 'x' + NAME), 'w').close()
    comm.Barrier()
    os.chdir(d)
    ev = []
    scen.append({'name': 'kill np=%d %s %s second=%s' % (size, name, json.dumps(sc), second), 'key': 'kill', 'events': ev})

    def run(kill):
        ch = name == 'KMM'
        solver = get_solver(mesh='channel' if ch else 'triplyperiodic', parse_args=[name])
        c = solver.get_context()
        r = np.random.RandomState(3 + k)
        c.U[:] = r.rand(*c.U.shape)
        if ch:
            c.U_hat[:] = solver.set_velocity(**c)
            c.U_hat0[:] = c.U_hat
            c.g[:] = 1j * c.K[1] * c.U_hat[2] - 1j * c.K[2] * c.U_hat[1]
            c.H_hat1[:] = 0
        else:
            c.U_hat = c.VT.forward(c.U, c.U_hat)
        P.t, P.tstep, P.dt, P.nu = 0.0, rng.choice([0, 10]), 0.01, 0.1
        P.T = 0.04
        first = P.tstep
        P.checkpoint = rng.choice([2, 1000])
        P.write_result = rng.choice([1, 1000])
        fn = os.path.join(d, 'f')
        c.hdf5file.filename = fn
        ev.append({'op': 'run'})
        looked = []
        orig = c.hdf5file.update

        def update(ctx):
            n = P.tstep - first
            hidden[0] = False
            if kill and n == sc['step'] and any(sc['saw']):
                if rank == 0:
                    open(NAME, 'w').close()
                comm.Barrier()
                hidden[0] = not sc['saw'][rank]
            sees = NAME in os.listdir('.')
            looked[:] = [sees]
            comm.Barrier()

        def output(params, **kw):
            gone, code = False, 0
            try:
                orig(params, **kw)
            except SystemExit as e:
                gone = True
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            hidden[0] = False
            everybody = comm.gather((looked[0], gone, code, int(params.tstep) - first))
            anyg = comm.allreduce(int(gone))
            ck = (-1, True)
            if anyg:
                ck = checkpoint(c, fn, [c.U_hat, c.U_hat0] if ch else [c.U_hat])
            if rank == 0:
                ev.append({'op': 'hook', 'sees': [x[0] for x in everybody], 'gone': [x[1] for x in everybody], 'code': [x[2] for x in everybody],
                           'step': [x[3] for x in everybody], 'present': os.path.lexists(NAME), 'ck': ck[0] - first if anyg else -1, 'ckdata': ck[1],
                           'others': sorted(x for x in _listdir('.') if 'kill' in x) in (sorted([NAME + '.txt', 'x' + NAME]), sorted([NAME + '.txt', 'x' + NAME, NAME]))})
                if os.path.lexists(NAME):
                    os.unlink(NAME)
            comm.Barrier()
            if gone:
                raise SystemExit(code)
        c.hdf5file.update = output
        solver.update = update
        fin = True
        try:
            solve(solver, c)
        except SystemExit:
            fin = False
        ev.append({'op': 'end', 'finished': fin})

    attempt(ev, lambda: run(True), 'solve')
    if second:
        attempt(ev, lambda: run(False), 'solve')
    os.chdir(top)


for k, sc in enumerate(scripts):
    one(k, sc, k % 3 == 0, 'KMM' if (k + size) % 3 == 1 else 'NS')
save(scen, rank)
