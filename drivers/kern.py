"""Calls the pointwise routines of a solver in an optimisation mode.  args: solver optimization precision"""
from dlib import *
solvername, opt, prec = ARGS[:3]
rng = np.random.RandomState(abs(hash('x')) % 2 + 7 * SEED + len(solvername) * 31 + len(opt))
rnd = random.Random('kern-%s-%s-%s-%s' % (SEED, solvername, opt, prec))
rng = np.random.RandomState(rnd.randrange(1 << 31))
from spectralDNS import config, get_solver
quiet()
CH = solvername.startswith(('KMM', 'Coupled'))
dim = 2 if solvername in ('NS2D', 'Bq2D') else 3
mesh = 'channel' if CH else 'doublyperiodic' if dim == 2 else 'triplyperiodic'
config.update({'verbose': False}, mesh)
getattr(config, mesh).add_argument('--N', default=[8] * dim, nargs=dim)
solver = get_solver(mesh=mesh, parse_args=(['--optimization', opt] if opt != 'none' else []) + ['--precision', prec] + ([] if not solvername == 'MHD' else ['--convection', 'Divergence']) + [solvername])
rt, ct = (np.float64, np.complex128) if prec == 'double' else (np.float32, np.complex64)
scen = []


def C(*shape):
    return (rng.randint(-32, 33, shape) / 8. + 1j * rng.randint(-32, 33, shape) / 8. + (rng.rand(*shape) - 0.5)).astype(ct)


def Rl(*shape):
    return (rng.randint(-32, 33, shape) / 8. + rng.rand(*shape) - 0.5).astype(rt)


def waves(shape):
    K = []
    for i, n in enumerate(shape):
        k = np.arange(n) if i == len(shape) - 1 else np.fft.fftfreq(n, 1. / n)
        s = [1] * len(shape)
        s[i] = n
        K.append((k * rnd.choice([1., 0.5, 2 / 3.])).reshape(s).astype(rt))
    K2 = sum(k * k for k in K).astype(rt)
    return K, K2, np.array([np.broadcast_to(k / np.where(K2 == 0, 1, K2), shape) for k in K]).astype(rt)


def comps(a, shape):
    """components of an argument, broadcast to the mesh"""
    if isinstance(a, list):
        return [cx(np.broadcast_to(x, shape)) for x in a]
    a = np.asarray(a)
    return [cx(a)] if a.ndim == len(shape) else [cx(x) for x in a]


def call(ev, name, fn, shape, out, args, sc, order, extra=None):
    """order: positional arguments by name ('out' is the array that is returned); extra: further output"""
    keep = {k: [x.copy() for x in v] if isinstance(v, list) else v.copy() for k, v in args.items()}
    rec = {k: comps(v, shape) for k, v in args.items()}
    pos = [out if o == 'out' else args[o] if o in args else sc[o] if o in sc else extra for o in order]
    r = fn(*pos)
    same = True
    for k, v in args.items():
        if v is out or v is extra:
            continue
        same = same and (all(np.array_equal(x, y) for x, y in zip(v, keep[k])) if isinstance(v, list) else np.array_equal(v, keep[k]))
    o = comps(out, shape) + (comps(extra, shape) if extra is not None else [])
    ev.append({'op': 'call', 'name': name, 'args': rec, 'sc': {k: hx(v) for k, v in sc.items()}, 'out': o, 'untouched': bool(same),
               'inplace': bool(r is out or np.shares_memory(r, out))})


SH3 = [(2, 3, 2), (1, 4, 3), (4, 1, 3), (3, 2, 1), (4, 5, 3), (1, 1, 1), (3, 6, 4), (5, 2, 2)]
SH2 = [(3, 2), (1, 4), (4, 1), (5, 3), (1, 1), (6, 4), (7, 3), (2, 5)]


def one(shape):
    ev = []
    scen.append({'name': '%s %s %s %s' % (solvername, opt, prec, shape), 'key': 'kernel:%s:%s:%s' % (solvername, opt, prec), 'events': ev,
                 'cfg': {'tol': '1e-12' if prec == 'double' else '2e-5'}})
    K, K2, KK = waves(shape)
    nu, eta, Ri, Pr = [rt(x) for x in (0.125, 0.75, -0.5, 0.625)]
    if prec == 'double':
        nu, eta, Ri, Pr = [float(x) for x in (nu, eta, Ri, Pr)]

    def tryit(name, *a, **k):
        f = getattr(solver, name, None)
        if f is None:
            return
        attempt(ev, lambda: call(ev, a[0], f, shape, *a[1:], **k), name)
    d = dim
    n = (d,) + shape
    if d == 3:
        tryit('cross1', 'cross1', Rl(*n), {'a': Rl(*n), 'b': Rl(*n)}, {}, ['out', 'a', 'b'])
        if not CH:
            tryit('cross2', 'cross2', C(*n), {'a': K, 'b': C(*n)}, {}, ['out', 'a', 'b'])
            tryit('cross2', 'cross2', C(*n), {'a': KK, 'b': C(*n)}, {}, ['out', 'a', 'b'])
    else:
        tryit('cross2', 'cross2_2D', C(*shape), {'a': K, 'b': C(*n)}, {}, ['out', 'a', 'b'])
        tryit('cross1', 'cross1_2D', Rl(*shape), {'a': Rl(*n), 'b': Rl(*n)}, {}, ['out', 'a', 'b'])
    if solvername in ('NS', 'NS2D'):
        r = C(*n)
        tryit('add_pressure_diffusion', 'pressure_NS', r, {'rhs': r, 'u': C(*n), 'ksq': K2, 'k': K, 'kok': KK}, {'nu': nu}, ['out', 'u', 'nu', 'ksq', 'k', 'P', 'kok'], extra=C(*shape))
    if solvername == 'MHD':
        r = C(6, *shape)
        tryit('add_pressure_diffusion', 'pressure_MHD', r, {'rhs': r, 'u': C(6, *shape), 'ksq': K2, 'k': K, 'kok': KK}, {'nu': nu, 'eta': eta}, ['out', 'u', 'nu', 'eta', 'ksq', 'k', 'P', 'kok'], extra=C(*shape))
    if solvername == 'Bq2D':
        r = C(3, *shape)
        tryit('add_pressure_diffusion', 'pressure_Bq2D', r, {'rhs': r, 'u': C(3, *shape), 'ksq': K2, 'k': K, 'kok': KK}, {'nu': nu, 'Ri': Ri, 'Pr': Pr}, ['out', 'u', 'P', 'kok', 'k', 'ksq', 'nu', 'Ri', 'Pr'], extra=C(*shape))
    if solvername == 'VV':
        r = C(*n)
        tryit('add_linear', 'linear_VV', r, {'rhs': r, 'u': C(*n), 'ksq': K2, 'source': C(*n)}, {'nu': nu}, ['out', 'u', 'nu', 'ksq', 'source'])
    if solvername in ('KMM', 'KMMRK3'):
        KC = [np.asarray(k) for k in K]
        tryit('mult_K1j', 'mult_K1j', C(2, *shape), {'k': KC, 'a': C(*shape)}, {}, ['k', 'a', 'out'])
        u = C(*n)
        tryit('compute_vw', 'compute_vw', u, {'u': u, 'f': C(*shape), 'g': C(*shape), 'kok': np.array(KK[1:])}, {}, ['out', 'f', 'g', 'kok'])
    if solvername in ('KMM', 'KMMr', 'Coupled'):
        tryit('assembleAB', 'assembleAB', C(*n), {'h': C(*n), 'h1': C(*n)}, {}, ['out', 'h', 'h1'])


for sh in (SH3 if dim == 3 else SH2):
    one(sh)
    if THOROUGH:
        one(tuple(x + 1 for x in sh))
save(scen)
