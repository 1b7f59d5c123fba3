"""Helpers of the drivers: set up real solvers, make fields, write recorded behaviours."""
import json, os, random, sys, traceback, warnings
warnings.filterwarnings('ignore')
import numpy as np

OUT, SEED, TIER = sys.argv[1], int(sys.argv[2]), sys.argv[3]
ARGS = sys.argv[4:]
THOROUGH = TIER == 'thorough'


def quiet():
    sys.stdout.flush()
    sys.stdout = open(os.devnull, 'w')


def hx(x):
    return float(x).hex()


def cx(a):
    """complex array -> flat list of [re, im] literals"""
    return [[hx(z.real), hx(z.imag)] for z in np.asarray(a).ravel()]


def rl(a):
    return [hx(x) for x in np.asarray(a).ravel()]


def finite(x):
    if isinstance(x, str):
        return x not in ('nan', 'inf', '-inf')
    if isinstance(x, (list, tuple)):
        return all(finite(y) for y in x)
    if isinstance(x, dict):
        return all(finite(y) for y in x.values())
    return True


def save(scen, rank=0):
    """A recorded value that is not a number is an event of its own: the specification has no such values."""
    for s in scen:
        for j, e in enumerate(s['events']):
            if not all(finite(v) for k, v in e.items() if k not in ('op', 'what', 'text', 'name')):
                s['events'][j:] = [{'op': 'raised', 'what': '%s-not-finite' % e['op']}]
                break
    if rank == 0:
        with open(OUT + '.tmp', 'w') as f:
            json.dump(scen, f)
        os.rename(OUT + '.tmp', OUT)


def what_of(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '%s' % type(e).__name__


def attempt(events, fn, what):
    """Run fn(); an exception of the code under test becomes an event."""
    try:
        fn()
        return True
    except Exception as e:      # noqa
        events.append({'op': 'raised', 'what': '%s-%s' % (what, type(e).__name__), 'text': traceback.format_exc()[-800:]})
        return False


def nyquist_free_modes(N):
    """All integer wave vectors of a real field with k_last >= 0 and no Nyquist content."""
    import itertools
    r = [[k for k in range(-n, n + 1) if 2 * abs(k) < n] for n in N[:-1]]
    r.append([k for k in range(0, N[-1]) if 2 * k < N[-1]])
    return list(itertools.product(*r))


def rand_field(N, rng, nmodes=None, mean=True, amp=16, shape_last=None):
    """Random Hermitian spectral coefficients (numpy layout, half spectrum along the last axis)."""
    N = tuple(int(n) for n in N)
    f = np.zeros(N[:-1] + (N[-1] // 2 + 1,), dtype=complex)
    ms = nyquist_free_modes(N)
    if nmodes is not None and nmodes < len(ms):
        ms = rng.sample(ms, nmodes)
    for k in ms:
        z = complex(rng.randint(-amp, amp) / 16., rng.randint(-amp, amp) / 16.)
        if all(x == 0 for x in k):
            f[tuple(k)] = z.real if mean else 0
            continue
        f[tuple(k)] = z
        if k[-1] == 0:
            f[tuple(-x for x in k[:-1]) + (0,)] = z.conjugate()
    return f


def wavenumbers(N, L):
    d = len(N)
    K = []
    for i in range(d):
        k = np.fft.rfftfreq(N[i], 1. / N[i]) if i == d - 1 else np.fft.fftfreq(N[i], 1. / N[i])
        s = [1] * d
        s[i] = len(k)
        K.append((2 * np.pi / L[i] * k).reshape(s))
    return K


def solenoidal(fs, N, L):
    K = wavenumbers(N, L)
    K2 = sum(k * k for k in K)
    K2 = np.where(K2 == 0, 1, K2)
    q = sum(f * k for f, k in zip(fs, K)) / K2
    return [f - q * k for f, k in zip(fs, K)]


def specials(d):
    """the kinds of special fields of d components"""
    return [tuple(i for i in range(d) if b >> i & 1) for b in range(2 ** d - 1)] + ['layers', 'one', 'mean']


def special(fs, N, L, rng, kind=None):
    """solenoidal fields of a special kind: without some components, without dependence on a direction, of few modes, none"""
    d = len(N)
    kind = rng.choice(specials(d)) if kind is None else kind
    fs = [np.array(f) for f in fs]
    ms = [m for m in nyquist_free_modes(N) if any(m)]
    if isinstance(kind, tuple):
        keep = kind
        K = wavenumbers(N, L)
        out = [f * 0 for f in fs]
        if len(keep) == 1:
            a = keep[0]
            out[a] = rand_field(N, rng, 60) * (K[a] == 0)
        elif keep:
            k2 = sum(K[a] * K[a] for a in keep)
            q = sum(fs[a] * K[a] for a in keep) / np.where(k2 == 0, 1, k2)
            for a in keep:
                out[a] = fs[a] - q * K[a]
        return out
    if kind == 'layers':
        k = wavenumbers(N, L)[rng.randrange(d)]
        fs = [rand_field(N, rng, 60) * (k == 0) for _ in fs]
    elif kind == 'one':
        m = rng.choice(ms)
        fs = [f * 0 for f in fs]
        for f in fs:
            z = complex(rng.randint(-16, 16) / 16., rng.randint(-16, 16) / 16.)
            f[tuple(m)] = z
            if m[-1] == 0:
                f[tuple(-x for x in m[:-1]) + (0,)] = z.conjugate()
    elif kind == 'mean':
        for f in fs:
            z = f[(0,) * d]
            f[:] = 0
            f[(0,) * d] = z
    return solenoidal(fs, N, L)


def some(fs, rng):
    """the fields, sometimes without some of them"""
    if rng.random() < 0.4:
        gone = rng.sample(range(len(fs)), rng.randint(1, len(fs) - 1))
        return [f * 0 if i in gone else f for i, f in enumerate(fs)]
    return fs
