"""Wall-normal operator products of spectralDNS.shen on random columns.  args: quad"""
from dlib import *
quad = ARGS[0]
rnd = random.Random('oper-%s-%s' % (SEED, quad))
rng = np.random.RandomState(rnd.randrange(1 << 31))
from spectralDNS.shen.Matrices import BiharmonicCoeff, HelmholtzCoeff
from spectralDNS.shen import LUsolve
quiet()
scen = []


def C(shape):
    return rng.randint(-32, 33, shape) / 8. + 1j * rng.randint(-32, 33, shape) / 8. + 0j


def shapes(n, axis):
    s = [rnd.choice([1, 1, 2, 3]), rnd.choice([1, 2, 3])]
    s.insert(axis, n)
    return tuple(s)


def cols(a, axis):
    """columns along axis, in the order of the other indices"""
    a = np.moveaxis(np.asarray(a), axis, 0)
    return a.reshape(a.shape[0], -1).T


def coef(shape, axis, kind):
    s = list(shape)
    s[axis] = 1
    if kind == 'wave':      # as a solver makes them: zero wavenumber included
        k = rng.randint(-4, 5, s).astype(float)
        k.flat[0] = 0
        return k * k
    return np.round(rng.randn(*s) * 16) / 16.


sizes = list(range(7, 19)) if not THOROUGH else list(range(7, 33)) + [40, 47]
if not THOROUGH:
    sizes = sorted(rnd.sample(sizes[:7], 2) + rnd.sample(sizes[7:], 4)) + [rnd.choice([20, 23, 24])]
for n in sizes:
    for axis in (0, 1, 2):
        ev = []
        shape = shapes(n, axis)
        k2 = coef(shape, axis, 'wave')
        nu, dt = rnd.choice([.125, .5, 2.]), rnd.choice([.0625, .25])
        one = np.ones_like(k2)
        # as the solvers form them, and arbitrary ones
        for alfa, beta in ((1., -(k2 - 2. / nu / dt)), (coef(shape, axis, ''), coef(shape, axis, ''))):
            v = C(shape)
            keep = v.copy()

            def go():
                H = HelmholtzCoeff(n, alfa, beta, axis, quad)
                for v_ in (C(shape), v):
                    c = C(shape)
                    out = H.matvec(v_, c)
                a_, b_ = np.broadcast_to(alfa, beta.shape).ravel(), beta.ravel()
                ev.append({'op': 'product', 'name': 'Helmholtz', 'n': n, 'quad': quad, 'untouched': bool(np.array_equal(v, keep)),
                           'cols': [{'alfa': hx(a_[i]), 'beta': hx(b_[i]), 'x': {'v': cx(x)}, 'out': cx(o)} for i, (x, o) in enumerate(zip(cols(v, axis), cols(out, axis)))]})
            attempt(ev, go, 'Helmholtz')
        # the biharmonic product of shenfun reads beyond its arrays below 14 points
        for a0, alfa, beta in () if n < 14 else ((nu * dt / 2., 1. - nu * dt * k2, -(k2 - nu * dt / 2. * k2 * k2)), (rnd.choice([.5, -2.]), coef(shape, axis, ''), coef(shape, axis, ''))):
            v = C(shape)
            keep = v.copy()

            def go():
                B = BiharmonicCoeff(n, a0, alfa, beta, axis, quad)
                for v_ in (C(shape), v):
                    c = C(shape)
                    out = B.matvec(v_, c)
                a_, b_ = alfa.ravel(), beta.ravel()
                ev.append({'op': 'product', 'name': 'Biharmonic', 'n': n, 'quad': quad, 'untouched': bool(np.array_equal(v, keep)),
                           'cols': [{'a0': hx(a0), 'alfa': hx(a_[i]), 'beta': hx(b_[i]), 'x': {'v': cx(x)}, 'out': cx(o)} for i, (x, o) in enumerate(zip(cols(v, axis), cols(out, axis)))]})
            attempt(ev, go, 'Biharmonic')
        v, w = C(shape), C(shape)
        keep = v.copy(), w.copy()
        bv, bw = C(shape), C(shape)

        def go():
            LUsolve.Mult_CTD_3D_ptr(n, v, w, bv, bw, axis)
            ev.append({'op': 'product', 'name': 'Derivative', 'n': n, 'quad': quad, 'untouched': bool(np.array_equal(v, keep[0]) and np.array_equal(w, keep[1])),
                       'cols': [{'x': {'v': cx(a), 'w': cx(b)}, 'out': cx(o) + cx(p)} for a, b, o, p in zip(cols(v, axis), cols(w, axis), cols(bv, axis), cols(bw, axis))]})
        attempt(ev, go, 'Derivative')
        if axis == 0 and quad == 'GC':
            d = shape[1:]
            u, v, w = C((n - 2,) + d), C((n - 2,) + d), C((n - 2,) + d)
            m_, n_ = rng.randint(-8, 9, d).astype(float), rng.randint(-8, 9, d).astype(float)
            m_.flat[0] = 0
            keep = u.copy(), v.copy(), w.copy()

            def go():
                b = C((n - 3,) + d)
                LUsolve.Mult_Div_3D(n, m_, n_, u, v, w, b)
                ev.append({'op': 'product', 'name': 'Divergence', 'n': n, 'quad': quad, 'untouched': all(np.array_equal(a, c) for a, c in zip((u, v, w), keep)),
                           'cols': [{'m': hx(m_.ravel()[i]), 'n': hx(n_.ravel()[i]), 'x': {'u': cx(a), 'v': cx(c), 'w': cx(e)}, 'out': cx(o)}
                                    for i, (a, c, e, o) in enumerate(zip(cols(u, 0), cols(v, 0), cols(w, 0), cols(b, 0)))]})
                b = C((n - 3,))
                LUsolve.Mult_Div_1D(n, m_.ravel()[-1], n_.ravel()[-1], cols(u, 0)[-1].copy(), cols(v, 0)[-1].copy(), cols(w, 0)[-1].copy(), b)
                ev.append({'op': 'product', 'name': 'Divergence', 'n': n, 'quad': quad, 'untouched': True,
                           'cols': [{'m': hx(m_.ravel()[-1]), 'n': hx(n_.ravel()[-1]), 'x': {'u': cx(cols(u, 0)[-1]), 'v': cx(cols(v, 0)[-1]), 'w': cx(cols(w, 0)[-1])}, 'out': cx(b)}]})
            attempt(ev, go, 'Divergence')
        scen.append({'name': 'operators n=%d axis=%d %s' % (n, axis, quad), 'key': 'operators-%s-n%d-axis%d' % (quad, n, axis), 'cfg': {'tol': hx(1e-10)}, 'events': ev})
save(scen)
