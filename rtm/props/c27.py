"""C27: thermal and averaging primitives are exact."""
import numpy as np

import occuprob as op
from rtm import gen, oracle, ref
from rtm.core import Stream, digest

RULE = ('Energies of every magnitude and sign in one, two and three dimensions (including numbers of energies equal to the number of temperatures, null and degenerate ones, integers), temperatures with '
        'zeros, infinities, tiny and huge values, integer types and odd layouts; rows of 1-500 entries from 1e-300 to 1e300 with zeros. Compared with the definitions evaluated in extended precision. '
        'Distinct by hash of the arguments.')


def temps(rng, M=None):
    T, mode = gen.temperatures(rng, inf=True)
    if M:
        T = np.resize(T, M)
    if rng.random() < 0.15 and T.dtype.kind == 'f':
        T = T * 10. ** rng.uniform(-6, 8)
    if rng.random() < 0.2 and T.dtype.kind == 'f':
        T = T.copy()
        T[rng.random(T.size) < 0.4] = 0.
    return T, mode


def beta(ctx, rng):
    T, mode = temps(rng)
    old = T.tobytes()
    ctx.note.update(T=T, mode=mode)
    b = op.calc_beta(T)
    ctx.check(hasattr(b, 'shape') and b.shape == T.shape, 'calc_beta has shape %s for temperatures of shape %s' % (np.shape(b), T.shape))
    Tl = ref.ld(T)
    with np.errstate(divide='ignore'):
        e = np.where(Tl > 0, 1 / (ref.KB * np.where(Tl > 0, Tl, 1)), np.inf)
    oracle.close(ctx, b, e, 1e-14, 0, 'calc_beta')
    ctx.check(T.tobytes() == old, 'calc_beta modified the temperatures')
    ctx.count('null_temperatures', int((Tl == 0).sum()))
    return digest(T)


def some_energies(rng, shape):
    mode = gen.pick(rng, ['eV', 'eV', 'wide', 'int', 'negative', 'zeros', 'tiny', 'huge', 'float32'])
    e = rng.normal(size=shape)
    if mode == 'wide':
        e = e * 10. ** rng.uniform(-12, 6, shape)
    elif mode == 'int':
        e = rng.integers(-3, 4, shape)
    elif mode == 'negative':
        e = -np.abs(e) * 4000
    elif mode == 'zeros':
        e = e * (rng.random(shape) < 0.5)
    elif mode == 'tiny':
        e = e * 1e-200
    elif mode == 'huge':
        e = e * 1e150
    elif mode == 'float32':
        e = (rng.integers(-64, 64, shape) / 16).astype(np.float32)
    e = np.array(e)
    if mode != 'float32' and rng.random() < 0.3:
        e[rng.random(shape) < 0.3] = 0
    return e, mode


def exponent(ctx, rng):
    T, mode = temps(rng)
    N = int(gen.pick(rng, [1, 2, 3, 7, T.size, T.size, 40]))
    dims = int(rng.integers(1, 4))
    if dims == 1:
        shape = (N,)
    elif dims == 2:
        shape = gen.pick(rng, [(N, 1), (N, T.size)])
    else:
        D = int(gen.pick(rng, [1, 2, 5, N, T.size]))
        if N * D * T.size > 1000000:
            T = T[:min(T.size, 40)]
            N = D = T.size
        shape = gen.pick(rng, [(N, D, 1), (N, D, 1), (N, min(D, 9), T.size)])
    E, em = some_energies(rng, shape)
    E = gen.layout(rng, E)
    old = (E.tobytes(), T.tobytes())
    ctx.note.update(E=E, T=T, energies=em, temperatures=mode)
    x = op.calc_exponent(E, T)
    El, Tl = ref.ld(E), ref.ld(T)
    if dims == 1:
        El = El[:, None]
    El, Tl = np.broadcast_arrays(El, Tl)
    # a null temperature has a defined exponent for null and positive energies
    with np.errstate(divide='ignore', invalid='ignore', over='ignore', under='ignore'):
        e = np.where(El == 0, 0, np.where(Tl > 0, El / (ref.KB * np.where(Tl > 0, Tl, 1)), np.where(El > 0, np.inf, np.nan)))
    undecided = (El < 0) & (Tl == 0)
    ctx.check(hasattr(x, 'shape') and x.shape == e.shape, 'calc_exponent has shape %s instead of %s for energies %s and %d temperatures' % (
        np.shape(x), e.shape, E.shape, T.size))
    x = ref.ld(x)
    big = np.abs(e) > 1e305     # beyond double precision: any huge number or infinity will do
    if (big & ~undecided).any():
        sel = big & ~undecided
        ctx.check((np.where(sel, np.sign(x) * (np.abs(x) > 1e304), 0) == np.where(sel, np.sign(e), 0)).all(), 'calc_exponent is not large where energy/(kB T) overflows or T = 0')
    small = (np.abs(e) < 1e-290) & (e != 0)
    skip = undecided | big | small
    rtol = 1e-14 if em != 'float32' else 1e-6
    oracle.close(ctx, np.where(skip, 0, x), np.where(skip, 0, e), rtol, 0, 'calc_exponent')
    ctx.check((np.abs(x[small]) < 1e-289).all() if small.any() else True, 'calc_exponent is not small')
    ctx.check((E.tobytes(), T.tobytes()) == old, 'calc_exponent modified its arguments')
    ctx.count('null_energies', int((El == 0).sum()))
    ctx.count('exponents_in_%dD' % dims)
    ctx.sample({'E_shape': E.shape, 'M': T.size, 'energies': em, 'temperatures': mode})
    return digest(E, T)


def geometric(ctx, rng):
    N = int(gen.pick(rng, [1, 2, 3, 10, 60]))
    D = int(gen.pick(rng, [1, 2, 3, 9, N, 30, 500]))
    mode = gen.pick(rng, ['uniform', 'log', 'huge', 'tiny', 'extreme', 'const', 'int', 'zeros', 'long', 'ones', 'near'])
    a = rng.uniform(0.1, 100, (N, D))
    if mode == 'log':
        a = 10. ** rng.uniform(-6, 6, (N, D))
    elif mode == 'huge':
        a = 10. ** rng.uniform(200, 305, (N, D))
    elif mode == 'tiny':
        a = 10. ** rng.uniform(-305, -200, (N, D))
    elif mode == 'extreme':
        a = 10. ** rng.uniform(-300, 300, (N, D))
    elif mode == 'const':
        a = np.repeat(rng.uniform(1e-3, 1e3, (N, 1)), D, axis=1)
    elif mode == 'int':
        a = rng.integers(1, 30, (N, D))
    elif mode == 'zeros':
        a = a * (rng.random((N, D)) > 1. / D)
    elif mode == 'long':
        a = a.astype(np.longdouble)
    elif mode == 'ones':
        a = np.ones((N, D))
    elif mode == 'near':
        a = 1 + rng.normal(size=(N, D)) * 1e-8
    if mode not in ('int', 'long') and rng.random() < 0.15:
        a[rng.integers(N), rng.integers(D)] = 0.
    a = gen.layout(rng, np.array(a))
    if a.dtype.kind == 'i':
        a = a.astype(float)
    old = a.tobytes()
    tol = 1e-12 + 4e-16 * a.shape[1] * max(1., float(np.abs(np.log(np.where(a > 0, a, 1))).max()))       # of a plain sum of the logarithms
    ctx.note.update(array=a, mode=mode)
    m = op.calc_geometric_mean(a)
    ctx.check(hasattr(m, 'shape') and m.shape == (N,), 'calc_geometric_mean has shape %s instead of (%d,)' % (np.shape(m), N))
    al = ref.ld(a)
    m = ref.ld(m)
    zero = (al == 0).any(axis=1)
    with np.errstate(divide='ignore'):
        e = np.where(zero, 0, np.exp(np.log(np.where(al > 0, al, 1)).mean(axis=1)))
    oracle.close(ctx, m, e, tol, 0, 'calc_geometric_mean')
    lo, hi = al.min(axis=1), al.max(axis=1)
    ctx.check(((m >= lo * (1 - tol)) & (m <= hi * (1 + tol)))[~zero].all(), 'calc_geometric_mean outside the range of the row')
    ctx.check((m[zero] == 0).all(), 'calc_geometric_mean of a row with a zero is not zero')
    # homogeneous and independent of the order and of the other rows
    c = float(2. ** rng.integers(-10, 11))
    if mode not in ('huge', 'tiny', 'extreme'):
        oracle.close(ctx, op.calc_geometric_mean(a * c), c * e, tol, 0, 'calc_geometric_mean of a multiple')
    oracle.close(ctx, op.calc_geometric_mean(rng.permuted(a, axis=1)), e, tol, 0, 'calc_geometric_mean of rows in another order')
    k = int(rng.integers(N))
    oracle.close(ctx, op.calc_geometric_mean(a[k:k + 1]), e[k:k + 1], tol, 0, 'calc_geometric_mean of one row')
    ctx.check(a.tobytes() == old, 'calc_geometric_mean modified its argument')
    ctx.count('rows_with_zeros', int(zero.sum()))
    return digest(a)


def setup(ctx):
    gen.SMALL.update(['temperatures'])


STREAMS = [Stream('beta', beta, 4500, 30000), Stream('exponent', exponent, 12000, 80000), Stream('geometric', geometric, 9000, 50000)]
