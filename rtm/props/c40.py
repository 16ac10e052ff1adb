"""C40: the representation of equal inputs in memory is irrelevant."""
import os

import numpy as np

import occuprob as op
from occuprob import utils
from rtm import gen, oracle, ref
from rtm.core import Stream, digest
from rtm.props.c37 import logs

RULE = ('Equal values (whole numbers, multiples of 1/64 or any doubles) handed over as integers of 32 or 64 bits, doubles and long doubles, in native or swapped byte order, contiguous, transposed, strided, reversed, unaligned, '
        'as fields of records, memory-mapped files, read-only or broadcast arrays; every property, the temperatures and the observables each in its own representation. All results against those of plain contiguous doubles. '
        'Distinct by hash of values and representations.')


def whole(a):
    return bool((np.asarray(a) == np.round(np.asarray(a))).all())


def represent(ctx, rng, a, folder, unsigned=True):
    """(array of equal values, description)."""
    a = np.array(a, float)
    kinds = ['f8', '>f8', '>f8', 'g']
    if whole(a):
        kinds += ['i8', 'i4', '>i4', '>i8']
        if unsigned and (a >= 0).all():
            kinds += ['u4', 'u8', '>u4']
    dt = np.dtype(gen.pick(rng, kinds))
    x = a.astype(dt)
    way = gen.pick(rng, ['plain', 'fortran', 'strided', 'last', 'reversed', 'field', 'unaligned', 'memmap', 'readonly', 'transposed', 'broadcast', 'spread'])
    if way == 'fortran':
        x = np.asfortranarray(x)
    elif way == 'strided':
        big = np.full((x.shape[0] * 3,) + x.shape[1:], 77, dt)
        big[1::3] = x
        x = big[1::3]
    elif way == 'last':
        big = np.full(x.shape[:-1] + (x.shape[-1] * 2,), 55, dt)
        big[..., ::2] = x
        x = big[..., ::2]
    elif way == 'reversed':
        s = tuple(slice(None, None, -1) for _ in x.shape)
        x = x[s].copy()[s]
    elif way == 'field':
        r = np.zeros(x.shape[0], np.dtype([('a', 'i1'), ('x', dt, x.shape[1:]), ('b', 'f4')]))
        r['x'] = x
        x = r['x']
    elif way == 'unaligned':
        buf = np.zeros(x.nbytes + 3, np.uint8)
        y = buf[3:].view(dt).reshape(x.shape) if dt.itemsize else x
        y[...] = x
        x = y
    elif way == 'memmap':
        path = os.path.join(folder, 'm%d.npy' % int(rng.integers(1 << 30)))
        np.save(path, x)
        x = np.load(path, mmap_mode=gen.pick(rng, ['r', 'c']))
    elif way == 'readonly':
        x.flags.writeable = False
    elif way == 'transposed':
        x = np.array(x.T, order='C').T
    elif way == 'broadcast' and x.shape[0] > 1 and (x == x[:1]).all():
        x = np.broadcast_to(x[0], x.shape)
    elif way in ('broadcast', 'spread') and x.ndim > 1 and (x == x[:, :1]).all():
        x = np.broadcast_to(x[:, :1], x.shape)
    if not (np.asarray(x).astype(np.longdouble) == a.astype(np.longdouble)).all():
        raise AssertionError('representation changed the values')
    ctx.count('as_' + way)
    ctx.count('dtype_' + dt.str.replace('<', '').replace('|', ''))
    return x, '%s %s' % (dt.str, way)


def values(rng, shape, lo, hi):
    """Whole numbers or multiples of 1/64; sometimes all equal."""
    mode = int(rng.integers(4))
    if mode < 2:
        x = rng.integers(lo, hi, shape).astype(float)
    elif mode == 2:     # doubles with all their digits
        x = rng.uniform(lo, hi, shape)
    else:
        x = rng.integers(lo * 64, hi * 64, shape) / 64.
    if len(shape) and rng.random() < 0.15:
        x = np.broadcast_to(x[:1], x.shape).copy()
    elif len(shape) > 1 and rng.random() < 0.2:     # every mode (moment, temperature) alike
        x = np.broadcast_to(x[:, :1], x.shape).copy()
    return x


def landscape(rng, N, D):
    kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
    E = values(rng, (N,), -3, 3) if rng.random() < 0.5 else values(rng, (N,), 0, 2) / 16 - int(rng.integers(0, 3)) * 1000
    return gen.Landscape(kinds, E, rng.integers(1, 12, N).astype(float), values(rng, (N, D), 1, 60), values(rng, (N, 3), 1, gen.pick(rng, [3000, 3000, 100000, 20000000])), rng.integers(1, 61, N).astype(float))


def judge(ctx, rng, land, T, B, folder):
    reps, how = {}, {}
    for k, v in land.arrays().items():
        reps[k], how[k] = represent(ctx, rng, v, folder, k != 'E') if rng.random() < 0.8 else (v, 'plain')
    t, how['T'] = represent(ctx, rng, T, folder)
    b, how['observable'] = represent(ctx, rng, B, folder)
    other = land.replace(**reps)
    ctx.note.update(land.describe(), T=T, representations=how)
    amp = ref.Model(land).amplitude(T)
    sa, sb = land.build(), other.build()
    N, M = land.N, T.size
    images = [np.asarray(x).tobytes() for x in list(reps.values()) + [t, b]]
    Pa, Pb = oracle.distribution(ctx, sa.calc_probability(T), N, M), oracle.distribution(ctx, sb.calc_probability(t), N, M)
    oracle.same_logP(ctx, Pb, logs(Pa), amp, 'calc_probability of other representations')
    Aa, Ab = oracle.as_table(ctx, sa.calc_ensemble_average(T, B), 1, M, 'calc_ensemble_average'), oracle.as_table(ctx, sb.calc_ensemble_average(t, b), 1, M, 'calc_ensemble_average')
    d = np.abs(Aa - Ab).max()
    ctx.check(d <= np.abs(B).max() * oracle.log_tol(amp).max(), 'calc_ensemble_average of other representations differs by %r' % float(d))
    Ca, Cb = oracle.as_table(ctx, sa.calc_heat_capacity(T), 1, M, 'calc_heat_capacity')[0], oracle.as_table(ctx, sb.calc_heat_capacity(t), 1, M, 'calc_heat_capacity')[0]
    d = np.abs(Ca - Cb)
    d = np.where(np.isnan(d), np.inf, d)
    tol = 1e-9 * (1 + np.abs(Ca)) + 1e-12 * amp
    k = int((d - tol).argmax())
    ctx.check((d <= tol).all(), 'calc_heat_capacity at %r K is %r for another representation, %r for the plain one' % (float(T[k]), float(Cb[k]), float(Ca[k])))
    with np.errstate(all='ignore'):
        za, zb = np.log(ref.ld(sa.calc_partition_functions(T))), np.log(ref.ld(sb.calc_partition_functions(t)))
        fine = (np.abs(za) < 300)
        d = np.where(fine, np.abs(za - zb), 0)
        # factors on their own may have been lost
        for p in sa.partition_functions:
            lp = np.log(np.abs(ref.ld(p.calc_part_func(T))))
            d = np.where(np.abs(lp) < 300, d, 0)
    d = np.where(np.isnan(d), np.inf, d)
    ctx.check((d <= oracle.log_tol(amp)).all(), 'calc_partition_functions of other representations differs by %r (logarithm)' % float(d.max()))
    for pa, pb, kind in zip(sa.partition_functions, sb.partition_functions, land.kinds):
        for name in ('calc_part_func_w', 'calc_part_func_v'):
            x, y = ref.ld(getattr(pa, name)(T)), ref.ld(getattr(pb, name)(t))
            ctx.check(x.shape == y.shape, '%s (%s) has another shape for another representation' % (name, kind))
            with np.errstate(invalid='ignore'):
                ok = (x == y) | (np.abs(x - y) <= 1e-9 + 1e-11 * np.abs(x) + 4e-15 * amp) | (np.isnan(x) & np.isnan(y))
            ctx.check(ok.all(), '%s (%s) differs for another representation' % (name, kind))
    ctx.check([np.asarray(x).tobytes() for x in list(reps.values()) + [t, b]] == images, 'an argument was modified')
    ctx.sample({'kinds': land.kinds, 'representations': how})
    return digest(land.kinds, *land.arrays().values(), T, B, sorted(how.items()))


def temperatures(rng, kinds):
    M = int(rng.integers(1, 25))
    T = values(rng, (M,), 0, gen.pick(rng, [30, 1000]))
    if rng.random() < 0.3:
        T = np.arange(M) * 1.
    return T


def whole_systems(ctx, rng):
    folder = ctx.tmpdir()
    N, D = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    land = landscape(rng, N, D)
    T = temperatures(rng, land.kinds)
    return judge(ctx, rng, land, T, values(rng, (N, T.size), -50, 50), folder)


def large(ctx, rng):
    folder = ctx.tmpdir()
    N, D = gen.pick(rng, [(int(rng.integers(100, 400)), 3), (3, int(rng.integers(100, 400))), (40, 40)])
    land = landscape(rng, N, D)
    T = values(rng, (int(rng.integers(1, 60)),), 1, 900)
    return judge(ctx, rng, land, T, values(rng, (N, T.size), -50, 50), folder)


def primitives(ctx, rng):
    folder = ctx.tmpdir()
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    T, E, F = values(rng, (m,), 0, 900), values(rng, (n,), -9, 9), values(rng, (n, m), 0, 50)
    (t, ht), (e, he), (f, hf) = (represent(ctx, rng, x, folder) for x in (T, E, F))
    ctx.note.update(T=T, E=E, F=F, representations=[ht, he, hf])
    with np.errstate(all='ignore'):
        for what, x, y in (('calc_beta', utils.calc_beta(T), utils.calc_beta(t)), ('calc_exponent', utils.calc_exponent(E, T), utils.calc_exponent(e, t)),
                           ('calc_geometric_mean', utils.calc_geometric_mean(F), utils.calc_geometric_mean(f))):
            oracle.close(ctx, y, x, 1e-12, 1e-300, what + ' of another representation')
    d1 = {'a': E, 'b': F, 'c': T}
    d2 = {'c': t, 'b': f, 'a': e}
    ctx.check(utils.compare_numpy_dictionaries(d1, d2) is True or bool(utils.compare_numpy_dictionaries(d1, d2)), 'dictionaries of equal arrays in other representations compare as different')
    k = int(rng.integers(E.size))
    g = e.copy()
    g[k] = g[k] + 1
    ctx.check(not utils.compare_numpy_dictionaries(d1, {'c': t, 'b': f, 'a': g}), 'dictionaries with different values in other representations compare as equal')
    return digest(T, E, F, ht, he, hf)


STREAMS = [Stream('whole_systems', whole_systems, 2100, 15000), Stream('large', large, 180, 1200), Stream('primitives', primitives, 900, 6000)]
