"""C10: heat capacity is finite, non-negative and respects equipartition."""
import numpy as np

import occuprob as op
from rtm import gen, oracle, ref, taps
from rtm.core import Stream, digest

RULE = ('Landscapes of every contribution subset at all temperatures including 0 K and extremes (1e-290 to 1e8 K); an observer on calc_heat_capacity checks every value; '
        'ultracold columns (1e-290 to 1e-5 K) and columns at 0 K are compared with the limit and hot columns with equipartition within an analytic bound. Non-trivial: vibrations, or two minima; distinct by hash.')


def drive(ctx, land, T):
    ctx.note.update(land.describe(), T=T)
    D = land.freq.shape[1]

    def after(args, kwargs, C):
        C = oracle.as_table(ctx, C, 1, T.size, 'calc_heat_capacity')[0]
        ctx.check(np.isfinite(C).all(), 'heat capacity contains %r' % C[~np.isfinite(C)][:3].astype(float))
        ctx.check((C >= 0).all(), 'negative heat capacity %r at %r K' % (float(C.min()), float(T[C.argmin()])))
        low = D * ('c' in land.kinds) + 1.5 * ('r' in land.kinds)
        for j in np.nonzero(np.asarray(T) == 0)[0]:
            ctx.check(abs(C[j] - low) <= 1e-9 * (1 + low), 'heat capacity at 0 K is %r instead of %r' % (float(C[j]), low))
            ctx.count('columns_at_0K')
        # classical vibrations and rotations are always fully excited
        ctx.check((C >= low - 1e-9 * (1 + low)).all(), 'heat capacity %r below the classical terms %r' % (float(C.min()), low))
        ctx.count('heat_capacities', C.size)
    with taps.Taps() as t:
        t.wrap(op.SuperpositionApproximation, 'calc_heat_capacity', after=after)
        C = land.build().calc_heat_capacity(T)
    ctx.sample({'land': land.describe(), 'T': T, 'C': C})
    return digest(land.kinds, *land.arrays().values(), T) if land.N > 1 or 'q' in land.kinds else None


def general(ctx, rng):
    land = gen.landscape(rng)
    T, _ = gen.temperatures(rng, N=land.N, D=land.freq.shape[1])
    return drive(ctx, land, T)


def bulk(ctx, rng):
    land, T = gen.bulk(rng)
    return drive(ctx, land, T)


def extreme(ctx, rng):
    land = gen.landscape(rng, max_n=10)
    f = rng.uniform(0.5, 10. ** rng.uniform(0, 2.1), (land.N, int(rng.integers(20, 120))))
    land = land.replace(freq=f)
    T = 10. ** rng.uniform(-5, 8, int(rng.integers(1, 14)))
    if rng.random() < 0.5:
        T[rng.integers(T.size)] = 0.
    return drive(ctx, land, T)


def single(ctx, rng):
    """One minimum: no variance, exact equipartition; where cancellation would show."""
    land = gen.landscape(rng, gen.pick(rng, ['q', 'eq', 'qr', 'sqr', 'c', 'scr', 's']))
    land = land.take(np.array([int(rng.integers(land.N))]))
    T = 10. ** rng.uniform(-3, 6, 8)
    sig = drive(ctx, land, T)
    C = ref.ld(land.build().calc_heat_capacity(T))[0]
    v = ref.Model(land).V(T)[0]
    oracle.close(ctx, C, v, 1e-9, 1e-12, 'heat capacity of a single minimum')
    return sig or digest(land.kinds, land.freq, T)


def equipartition(ctx, rng):
    land = gen.landscape(rng, max_n=30, max_d=60)
    big = 1e-3
    if 'e' in land.kinds or 's' in land.kinds:
        big = max(big, float(np.max(land.E)) - float(np.min(land.E)))
    if 'q' in land.kinds:
        big = max(big, float(ref.H) * float(np.max(land.freq)))
    T = np.minimum(big / float(ref.KB) * 10. ** rng.uniform(1, 6, 5), 1e9)
    ctx.note.update(land.describe(), T=T)
    C = oracle.as_table(ctx, land.build().calc_heat_capacity(T), 1, T.size, 'calc_heat_capacity')[0]
    D = land.freq.shape[1]
    expected = D * ('c' in land.kinds or 'q' in land.kinds) + 1.5 * ('r' in land.kinds)
    b = ref.beta(T)
    spread = (ref.ld(land.E).max() - ref.ld(land.E).min()) * b if ('e' in land.kinds or 's' in land.kinds) else 0 * b
    zp = 0 * b
    if 'q' in land.kinds:
        zp = ((0.5 * ref.H * ref.ld(land.freq)) ** 2).sum(axis=1).max() * b ** 2 / 3
    lim = (spread + zp) ** 2 + zp + 1e-9 * (1 + expected)
    d = np.abs(C - expected)
    k = int((d - lim).argmax())
    ctx.check((d <= lim).all(), 'heat capacity at %r K is %r; equipartition gives %r within %r' % (
        float(T[k]), float(C[k]), expected, float(lim[k])))
    ctx.count('hot_columns', T.size)
    return digest(land.kinds, *land.arrays().values(), T)


def ultracold(ctx, rng):
    """Far below every gap, where exponents and W reach 1e14 to 1e290."""
    land = gen.landscape(rng, max_n=12, max_d=40)
    if rng.random() < 0.4:
        land = land.take(np.array([int(rng.integers(land.N))]))
    T = 10. ** rng.uniform(-290, -5, int(rng.integers(1, 12)))
    if rng.random() < 0.5:
        T = 10. ** rng.uniform(-16, -5, T.size)
    # energies of the ground states and the smallest quantum
    ground, first = np.zeros(land.N, np.longdouble), np.longdouble(1)
    if 'e' in land.kinds or 's' in land.kinds:
        ground = ground + ref.ld(land.E)
        first = min(first, np.longdouble(1e-12) * (1 + np.abs(ref.ld(land.E)).max()))
    if 'q' in land.kinds:
        ground = ground + 0.5 * ref.H * ref.ld(land.freq).sum(axis=1)
        first = min(first, ref.H * ref.ld(land.freq).min())
    gaps = np.sort(ground)[1:] - np.sort(ground)[:-1]
    smallest = min(gaps[gaps > 1e-12 * (1 + np.abs(ground).max())].min(initial=np.inf), first)
    T = T[T * float(ref.KB) * 2000 < float(smallest)]
    if T.size == 0:
        return None
    # sums of the same frequencies in another order differ by their round-off
    alike = 'q' in land.kinds and bool((gaps <= 1e-12 * (1 + np.abs(ground).max())).any())
    ctx.note.update(land.describe(), T=T)
    C = oracle.as_table(ctx, land.build().calc_heat_capacity(T), 1, T.size, 'calc_heat_capacity')[0]
    low = land.freq.shape[1] * ('c' in land.kinds) + 1.5 * ('r' in land.kinds)
    ctx.check(np.isfinite(C).all() and (C >= low - 1e-9 * (1 + low)).all(), 'heat capacity %r at ultralow temperatures' % float(C.min()))
    d = np.abs(C - low)
    k = int(d.argmax())
    ctx.check(alike or (d <= 1e-9 * (1 + low)).all(), 'heat capacity at %r K is %r instead of %r' % (float(T[k]), float(C[k]), low))
    ctx.count('ultracold_columns', T.size)
    ctx.count('ultracold_columns_compared', 0 if alike else T.size)
    return digest(land.kinds, *land.arrays().values(), T)


STREAMS = [Stream('ultracold', ultracold, 1800, 12000), Stream('bulk', bulk, 210, 1600), Stream('general', general, 3000, 22000), Stream('extreme', extreme, 1500, 10000),
           Stream('single', single, 1200, 8000), Stream('equipartition', equipartition, 1500, 10000)]
