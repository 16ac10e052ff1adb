"""C05: rotational weights are sqrt(I1 I2 I3)/sigma."""
import numpy as np

from rtm import gen, ref
from rtm.core import Stream, digest
from rtm.props import weights

RULE = ('Moments of inertia over four decades, symmetric tops, linear isomers with null moments exact or with round-off of either sign, integer tables, '
        'symmetry orders 1-60; partition functions and probabilities compared with the reference. '
        'Non-trivial: two minima occupied above 1e-9; distinct by the hash of all inputs.')


def alone(ctx, rng):
    land = gen.landscape(rng, 'r')
    if rng.random() < 0.1 and land.moments.dtype.kind == 'f':       # in other units
        land = land.replace(moments=land.moments * 10. ** rng.uniform(-47, 20))
    T, _ = gen.temperatures(rng, zero=True, inf=True, N=land.N)
    return weights.compare(ctx, land, T)


def linear(ctx, rng):
    """Only and mixed linear isomers; noise of both signs on the null moment, in any position."""
    N = int(rng.integers(2, 10))
    m = np.sort(rng.uniform(0.2, 3., (N, 3)), axis=1) * 10. ** rng.uniform(-1, 5)
    for i in range(N):
        if rng.random() < 0.6:
            m[i, 1] = m[i, 2]
            m[i, 0] = gen.pick(rng, [0., 0., -0., 1e-15, -1e-15, 1e-30, -1e-13, 2e-14, 5e-324, -3e-28]) * (
                m[i, 2] if rng.random() < 0.5 else 1.)
            if abs(m[i, 0]) > 1e-11 * m[i, 2]:
                m[i, 0] = 0.
            if rng.random() < 0.3:
                m[i] = rng.permutation(m[i])
        elif rng.random() < 0.1:
            m[i] = 0.       # a single atom
    land = gen.landscape(rng, gen.pick(rng, ['r', 'r', 'sr']), max_n=1).replace(
        moments=gen.layout(rng, m), sigma=gen.orders(rng, N), E=np.zeros(N), g=gen.spins(rng, N))
    land.N = N
    T, _ = gen.temperatures(rng, zero=False, N=N, max_m=10)
    return weights.compare(ctx, land, T)


def with_others(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, ['er', 'sr', 'cr', 'qr', 'scr', 'sqr']))
    T, _ = gen.temperatures(rng, zero=False, N=land.N, D=land.freq.shape[1])
    return weights.compare(ctx, land, T)


def mp(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, ['r', 'sr', 'scr', 'sqr']), max_n=6, max_d=12)
    T = float(10. ** rng.uniform(0, 3.5))
    ctx.note.update(land.describe(), T=T)
    weights.cross_examine(ctx, land, T)
    return digest(*land.arrays().values(), T)


def bulk(ctx, rng):
    land, T = gen.bulk(rng, gen.pick(rng, ['r', 'r', 'sr', 'cr', 'qr']), zero=False)
    return weights.compare(ctx, land, T)


def setup(ctx):
    gen.SMALL.update(['orders', 'temperatures'])


STREAMS = [Stream('bulk', bulk, 210, 1600), Stream('alone', alone, 3600, 25000), Stream('linear', linear, 2400, 16000),
           Stream('with_others', with_others, 1500, 10000), Stream('mpmath', mp, 90, 800)]
