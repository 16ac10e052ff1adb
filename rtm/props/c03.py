"""C03: classical vibrational weights are the inverse products of frequencies."""
import numpy as np

from rtm import gen, ref
from rtm.core import Stream, digest
from rtm.props import weights

RULE = ('Frequency tables (metallic, organic, soft down to 1e-3 THz, equal, integer, scaled, permuted modes; 1-700 modes) with the classical '
        'contribution alone and with others; partition functions and probabilities compared with sums of logarithms in extended precision. '
        'Non-trivial: two minima occupied above 1e-9; distinct by the hash of all inputs.')


def alone(ctx, rng):
    land = gen.landscape(rng, 'c')
    T, _ = gen.temperatures(rng, zero=True, inf=True, N=land.N, D=land.freq.shape[1])
    return weights.compare(ctx, land, T)


def many_modes(ctx, rng):
    N, D = int(rng.integers(2, 10)), int(rng.integers(60, 900))
    base = 10. ** rng.uniform(-1, 2)
    f = base * rng.uniform(0.5, 2., D) * (1 + rng.uniform(-1, 1, (N, D)) * 10. ** rng.uniform(-3, -0.5))
    land = gen.landscape(rng, 'c', max_n=1, max_d=3).replace(freq=gen.layout(rng, f))
    land.N = N
    T, _ = gen.temperatures(rng, zero=True, inf=True, max_m=6)
    return weights.compare(ctx, land, T)


def with_others(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, ['ec', 'sc', 'cr', 'scr', 'ecr']))
    T, _ = gen.temperatures(rng, zero=False, inf=True, N=land.N, D=land.freq.shape[1])
    return weights.compare(ctx, land, T)


def mp(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, ['c', 'sc']), max_n=8, max_d=30)
    T = float(10. ** rng.uniform(0, 3.5))
    ctx.note.update(land.describe(), T=T)
    weights.cross_examine(ctx, land, T)
    return digest(*land.arrays().values(), T)


def bulk(ctx, rng):
    land, T = gen.bulk(rng, gen.pick(rng, ['c', 'c', 'sc', 'cr', 'scr']), zero=False)
    return weights.compare(ctx, land, T)


STREAMS = [Stream('bulk', bulk, 210, 1600), Stream('alone', alone, 4500, 30000), Stream('many_modes', many_modes, 750, 5000),
           Stream('with_others', with_others, 1500, 10000), Stream('mpmath', mp, 90, 800)]
