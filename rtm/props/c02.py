"""C02: electronic weights are the exact Boltzmann factors."""
import numpy as np

from rtm import gen, ref
from rtm.core import Stream, digest
from rtm.props import weights

RULE = ('Energies (clustered, degenerate, near-degenerate, wide, integer, offset by up to -75000 eV, unsorted), multiplicities and '
        'temperature grids (also infinite); partition functions and probabilities compared with an extended-precision reference. '
        'Non-trivial: two minima occupied above 1e-9 at some temperature; distinct by the hash of all inputs.')


def alone(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, ['e', 's', 's']))
    T, _ = gen.temperatures(rng, zero=False, inf=True, N=land.N)
    if T.dtype.kind == 'f' and rng.random() < 0.1:
        T = T * 10. ** rng.uniform(2, 6)
    return weights.compare(ctx, land, T)


def ladder(ctx, rng):
    """Gaps tuned to the temperature, so that every factor is visible."""
    N = int(rng.integers(2, 30))
    T = 10. ** rng.uniform(-2, gen.pick(rng, [4, 4, 4, 10]), int(rng.integers(1, 20)))
    kT = float(ref.KB) * T[0]
    E = rng.normal() * 10. ** rng.uniform(-2, 4) + kT * rng.uniform(0, 30, N)
    land = gen.landscape(rng, 's', max_n=1)
    land = land.replace(E=E, g=gen.spins(rng, N))
    land.N = N
    return weights.compare(ctx, land, T)


def with_others(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, ['ec', 'sc', 'sq', 'eq', 'sr', 'er', 'scr', 'sqr']))
    T, _ = gen.temperatures(rng, zero=False, N=land.N, D=land.freq.shape[1])
    return weights.compare(ctx, land, T)


def mp(ctx, rng):
    land = gen.landscape(rng, 's', max_n=8)
    T = float(10. ** rng.uniform(0, 3.5))
    ctx.note.update(land.describe(), T=T)
    weights.cross_examine(ctx, land, T)
    return digest(*land.arrays().values(), T)


def bulk(ctx, rng):
    land, T = gen.bulk(rng, gen.pick(rng, ['e', 's', 's', 'sc', 'sr', 'eq']), zero=False)
    return weights.compare(ctx, land, T)


def setup(ctx):
    gen.SMALL.update(['spins', 'temperatures'])


STREAMS = [Stream('bulk', bulk, 210, 1600), Stream('alone', alone, 4500, 30000), Stream('ladder', ladder, 1800, 12000),
           Stream('with_others', with_others, 1500, 10000), Stream('mpmath', mp, 120, 1000)]
