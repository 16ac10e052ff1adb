"""C04: quantum vibrational weights are exact, from zero-point to classical regime."""
import numpy as np

from rtm import gen, oracle, ref
from rtm.core import Stream, digest
from rtm.props import weights

RULE = ('Frequency tables (0.001-130 THz, 1-400 modes) at temperatures from 1e-4 K (h nu/kT up to 1e8) to 1e6 K; partition functions and probabilities '
        'compared with an extended-precision reference, and at high temperature with the classical contribution of the library itself. '
        'Non-trivial: two minima occupied above 1e-9; distinct by the hash of all inputs.')


def alone(ctx, rng):
    land = gen.landscape(rng, 'q')
    T, _ = gen.temperatures(rng, zero=False, N=land.N, D=land.freq.shape[1])
    return weights.compare(ctx, land, T)


def tuned(ctx, rng):
    """x = h nu/2kT of order one and zero-point differences of a few kT."""
    N, D = int(rng.integers(2, 9)), int(rng.integers(1, 16))
    T = 10. ** rng.uniform(-1, 3.5, int(rng.integers(1, 12)))
    nu = float(ref.KB / ref.H) * T[0]
    f = nu * 10. ** rng.uniform(-1.5, 0.8, D) * (1 + rng.uniform(-1, 1, (N, D)) * gen.pick(rng, [0.01, 0.1, 0.7]))
    land = gen.landscape(rng, gen.pick(rng, ['q', 'q', 'sq']), max_n=1, max_d=3)
    E = land.E[0] + float(ref.KB) * T[0] * rng.uniform(0, 5, N)
    land = land.replace(freq=gen.layout(rng, f), E=E, g=gen.spins(rng, N))
    land.N = N
    return weights.compare(ctx, land, T)


def with_others(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, ['eq', 'sq', 'qr', 'sqr', 'eqr']))
    T, _ = gen.temperatures(rng, zero=False, N=land.N, D=land.freq.shape[1])
    return weights.compare(ctx, land, T)


def classical_limit(ctx, rng):
    """Two contributions of the library against each other: |ln P_q - ln P_c| <= sum of x^2/6 ."""
    land = gen.landscape(rng, 'q', max_d=40)
    fmax = float(np.max(land.freq))
    T = np.array([float(ref.H / ref.KB) * fmax / 2 / 10. ** rng.uniform(-4, -1) for _ in range(4)])
    ctx.note.update(land.describe(), T=T)
    P = [ref.ld(land.build(k).calc_probability(T)) for k in 'qc']
    x = 0.5 * ref.H * ref.ld(land.freq)[:, :, None] * ref.beta(T)[None, None, :]
    bound = 2 * (x ** 2 / 6).sum(axis=1).max(axis=0) + 1e-9
    seen = (P[0] > 1e-200) & (P[1] > 1e-200)
    with np.errstate(divide='ignore', invalid='ignore'):
        d = np.where(seen, np.abs(np.log(P[0]) - np.log(P[1])), 0)
    ctx.check((d <= bound).all(), 'quantum and classical probabilities differ by %r in logarithm, allowed %r' % (
        float(d.max()), float(bound[d.max(axis=0).argmax()])))
    ctx.count('classical_limits', T.size)
    return digest(land.freq, T) if oracle.nontrivial(P[0]) else None


def mp(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, ['q', 'sq']), max_n=6, max_d=20)
    T = float(10. ** rng.uniform(0, 3.5))
    ctx.note.update(land.describe(), T=T)
    weights.cross_examine(ctx, land, T)
    return digest(*land.arrays().values(), T)


def bulk(ctx, rng):
    land, T = gen.bulk(rng, gen.pick(rng, ['q', 'q', 'sq', 'qr']), zero=False)
    return weights.compare(ctx, land, T)


STREAMS = [Stream('bulk', bulk, 140, 1600), Stream('alone', alone, 1800, 20000), Stream('tuned', tuned, 1400, 14000),
           Stream('with_others', with_others, 1000, 10000), Stream('classical_limit', classical_limit, 400, 4000),
           Stream('mpmath', mp, 60, 800)]
