"""C01: occupation probabilities form a distribution at every temperature."""
import numpy as np

import occuprob as op
from rtm import gen, oracle, taps
from rtm.core import Stream, digest

RULE = ('Swarm-generated landscapes (1-150 minima, 1-400 modes, energies from 1e-8 to 100 eV apart with any offset, '
        'stiff/soft/degenerate modes, noisy linear isomers, all 17 contribution subsets) and temperature grids; an observer '
        'on calc_probability checks every call, also those made by ensemble averages and heat capacities. Non-trivial: '
        'at least two minima and two entries to add up; distinct by the hash of all inputs.')


def observed(ctx, expect):
    def after(args, kwargs, result):
        ctx.count('calc_probability_returns')
        T = args[1] if len(args) > 1 else kwargs.get('temperature')
        oracle.distribution(ctx, result, expect['N'], T.size)
    return after


def drive(ctx, land, T, rng):
    sa = land.build()
    ctx.note.update(land.describe(), T=T)
    with taps.Taps() as t:
        t.wrap(op.SuperpositionApproximation, 'calc_probability', after=observed(ctx, {'N': land.N}))
        P = sa.calc_probability(T)
        if rng.random() < 0.3:
            sa.calc_ensemble_average(T, rng.normal(size=(land.N, T.size)))
        if rng.random() < 0.3:
            sa.calc_heat_capacity(T)
    oracle.distribution(ctx, P, land.N, T.size)
    ctx.sample({'land': land.describe(), 'T': T, 'P': P})
    if land.N < 2:
        return None
    return digest(land.kinds, *land.arrays().values(), T)


def general(ctx, rng):
    land = gen.landscape(rng)
    T, _ = gen.temperatures(rng, inf='q' not in land.kinds, N=land.N, D=land.freq.shape[1])
    return drive(ctx, land, T, rng)


def extreme(ctx, rng):
    """Weights that cannot be represented: stiff and many modes, very cold or very hot."""
    kinds = gen.pick(rng, ['c', 'q', 'sc', 'sq', 'eq', 'scr', 'sqr', 'cr', 'qr', 's', 'sr'])
    N = int(rng.integers(2, 8))
    D = int(rng.integers(30, 700 if 'q' not in kinds else 180))
    land = gen.landscape(rng, kinds, max_n=N)
    f = rng.uniform(0.5, 10. ** rng.uniform(0, 2.1), (land.N, D))
    if rng.random() < 0.3:
        f = f * 10. ** rng.uniform(-4, 0)
    land = land.replace(freq=f)
    T = 10. ** rng.uniform(-5, 7, int(rng.integers(1, 12)))
    if rng.random() < 0.4:
        T[rng.integers(T.size)] = 0.
    return drive(ctx, land, T, rng)


def large(ctx, rng):
    kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
    N = int(rng.integers(100, 1200 if 'q' not in kinds else 150))
    land = gen.landscape(rng, kinds, max_n=1)
    D = 6
    E, _ = gen.energies(rng, N)
    f, _ = gen.frequencies(rng, N, D)
    m, _ = gen.moments_(rng, N)
    land = land.replace(E=E, g=gen.spins(rng, N), freq=f, moments=m, sigma=gen.orders(rng, N))
    land.N = N
    T = np.arange(0., rng.integers(2, 1500 if N < 500 and 'q' not in kinds else 60))
    return drive(ctx, land, T, rng)


def bulk(ctx, rng):
    land, T = gen.bulk(rng)
    return drive(ctx, land, T, rng)


def crowd(ctx, rng):
    land, T = gen.crowd(rng)
    return drive(ctx, land, T, rng)


STREAMS = [Stream('crowd', crowd, 14, 120), Stream('general', general, 4500, 40000), Stream('extreme', extreme, 1200, 8000),
           Stream('large', large, 75, 400), Stream('bulk', bulk, 240, 1600)]
