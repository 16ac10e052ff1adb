"""C09: heat capacity is the temperature derivative of the internal energy."""
import numpy as np

from rtm import gen, oracle, ref
from rtm.core import Stream, digest
from rtm.props import weights

RULE = ('Landscapes of all 17 contribution subsets at T > 0 (1e-4 to 1e6 K), including gaps and zero-point differences tuned to a few kT so that electronic and '
        'vibrational energies are correlated; heat capacity compared with an extended-precision reference, with 60-digit numerical differentiation of ln Z, '
        'and with finite differences of the internal energy <-W>kT obtained from the library. Non-trivial: two occupied minima or a vibrational term; distinct by hash.')


def compare(ctx, land, T):
    ctx.note.update(land.describe(), T=T)
    model = ref.Model(land)
    C = oracle.as_table(ctx, land.build().calc_heat_capacity(T), 1, T.size, 'calc_heat_capacity')[0]
    expected = model.heat_capacity(T)
    tol = 1e-8 + 10 * oracle.log_tol(model.amplitude(T))
    with np.errstate(invalid='ignore'):
        d = np.abs(C - expected)
    d = np.where(np.isnan(d), np.inf, d)
    lim = tol * expected + 1e-9
    k = int((d - lim).argmax())
    ctx.check((d <= lim).all(), 'heat capacity at %r K is %r, expected %r' % (float(T[k]), float(C[k]), float(expected[k])))
    ctx.count('heat_capacities', T.size)
    ctx.sample({'land': land.describe(), 'T': T, 'C': C})
    if land.kinds == 'r' or (expected < 1e-9).all():
        return None
    return digest(land.kinds, *land.arrays().values(), T)


def general(ctx, rng):
    land = gen.landscape(rng)
    T, _ = gen.temperatures(rng, zero=False, N=land.N, D=land.freq.shape[1])
    return compare(ctx, land, T)


def bulk(ctx, rng):
    land, T = gen.bulk(rng, zero=False)
    return compare(ctx, land, T)


def coupled(ctx, rng):
    """Energies and zero-point energies a few kT apart, so that their covariance matters."""
    N, D = int(rng.integers(2, 9)), int(rng.integers(1, 16))
    T = 10. ** rng.uniform(-1, 3.5, int(rng.integers(1, 12)))
    nu = float(ref.KB / ref.H) * T[0]
    f = nu * 10. ** rng.uniform(-1., 0.8, D) * (1 + rng.uniform(-1, 1, (N, D)) * gen.pick(rng, [0.05, 0.3, 0.7]))
    land = gen.landscape(rng, gen.pick(rng, ['sq', 'eq', 'q', 'sqr', 'qr', 'sc', 'scr']), max_n=1, max_d=3)
    E = float(land.E[0]) + float(ref.KB) * T[0] * rng.uniform(0, 5, N)
    land = land.replace(freq=gen.layout(rng, f), E=gen.layout(rng, E), g=gen.spins(rng, N),
                        moments=np.abs(rng.normal(size=(N, 3))) + 0.5, sigma=gen.orders(rng, N))
    land.N = N
    return compare(ctx, land, T)


def derivative(ctx, rng):
    """C/kB = dU/d(kT), U = -kT <W> from the library, by fourth-order differences."""
    land = gen.landscape(rng, max_n=20, max_d=30)
    T0 = 10. ** rng.uniform(0.3, 3.3, 4)
    h = 1e-3
    ctx.note.update(land.describe(), T=T0)
    sa = land.build()

    def U(T):
        w = sa.combine_contributions(T, np.sum, 'calc_part_func_w')
        return -ref.ld(T) * ref.ld(sa.calc_ensemble_average(T, w))[0]
    D = (8 * (U(T0 * (1 + h)) - U(T0 * (1 - h))) - (U(T0 * (1 + 2 * h)) - U(T0 * (1 - 2 * h)))) / (12 * h * ref.ld(T0))
    C = ref.ld(sa.calc_heat_capacity(T0))[0]
    amp = ref.Model(land).amplitude(T0)
    # the truncation error grows as (amplitude * h)^4; only well-resolved points decide
    good = amp * h < 0.02
    d = np.abs(C - D)
    lim = 1e-6 * (1 + C) * (1 + amp) ** 2 * 1e-2 + 1e-7 * (1 + C)
    ctx.check((d <= lim)[good].all(), 'heat capacity %s but dU/dT %s' % (C.astype(float), D.astype(float)))
    ctx.count('finite_differences', int(good.sum()))
    return digest(land.kinds, *land.arrays().values(), T0) if good.any() else None


def mp(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, ['sq', 'scr', 'sqr', 's', 'q', 'sc', 'qr']), max_n=6, max_d=12)
    T = float(10. ** rng.uniform(0, 3.3))
    ctx.note.update(land.describe(), T=T)
    _, C = weights.cross_examine(ctx, land, T)
    Ta = np.array([T])
    assert abs(ref.Model(land).heat_capacity(Ta)[0] - C) <= 1e-7 * (1 + C), 'reference disagrees with mpmath'
    oracle.close(ctx, land.build().calc_heat_capacity(Ta), np.array([[C]]), 1e-7, 1e-7, 'calc_heat_capacity (mpmath)')
    return digest(*land.arrays().values(), T)


STREAMS = [Stream('general', general, 2000, 22000), Stream('coupled', coupled, 1800, 20000),
           Stream('derivative', derivative, 600, 6000), Stream('mpmath', mp, 80, 1000), Stream('bulk', bulk, 140, 1600)]
