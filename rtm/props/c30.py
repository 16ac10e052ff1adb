"""C30: probabilities and averages respond to temperature thermodynamically."""
import numpy as np

import occuprob as op
from rtm import gen, oracle, ref
from rtm.core import Stream, digest
from rtm.props import c06

RULE = ('Landscapes of all contribution subsets (and user-defined contributions): ln P and averages differentiated numerically with respect to ln(beta) (fourth order, step adapted to the exponents) and '
        'integrated over finite temperature intervals, against the reported W and its averages and covariances; mean electronic energies compared along sorted temperature grids from 0 K to infinity. '
        'Non-trivial: two occupied minima; distinct by hash.')


def setting(rng, max_amp=150.):
    """A landscape with exponents of moderate size at the temperatures returned."""
    while True:
        land = gen.landscape(rng, max_n=40, max_d=40)
        T = 10. ** rng.uniform(0., 4., 4)
        amp = ref.Model(land).amplitude(T)
        if land.N == 1:
            if rng.random() < 0.1:
                return land, T, amp
            continue
        if amp.min() > max_amp:
            # gaps and vibrational quanta comparable with kT
            s = float(max_amp * rng.random() / amp.min())
            land = land.replace(E=np.asarray(land.E - land.E.min(), float) * s, freq=np.asarray(land.freq, float) * (s if 'q' in land.kinds else 1))
            amp = ref.Model(land).amplitude(T)
        good = amp <= max_amp
        if good.any():
            return land, T[good], amp[good]


def superposition(rng, land, T):
    sa = land.build()
    names = [land.kinds]
    while rng.random() < 0.25:
        sa.add_partition_functions(c06.user(rng, land.N, T)[0])
        names.append('user')
    return sa, names


def differential(ctx, rng):
    land, T, amp = setting(rng)
    sa, names = superposition(rng, land, T)
    ctx.note.update(land.describe(), T=T, contributions=names)
    h = np.minimum(1e-3, 0.01 / (1 + amp + 20)).astype(float)
    B = rng.normal(size=(land.N, 1)) * np.ones((1, T.size))
    grids = {s: T / (1 + s * h) for s in (-2, -1, 1, 2)}
    actual = {s: ref.ld(T) / ref.ld(g) - 1 for s, g in grids.items()}        # steps as rounded
    P, A = {}, {}
    for s, t in grids.items():
        P[s] = oracle.as_table(ctx, sa.calc_probability(t), land.N, t.size, 'calc_probability')
        A[s] = ref.ld(sa.calc_ensemble_average(t, B))[0]
    P0 = oracle.as_table(ctx, sa.calc_probability(T), land.N, T.size, 'calc_probability')
    W = oracle.as_table(ctx, sa.combine_contributions(T, np.sum, 'calc_part_func_w'), land.N, T.size, 'W')
    meanW = ref.ld(sa.calc_ensemble_average(T, np.asarray(W, float)))[0]
    seen = np.all([p > 1e-250 for p in P.values()], axis=0) & (P0 > 1e-250)
    hh = (actual[1] - actual[-1]) / 2

    def diff(y):
        return (8 * (y[1] - y[-1]) - (y[2] - y[-2])) / (12 * hh)
    with np.errstate(divide='ignore', invalid='ignore'):
        got = diff({s: np.log(p) for s, p in P.items()})
        want = W - meanW
    a = ref.ld(amp) + 20
    # truncation h^4 a^5 / 30, round-off of ln P over h, round-off of W (common energy offset)
    tol = 1e-7 * a + (h * a) ** 4 * a + 1e-15 * (a + 20) / h * 20 + 1e-13 * np.abs(W).max(axis=0)
    d = np.where(seen, np.abs(got - want), 0)
    d = np.where(np.isnan(d), np.inf, d)
    if (d > tol).any():
        k = tuple(np.argwhere(d > tol)[0])
        ctx.fail('d lnP/d ln(beta) of minimum %d at %r K is %r but W - <W> = %r' % (k[0], float(T[k[1]]), float(got[k]), float(want[k])), tolerance=float(np.broadcast_to(tol, d.shape)[k]))
    ctx.events['oracle_decisions'] += 1
    # averages: covariance with W
    Bl = ref.ld(B)
    got = diff(A)
    want = (P0 * (Bl - (P0 * Bl).sum(axis=0)) * (W - meanW)).sum(axis=0)
    d = np.abs(got - want)
    lim = tol * np.abs(Bl).max(axis=0)
    ctx.check((d <= lim).all(), 'd<B>/d ln(beta) is %s but the covariance with W is %s' % (got.astype(float), want.astype(float)))
    ctx.count('derivatives_of_lnP', int(seen.sum()))
    ctx.count('derivatives_of_averages', T.size)
    ctx.sample({'contributions': names, 'T': T, 'N': land.N, 'covariance': want})
    return digest(names, *land.arrays().values(), T) if oracle.nontrivial(P0) else None


NODES, WEIGHTS = np.polynomial.legendre.leggauss(12)


def integral(ctx, rng):
    """ln P(T2) - ln P(T1) = integral of W - <W> over ln(beta), whatever happens in between."""
    land, T, amp = setting(rng, 60.)
    t1 = float(T[int(rng.integers(T.size))])
    ratio = float(gen.pick(rng, [1.3, 2., 5., 20.]))
    lo, hi = t1, t1 * ratio     # the exponents decrease towards hi
    sa, names = superposition(rng, land, np.array([lo]))
    ctx.note.update(land.describe(), T1=lo, T2=hi, contributions=names)
    panels = int(np.ceil(float(amp.max() + 20) * np.log(ratio) / 2)) + 4
    edges = np.linspace(-np.log(hi), -np.log(lo), panels + 1)
    x = (edges[:-1, None] + edges[1:, None]) / 2 + (edges[1:, None] - edges[:-1, None]) / 2 * NODES
    w = (edges[1:, None] - edges[:-1, None]) / 2 * WEIGHTS
    t = np.exp(-x.ravel())
    P = oracle.as_table(ctx, sa.calc_probability(t), land.N, t.size, 'calc_probability')
    W = oracle.as_table(ctx, sa.combine_contributions(t, np.sum, 'calc_part_func_w'), land.N, t.size, 'W')
    flow = W - (P * W).sum(axis=0)
    total = (flow * w.ravel()).sum(axis=1)
    ends = ref.ld(sa.calc_probability(np.array([lo, hi])))
    seen = (ends > 1e-250).all(axis=1)
    with np.errstate(divide='ignore', invalid='ignore'):
        got = np.log(ends[:, 0]) - np.log(ends[:, 1])
    d = np.where(seen, np.abs(got - total), 0)
    d = np.where(np.isnan(d), np.inf, d)
    tol = 1e-6 * (1 + ref.ld(amp).max()) + 1e-12 * np.abs(W).max()
    ctx.check((d <= tol).all(), 'ln P changes by %s from %r to %r K but W - <W> integrates to %s' % (
        got[seen][:3].astype(float), hi, lo, total[seen][:3].astype(float)), difference=float(d.max()))
    ctx.count('integrals', int(seen.sum()))
    ctx.count('temperatures_integrated', t.size)
    return digest(names, *land.arrays().values(), lo, hi) if oracle.nontrivial(P) else None


def monotonic(ctx, rng):
    """Mean electronic energy along increasing temperatures, in one array or one at a time."""
    land = gen.landscape(rng, gen.pick(rng, 'es'))
    if land.N < 2:
        return None
    gap = float(np.ptp(ref.ld(land.E)))
    M = int(rng.integers(20, 200))
    scale = gap / float(ref.KB) if gap > 0 else 300.
    T = np.concatenate([[0.], scale * 10. ** rng.uniform(-3, 2, M), rng.uniform(0, 1000, 10), [np.inf]])
    T = np.sort(T)
    E = np.asarray(land.E, float)
    rel = E - (E.min() if rng.random() < 0.5 else 0)
    sa = land.build()
    ctx.note.update(land.describe(), T=T)
    B = np.repeat(rel[:, None], T.size, axis=1)
    order = rng.permutation(T.size) if rng.random() < 0.5 else np.arange(T.size)
    U = np.empty(T.size, ref.LD)
    if rng.random() < 0.3:
        for k in range(T.size):
            U[k] = sa.calc_ensemble_average(T[k:k + 1], B[:, k:k + 1])[0, 0]
    else:
        U[order] = ref.ld(sa.calc_ensemble_average(T[order], B))[0]
    ctx.check(np.isfinite(U).all(), 'the mean energy is not finite: %s' % U[~np.isfinite(U)][:3])
    drop = U[:-1] - U[1:]
    # the exponents of large offsets carry round-off
    tol = 1e-12 * (gap + np.abs(rel).max()) + 1e-300
    k = int(drop.argmax())
    ctx.check(drop[k] <= tol, 'the mean energy falls by %r from %r to %r K' % (float(drop[k]), float(T[k]), float(T[k + 1])))
    ctx.check(abs(U[0] - rel.min()) <= tol, 'the mean energy at 0 K is %r instead of the lowest energy %r' % (float(U[0]), float(rel.min())))
    ctx.count('monotonic_steps', T.size - 1)
    return digest(land.kinds, land.E, land.g, T) if gap > 0 else None


STREAMS = [Stream('differential', differential, 2700, 18000), Stream('integral', integral, 900, 6000), Stream('monotonic', monotonic, 1800, 12000)]
