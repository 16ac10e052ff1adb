"""C08: occupation at high temperature is entropy-controlled."""
import numpy as np

from rtm import gen, oracle, ref
from rtm.core import Stream, digest

RULE = ('Landscapes of every contribution subset at infinite temperature (not quantum) and at temperatures 10 to 1e8 times every energy and quantum; '
        'the distance to the entropic limit is bounded analytically by the residual exponents. Non-trivial: two occupied minima; distinct by hash.')


def limit(land):
    w = np.zeros(land.N, np.longdouble)
    for k in land.kinds:
        if k == 's':
            w = w + np.log(ref.ld(land.g))
        elif k in 'cq':
            w = w - np.log(ref.ld(land.freq)).sum(axis=1)
        elif k == 'r':
            w = w + ref.rot_log(land.sigma, land.moments, [1.])[:, 0]
    return ref.normalize(w[:, None])


def infinite(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, [k for k in gen.CONTRIBUTION_SETS if 'q' not in k]))
    T, _ = gen.temperatures(rng, N=land.N, max_m=20)
    T = np.append(np.array(T, float), np.inf)
    if rng.random() < 0.2:
        T = np.array([np.inf])
    T = rng.permutation(T)
    ctx.note.update(land.describe(), T=T)
    P = oracle.as_table(ctx, land.build().calc_probability(T), land.N, T.size, 'calc_probability')
    j = np.isinf(T)
    oracle.same_logP(ctx, P[:, j], limit(land), ref.Model(land, land.kinds.replace('e', '').replace('s', '')).amplitude([1.])[0],
                     'calc_probability at infinite temperature')
    ctx.sample({'land': land.describe(), 'P_inf': P[:, j][:, 0]})
    return digest(land.kinds, *land.arrays().values(), T) if oracle.nontrivial(P[:, j]) else None


def hot(ctx, rng):
    if rng.random() < 0.05:
        land, _ = gen.bulk(rng, most=0.5)
    else:
        land = gen.landscape(rng, max_n=40, max_d=60)
    L = land
    big = 1e-3
    if 'e' in L.kinds or 's' in L.kinds:
        big = max(big, float(np.max(L.E)) - float(np.min(L.E)))
    if 'q' in L.kinds:
        big = max(big, float(ref.H) * float(np.max(L.freq)))
    T = big / float(ref.KB) * 10. ** rng.uniform(1, 8, 6)
    if 'q' in L.kinds:      # sinh of a denormal is beyond "every quantum exceeded"
        T = np.minimum(T, 1e9)
    if rng.random() < 0.3:      # next to cold ones
        cold = np.minimum(T.min(), 10. ** rng.uniform(-4, 1, int(rng.integers(1, 3))))
    else:
        cold = np.zeros(0)
    ctx.note.update(L.describe(), T=np.append(cold, T))
    P = ref.ld(oracle.as_table(ctx, L.build().calc_probability(np.append(cold, T)), L.N, T.size + cold.size, 'calc_probability'))[:, cold.size:]
    b = ref.beta(T)
    bound = np.full(T.size, ref.LD(1e-9))
    if 'e' in L.kinds or 's' in L.kinds:
        bound = bound + 2 * (ref.ld(L.E).max() - ref.ld(L.E).min()) * b
    if 'q' in L.kinds:
        x = 0.5 * ref.H * ref.ld(L.freq)
        bound = bound + 2 * (x ** 2).sum(axis=1).max() / 6 * b ** 2
    lim = limit(L)
    seen = np.broadcast_to(lim > -600, P.shape)
    with np.errstate(divide='ignore', invalid='ignore'):
        d = np.where(seen, np.abs(np.log(P) - lim), 0)
    d = np.where(np.isnan(d), np.inf, d)
    k = np.unravel_index((d - bound).argmax(), d.shape)
    ctx.check((d <= bound).all(), 'at %r K minimum %d has %r, entropic limit %r (log distance %r, bound %r)' % (
        float(T[k[1]]), k[0], float(P[k]), float(np.exp(lim[k[0], 0])), float(d[k]), float(bound[k[1]])))
    ctx.count('hot_columns', T.size)
    return digest(L.kinds, *L.arrays().values(), T) if oracle.nontrivial(P) else None


STREAMS = [Stream('infinite', infinite, 3000, 20000), Stream('hot', hot, 3600, 24000)]
