"""C37: parts of an ensemble behave like ensembles of their own."""
import numpy as np

from rtm import gen, oracle, ref
from rtm.core import Stream, digest

RULE = ('Random landscapes split into 1 to N blocks, each of them given to the library as a system of its own; occupation ratios within a block, the derivatives of each minimum, averages and heat capacity of the whole '
        '(law of total variance) against those of the parts, at all temperatures. Minima added far above the others must not matter. Non-trivial: two occupied minima; distinct by hash of the inputs and the partition.')


def logs(P):
    with np.errstate(divide='ignore'):
        return np.log(ref.ld(P))


def split(rng, N):
    k = int(rng.integers(1, min(N, gen.pick(rng, [2, 3, 6, N])) + 1))
    owner = np.concatenate([np.arange(k), rng.integers(0, k, N - k)])
    owner = np.sort(owner) if rng.random() < 0.3 else rng.permutation(owner)
    return [np.nonzero(owner == j)[0] for j in range(k)]


def judge(ctx, rng, land, T, blocks):
    N, M = land.N, T.size
    B = rng.normal(size=(N, M))
    ctx.note.update(land.describe(), T=T, blocks=[b.tolist() for b in blocks][:8])
    amp = ref.Model(land).amplitude(T)
    sa = land.build()
    P = oracle.distribution(ctx, sa.calc_probability(T), N, M)
    A = ref.ld(sa.calc_ensemble_average(T, B))[0]
    C = ref.ld(sa.calc_heat_capacity(T))[0]
    W = ref.ld(sa.combine_contributions(T, np.sum, 'calc_part_func_w'))
    V = ref.ld(sa.combine_contributions(T, np.sum, 'calc_part_func_v'))
    Z = ref.ld(sa.calc_partition_functions(T))
    cold = np.asarray(T) == 0
    Asum, Csum, total = 0, 0, 0
    means, weights = [], []
    for idx in blocks:
        part = land.take(idx)
        if rng.random() < 0.5:
            part = part.replace(**{k: gen.layout(rng, v) for k, v in part.arrays().items()})
        sub = part.build()
        p = oracle.distribution(ctx, sub.calc_probability(T), len(idx), M, 'calc_probability of a part')
        w = P[idx].sum(axis=0)
        judged = w > 1e-270
        total = total + w
        # P_a = P_S p_a
        lp, lP = logs(p), logs(P[idx]) - logs(np.where(judged, w, 1))
        tol = oracle.log_tol(amp) + 1e-12
        with np.errstate(invalid='ignore'):
            seen = judged & (lp > -600) & (lp + logs(np.where(judged, w, 1)) > -600)
            d = np.where(seen, np.abs(lp - lP), 0)
        d = np.where(np.isnan(d), np.inf, d)
        k = np.unravel_index(int((d - tol).argmax()), d.shape)
        ctx.check((d <= tol).all(), 'minimum %d has probability %r in the part %s and %r of that part in the whole' % (
            idx[k[0]], float(p[k]), idx.tolist()[:10], float(np.exp(lP[k]))), temperature=T[k[1]])
        ctx.count('probabilities_compared', int(seen.sum()))
        # what belongs to a single minimum
        v = ref.ld(sub.combine_contributions(T, np.sum, 'calc_part_func_v'))
        oracle.close(ctx, v[:, ~cold], V[idx][:, ~cold], 1e-9, 1e-9, 'second derivative of a minimum in a part')
        dw = ref.ld(sub.combine_contributions(T, np.sum, 'calc_part_func_w'))[:, ~cold] - W[idx][:, ~cold]
        dw = dw - dw[:1]
        size = 1e-9 + 1e-12 * np.abs(W[idx][:, ~cold]).max(axis=0) + 4e-15 * amp[~cold]
        ctx.check((np.abs(dw) <= size).all(), 'derivatives of the minima of a part differ by %r from those in the whole' % float(np.abs(dw).max() if dw.size else 0))
        z = ref.ld(sub.calc_partition_functions(T))
        with np.errstate(all='ignore'):
            lz, lZ = np.log(z), np.log(Z[idx])
            fine = ((np.abs(lz) < 300) & (np.abs(lZ) < 300)).all(axis=0) & ~cold
            d = np.where(fine, np.abs((lz - lz[:1]) - (lZ - lZ[:1])), 0)
        ctx.check((d <= oracle.log_tol(amp)).all(), 'ratios of the partition functions in a part differ by %r (logarithms)' % float(d.max()))
        # averages
        a = ref.ld(sub.calc_ensemble_average(T, B[idx]))[0]
        Asum = Asum + w * a
        c = ref.ld(sub.calc_heat_capacity(T))[0]
        with np.errstate(invalid='ignore', over='ignore', divide='ignore'):
            Wz = np.where(P[idx] > 0, W[idx], 0)
            means.append(np.where(judged, (Wz * P[idx]).sum(axis=0) / np.where(judged, w, 1), 0))
        weights.append(np.where(judged, w, 0))
        Csum = Csum + np.where(judged, w, 0) * c
    ctx.check(np.abs(total - 1).max() <= 1e-10, 'the parts have a total probability of %r' % float(total[np.abs(total - 1).argmax()]))
    tol = np.abs(B).max() * oracle.log_tol(amp) * 4
    ctx.check((np.abs(A - Asum) <= tol).all(), 'the average of the whole is %r, that of the parts %r' % (float(A[np.abs(A - Asum).argmax()]), float(Asum[np.abs(A - Asum).argmax()])))
    mean = sum(w * m for w, m in zip(weights, means))
    between = sum(w * (m - mean) ** 2 for w, m in zip(weights, means))
    d = np.where(cold, 0, np.abs(C - Csum - between))
    spread = np.abs(np.where(P > 0, W, 0)).max(axis=0)
    tol = 1e-8 * (1 + np.abs(C)) + 1e-12 * amp + (3e-15 * spread) ** 2 + 1e-14 * spread * np.sqrt(between)
    d = np.where(np.isnan(d), np.inf, d)
    k = int((d - tol).argmax())
    ctx.check((d <= tol).all(), 'the heat capacity at %r K is %r, the parts give %r' % (float(T[k]), float(C[k]), float((Csum + between)[k])))
    ctx.count('heat_capacities_compared', M)
    ctx.count('parts', len(blocks))
    ctx.sample({'kinds': land.kinds, 'N': N, 'blocks': [len(b) for b in blocks]})
    return digest(land.kinds, *land.arrays().values(), T, [b.tolist() for b in blocks]) if oracle.nontrivial(P) else None


def parts(ctx, rng):
    land = gen.landscape(rng, max_n=60, max_d=60)
    T, _ = gen.temperatures(rng, N=land.N, D=land.freq.shape[1], max_m=60)
    return judge(ctx, rng, land, T, split(rng, land.N))


def bulk(ctx, rng):
    land, T = gen.bulk(rng, most=0.7)
    return judge(ctx, rng, land, T, split(rng, land.N)[:6] if land.N < 7 else [b for b in np.array_split(rng.permutation(land.N), int(rng.integers(2, 5)))])


def singles(ctx, rng):
    """Every minimum alone, and every pair: nothing but the two minima decides their ratio."""
    land = gen.landscape(rng, max_n=6, max_d=30)
    T, _ = gen.temperatures(rng, max_m=20)
    judge(ctx, rng, land, T, [np.array([k]) for k in range(land.N)])
    if land.N < 3:
        return None
    i, j = rng.choice(land.N, 2, replace=False)
    rest = np.setdiff1d(np.arange(land.N), [i, j])
    return judge(ctx, rng, land, T, [np.array([i, j]), rest])


def unreachable(ctx, rng):
    """Minima far above the others change nothing."""
    kinds = gen.pick(rng, [k for k in gen.CONTRIBUTION_SETS if 'e' in k or 's' in k])
    land = gen.landscape(rng, kinds, max_n=20, max_d=30)
    T, _ = gen.temperatures(rng, zero=True, max_m=30)
    n = int(rng.integers(1, 5))
    where = rng.integers(0, land.N + 1, n)
    src = rng.integers(0, land.N, n)
    top = float(np.max(land.E)) + 1100. * 8.617e-5 * float(np.max(T)) * rng.uniform(1., 3., n) + 1.
    # the added ones must not gain by other contributions what they lose by their energy
    big = land.replace(E=np.insert(np.asarray(land.E, float), where, top), g=np.insert(land.g, where, land.g[src]), freq=np.insert(land.freq, where, land.freq[src], axis=0),
                       moments=np.insert(land.moments, where, land.moments[src], axis=0), sigma=np.insert(land.sigma, where, land.sigma[src]))
    old = np.insert(np.ones(land.N, bool), where, False)
    ctx.note.update(big.describe(), T=T, added=np.nonzero(~old)[0])
    amp = ref.Model(land).amplitude(T)
    a, b = land.build(), big.build()
    Pa = oracle.distribution(ctx, a.calc_probability(T), land.N, T.size)
    Pb = oracle.distribution(ctx, b.calc_probability(T), big.N, T.size)
    logw = ref.normalize(ref.Model(big.replace(), big.kinds).logw(np.where(np.asarray(T) > 0, T, 1)))
    gone = (logw[~old] < -700).all(axis=0) | (np.asarray(T) == 0)
    ctx.check((Pb[~old][:, gone] <= 1e-250).all(), 'an unreachable minimum has probability %r' % float(Pb[~old][:, gone].max() if gone.any() else 0))
    oracle.same_logP(ctx, Pb[old][:, gone], logs(Pa)[:, gone], amp[gone], 'calc_probability with unreachable minima added')
    B = rng.normal(size=(big.N, T.size))
    for name, x, y in (('calc_heat_capacity', a.calc_heat_capacity(T), b.calc_heat_capacity(T)),
                       ('calc_ensemble_average', a.calc_ensemble_average(T, B[old]), b.calc_ensemble_average(T, B))):
        x, y = ref.ld(x)[0], ref.ld(y)[0]
        d = np.where(gone, np.abs(x - y), 0)
        d = np.where(np.isnan(d), np.inf, d)
        tol = 1e-8 * (1 + np.abs(x)) + 1e-12 * amp
        k = int((d - tol).argmax())
        ctx.check((d <= tol).all(), '%s at %r K is %r with unreachable minima added, %r without' % (name, float(T[k]), float(y[k]), float(x[k])))
    ctx.count('unreachable_minima', n)
    return digest(kinds, *big.arrays().values(), T) if oracle.nontrivial(Pa) and gone.any() else None


STREAMS = [Stream('bulk', bulk, 60, 600), Stream('parts', parts, 800, 9000), Stream('singles', singles, 400, 5000), Stream('unreachable', unreachable, 600, 6000)]
