"""C13: labels do not matter."""
import numpy as np

from rtm import gen, oracle, ref
from rtm.core import Stream, digest

RULE = ('Pairs of executions on the same landscape with minima, modes and axes relabelled, or with minima listed several times instead of carrying a larger '
        'multiplicity, at all temperatures (0 K included); probabilities, partition functions, averages and heat capacity of the two runs compared. '
        'Non-trivial: the relabelling is not the identity and two minima are occupied; distinct by hash of inputs and relabelling.')


def compare(ctx, a, b, T, idx, what):
    """Runs of two landscapes; minimum k of b is minimum idx[k] of a."""
    rng_obs = ctx.note['observable']
    amp = ref.Model(a).amplitude(T)
    sa, sb = a.build(), b.build()
    Pa = oracle.distribution(ctx, sa.calc_probability(T), a.N, T.size)
    Pb = oracle.distribution(ctx, sb.calc_probability(T), b.N, T.size)
    with np.errstate(divide='ignore'):
        oracle.same_logP(ctx, Pb, np.log(Pa[idx]), amp, 'calc_probability ' + what)
    Ba = rng_obs
    Aa = ref.ld(sa.calc_ensemble_average(T, Ba))
    Ab = oracle.as_table(ctx, sb.calc_ensemble_average(T, Ba[idx]), 1, T.size, 'calc_ensemble_average')
    size = np.abs(Ba).max()
    d = np.abs(Aa - Ab)[0]
    ctx.check((d <= size * oracle.log_tol(amp)).all(), 'calc_ensemble_average %s changes by %r' % (what, float(d.max())))
    Ca = oracle.as_table(ctx, sa.calc_heat_capacity(T), 1, T.size, 'calc_heat_capacity')[0]
    Cb = oracle.as_table(ctx, sb.calc_heat_capacity(T), 1, T.size, 'calc_heat_capacity')[0]
    tol = 1e-8 * (1 + np.abs(Ca)) + 1e-9 * amp * 1e-3
    d = np.abs(Ca - Cb)
    d = np.where(np.isnan(d), np.inf, d)
    k = int((d - tol).argmax())
    ctx.check((d <= tol).all(), 'calc_heat_capacity %s is %r instead of %r at %r K' % (what, float(Cb[k]), float(Ca[k]), float(T[k])))
    return sa, sb, Pa


def relabel(ctx, rng):
    land = gen.landscape(rng)
    T, _ = gen.temperatures(rng, N=land.N, D=land.freq.shape[1])
    return pair(ctx, rng, land, T)


def bulk(ctx, rng):
    land, T = gen.bulk(rng)
    return pair(ctx, rng, land, T)


def pair(ctx, rng, land, T):
    N, D = land.freq.shape
    B = rng.normal(size=(N, T.size))
    perm = rng.permutation(N)
    if rng.random() < 0.3:
        perm = np.arange(N)[::-1]
    b = land.take(perm)
    what = 'after reordering the minima'
    if rng.random() < 0.6:
        f = np.array(b.freq)
        if rng.random() < 0.5:
            f = rng.permuted(f, axis=1)
        else:
            f = f[:, rng.permutation(D)]
        b = b.replace(freq=gen.layout(rng, f), moments=gen.layout(rng, rng.permuted(np.array(b.moments), axis=1)))
        what = 'after reordering minima, modes and axes'
    if rng.random() < 0.2:      # nothing else: only inside each minimum
        perm = np.arange(N)
        b = land.replace(freq=rng.permuted(np.array(land.freq), axis=1), moments=rng.permuted(np.array(land.moments), axis=1))
        what = 'after reordering modes and axes'
    ctx.note.update(land.describe(), T=T, perm=perm, observable=B)
    sa, sb, P = compare(ctx, land, b, T, perm, what)
    # partition functions of the contributions, where T > 0
    model = ref.Model(land)
    Tp = T[np.asarray(T) > 0]
    if Tp.size:
        terms = model.log_terms(Tp)
        for kind, pa, pb in zip(land.kinds, land.parts(), b.parts()):
            za, zb = ref.ld(pa.calc_part_func(Tp))[perm], ref.ld(pb.calc_part_func(Tp))
            ok = oracle.representable([terms[kind][perm]])
            oracle.close(ctx, np.where(ok, zb, 0), np.where(ok, za, 0), float(oracle.log_tol(model.amplitude(Tp)).max()), 0,
                         type(pa).__name__ + ' ' + what)
            for m in ('calc_part_func_w', 'calc_part_func_v'):
                wa, wb = ref.ld(getattr(pa, m)(Tp))[perm], ref.ld(getattr(pb, m)(Tp))
                oracle.close(ctx, wb, wa, 1e-10, 1e-12 * (1 + np.abs(wa).max()), '%s.%s %s' % (type(pa).__name__, m, what))
    ctx.count('relabelled_pairs')
    ctx.sample({'land': land.describe(), 'T': T, 'perm': perm, 'what': what})
    if (perm == np.arange(N)).all() and 'modes' not in what or not oracle.nontrivial(P):
        return None
    return digest(land.kinds, *land.arrays().values(), T, perm, what)


def duplicates(ctx, rng):
    """k copies of a minimum against one with k times the multiplicity."""
    land = gen.landscape(rng, gen.pick(rng, ['s', 'sc', 'sq', 'sr', 'scr', 'sqr']), max_n=25)
    T, _ = gen.temperatures(rng, N=land.N, D=land.freq.shape[1])
    k = rng.choice([1, 1, 2, 3, 5, 9], land.N)
    idx = np.repeat(np.arange(land.N), k)
    if rng.random() < 0.7:
        idx = rng.permutation(idx)
    many = land.take(idx)
    once = land.replace(g=np.asarray(land.g) * k)
    B = rng.normal(size=(land.N, T.size))
    ctx.note.update(land.describe(), T=T, copies=k)
    amp = ref.Model(land).amplitude(T)
    s1, s2 = once.build(), many.build()
    P1 = oracle.distribution(ctx, s1.calc_probability(T), land.N, T.size)
    P2 = oracle.distribution(ctx, s2.calc_probability(T), idx.size, T.size)
    merged = np.zeros_like(P1)
    np.add.at(merged, idx, P2)
    with np.errstate(divide='ignore'):
        oracle.same_logP(ctx, merged, np.log(P1), amp, 'calc_probability of repeated minima')
        oracle.same_logP(ctx, P2, np.log(P1 / k[:, None])[idx], amp, 'calc_probability of one of several copies')
    A1, A2 = ref.ld(s1.calc_ensemble_average(T, B)), ref.ld(s2.calc_ensemble_average(T, B[idx]))
    d = np.abs(A1 - A2)
    ctx.check((d <= np.abs(B).max() * oracle.log_tol(amp)).all(), 'average with repeated minima differs by %r' % float(d.max()))
    C1, C2 = ref.ld(s1.calc_heat_capacity(T)), ref.ld(s2.calc_heat_capacity(T))
    d = np.abs(C1 - C2)
    ctx.check((d <= 1e-8 * (1 + np.abs(C1)) + 1e-12 * amp).all(), 'heat capacity with repeated minima differs by %r' % float(d.max()))
    ctx.count('duplicated_pairs')
    return digest(land.kinds, *land.arrays().values(), T, k, idx) if (k > 1).any() and oracle.nontrivial(P2) else None


STREAMS = [Stream('relabel', relabel, 1000, 22000), Stream('duplicates', duplicates, 700, 14000), Stream('bulk', bulk, 60, 1200)]
