"""C12: ensemble averages are probability-weighted means."""
import numpy as np

from rtm import gen, oracle, ref
from rtm.core import Stream, digest

RULE = ('Landscapes, temperatures (0 K included) and observables of every magnitude, sign, dtype and layout, infinite or undefined where the probability is exactly zero; '
        'averages compared with the sum over the reported and over the reference probabilities, and checked for linearity, constants and bounds. '
        'Non-trivial: two occupied minima; distinct by hash.')


def observable(rng, N, M, P=None):
    mode = gen.pick(rng, ['normal', 'big', 'small', 'int', 'static', 'longdouble', 'offset', 'sparse', 'rare', 'flags', 'positive'])
    B = rng.normal(size=(N, M))
    if mode == 'big':
        B = B * 10. ** rng.uniform(0, 250)
    elif mode == 'small':
        B = B * 10. ** rng.uniform(-200, 0)
    elif mode == 'int':
        B = rng.integers(-50, 50, (N, M))
    elif mode == 'flags':
        B = rng.random((N, M)) < rng.random()
    elif mode == 'positive':
        B = np.abs(B) * 10. ** rng.uniform(-8, 2)
    elif mode == 'static':
        B = np.repeat(rng.normal(size=(N, 1)), M, axis=1)
    elif mode == 'longdouble':
        B = B.astype(np.longdouble)
    elif mode == 'rare' and P is not None:
        # every minimum matters in the average, however rare
        w = np.minimum(1 / np.maximum(np.asarray(P, float), 1e-280), 1e280)
        B = B * w * 10. ** rng.uniform(-3, 0, (N, 1))
    elif mode == 'offset':
        B = B + 1e6
    if mode == 'sparse' or (mode in ('big', 'small', 'int', 'longdouble', 'positive') and rng.random() < 0.4):
        B = B * (rng.random((N, M)) < 0.3)
        if P is not None and rng.random() < 0.5:
            B = B * (np.asarray(P) < 10. ** rng.uniform(-9, 0))     # only improbable minima
    return B, mode


def average(ctx, rng):
    land = gen.landscape(rng)
    T, _ = gen.temperatures(rng, N=land.N, D=land.freq.shape[1], inf='q' not in land.kinds)
    return judge(ctx, rng, land, T)


def bulk(ctx, rng):
    land, T = gen.bulk(rng)
    return judge(ctx, rng, land, T)


def judge(ctx, rng, land, T):
    N, M = land.N, T.size
    sa = land.build()
    P = ref.ld(sa.calc_probability(T))
    B, mode = observable(rng, N, M, P)
    B = gen.layout(rng, B)
    ctx.note.update(land.describe(), T=T, B=B, observable=mode)
    A = oracle.as_table(ctx, sa.calc_ensemble_average(T, B), 1, M, 'calc_ensemble_average')
    Bl = ref.ld(B)
    size = (np.abs(Bl) * P).sum(axis=0)
    expected = (Bl * P).sum(axis=0)
    tol = 1e-12 * size * (1 + N / 50) + 1e-300
    d = np.abs(A[0] - expected)
    d = np.where(np.isnan(d), np.inf, d)
    k = int((d - tol).argmax())
    ctx.check((d <= tol).all(), 'average at %r K is %r, the reported probabilities give %r' % (float(T[k]), float(A[0, k]), float(expected[k])))
    # against the reference probabilities
    j = (np.asarray(T) > 0) & np.isfinite(T)
    if j.any():
        model = ref.Model(land)
        Tp = np.asarray(T)[j]
        Pr = np.exp(model.logP(Tp))
        e = (Bl[:, j] * Pr).sum(axis=0)
        s = (np.abs(Bl[:, j]) * Pr).sum(axis=0)
        d = np.abs(A[0, j] - e)
        ctx.check((d <= (2 * oracle.log_tol(model.amplitude(Tp)) + 1e-9) * s + np.abs(Bl[:, j]).max(axis=0) * 1e-250 + 1e-300).all(),
                  'average differs from the reference by %r' % float(d.max()))
    # bounds over the occupied minima
    occ = P > 0
    top = np.where(occ, Bl, -np.inf).max(axis=0)
    bot = np.where(occ, Bl, np.inf).min(axis=0)
    slack = 1e-11 * np.abs(np.where(occ, Bl, 0)).max(axis=0)
    ctx.check(((A[0] <= top + slack) & (A[0] >= bot - slack)).all(), 'average outside the range of the occupied minima')
    # undefined or infinite where nothing is occupied
    if (~occ).any():
        B2 = np.array(B, dtype=float if B.dtype.kind in 'ib' else B.dtype)
        B2[~occ] = rng.choice([np.nan, np.inf, -np.inf, 1e308], int((~occ).sum()))
        A2 = ref.ld(sa.calc_ensemble_average(T, B2))
        d = np.abs(A2[0] - A[0])
        d = np.where(np.isnan(d), np.inf, d)
        ctx.check((d <= tol).all(), 'minima of zero probability contribute: %r instead of %r' % (
            float(A2[0, d.argmax()]), float(A[0, d.argmax()])))
        ctx.count('averages_with_undefined_observables')
    # infinite or undefined where something is occupied
    k, j = (int(v) for v in gen.pick(rng, np.argwhere(P > 0)))
    B4 = np.array(B, dtype=float if B.dtype.kind in 'ib' else B.dtype)
    bad = gen.pick(rng, [np.nan, np.inf, -np.inf])
    B4[k, j] = bad
    A4 = ref.ld(sa.calc_ensemble_average(T, B4))
    ctx.check(np.isnan(A4[0, j]) if np.isnan(bad) else A4[0, j] == bad,
              'an occupied minimum (P = %r) with the observable %r gives the average %r' % (float(P[k, j]), bad, float(A4[0, j])))
    others = np.arange(M) != j
    ctx.check((np.abs(A4[0] - A[0]) <= tol)[others].all(), 'the observable at one temperature changes the average at another')
    # constants and linearity
    c = float(rng.normal()) * 10. ** rng.integers(-3, 4)
    Ac = ref.ld(sa.calc_ensemble_average(T, np.full((N, M), c)))[0]
    ctx.check((np.abs(Ac - c) <= 1e-11 * abs(c)).all(), 'the average of the constant %r is %r' % (c, float(Ac[np.abs(Ac - c).argmax()])))
    if mode not in ('big', 'small', 'rare'):
        B3, _ = observable(rng, N, M)
        with np.errstate(over='ignore'):
            if np.abs(ref.ld(B3)).max() < 1e100:
                x, y = rng.normal(size=2)
                mix = sa.calc_ensemble_average(T, x * B + y * B3)
                A3 = ref.ld(sa.calc_ensemble_average(T, B3))
                tol3 = 1e-11 * (abs(x) * size + abs(y) * (np.abs(ref.ld(B3)) * P).sum(axis=0)) + 1e-300
                ctx.check((np.abs(ref.ld(mix)[0] - x * A[0] - y * A3[0]) <= tol3).all(), 'the average is not linear in the observable')
    ctx.count('averages', M)
    ctx.sample({'land': land.describe(), 'T': T, 'observable': mode, 'average': A})
    return digest(land.kinds, *land.arrays().values(), T, np.asarray(B, float)) if oracle.nontrivial(P) else None


STREAMS = [Stream('average', average, 4000, 40000), Stream('bulk', bulk, 140, 1600)]
