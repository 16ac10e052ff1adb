"""C14: only relative quantities matter."""
import numpy as np

from rtm import gen, oracle, ref
from rtm.core import Stream, digest

RULE = ('Pairs of executions on the same landscape in two gauges (common shift of the energies, chosen exactly representable; common factors on multiplicities, moments, '
        'symmetry orders, classical frequencies; energies, frequencies and temperatures scaled together), at all temperatures; probabilities, averages '
        'and heat capacity compared. Non-trivial: two occupied minima; distinct by hash of inputs and gauge.')


def agree(ctx, a, b, Ta, Tb, B, what, extra=0., need_c=True):
    ctx.note.update(gauge=what)
    amp = np.maximum(ref.Model(a).amplitude(Ta), ref.Model(b).amplitude(Tb)) * (1 + extra)
    sa, sb = a.build(), b.build()
    Pa = oracle.distribution(ctx, sa.calc_probability(Ta), a.N, Ta.size)
    Pb = oracle.distribution(ctx, sb.calc_probability(Tb), b.N, Tb.size)
    with np.errstate(divide='ignore'):
        oracle.same_logP(ctx, Pb, np.log(Pa), amp, 'calc_probability ' + what)
    Aa, Ab = ref.ld(sa.calc_ensemble_average(Ta, B)), ref.ld(sb.calc_ensemble_average(Tb, B))
    d = np.abs(Aa - Ab)[0]
    ctx.check((d <= np.abs(B).max() * oracle.log_tol(amp)).all(), 'calc_ensemble_average %s changes by %r' % (what, float(d.max())))
    Ca, Cb = ref.ld(sa.calc_heat_capacity(Ta))[0], ref.ld(sb.calc_heat_capacity(Tb))[0]
    tol = 1e-8 * (1 + np.abs(Ca)) + 1e-12 * amp
    d = np.abs(Ca - Cb)
    d = np.where(np.isnan(d), np.inf, d)
    k = int((d - tol).argmax())
    ctx.check((d <= tol).all(), 'calc_heat_capacity %s is %r instead of %r at %r K' % (what, float(Cb[k]), float(Ca[k]), float(Ta[k])))
    ctx.count('gauge_pairs:' + what.split(' by ')[0])
    ctx.sample({'land': a.describe(), 'gauge': what, 'T': Ta})
    return oracle.nontrivial(Pa)


def times(x, s):
    x = np.asarray(x)
    return (x.astype(np.int64) if x.dtype.kind in 'iu' else x) * s      # small integers would overflow here


def setup_case(ctx, rng, kinds):
    land = gen.landscape(rng, gen.pick(rng, kinds), max_n=40, max_d=60)
    T, _ = gen.temperatures(rng, N=land.N, D=land.freq.shape[1])
    ctx.note.update(land.describe(), T=T)
    return land, T, rng.normal(size=(land.N, T.size))


def shift(ctx, rng):
    land, T, B = setup_case(ctx, rng, [k for k in gen.CONTRIBUTION_SETS if 'e' in k or 's' in k])
    # multiples of 2^-28 below 2^17: every shift and difference is exact in double
    E = np.round(np.asarray(land.E, float) * 2. ** 28) / 2. ** 28
    c = float(gen.pick(rng, [np.round(rng.normal() * 10. ** rng.uniform(-3, 4.5) * 2. ** 28) / 2. ** 28, -float(E.min()), -float(E.max()), -float(E.mean() // 1), 65536., -65536.]))
    if np.abs(E + c).max() > 2. ** 17 - 1:
        c = 0.25
    if not (((E + c) - c) == E).all():
        raise AssertionError('shift not exact')
    a = land.replace(E=E)
    b = land.replace(E=gen.layout(rng, E + c))
    if rng.random() < 0.15:     # integer energies as integers
        E = rng.integers(-5, 6, land.N)
        c = int(rng.integers(-2000, 2000))
        a, b = land.replace(E=E), land.replace(E=E + c)
    ok = agree(ctx, a, b, T, T, B, 'with the energies shifted by %r' % c)
    return digest(land.kinds, *a.arrays().values(), T, c) if ok and c else None


def factors(ctx, rng):
    """One common factor on multiplicities, moments, orders, classical frequencies."""
    land, T, B = setup_case(ctx, rng, [k for k in gen.CONTRIBUTION_SETS if set(k) & set('scr')])
    what = gen.pick(rng, [k for k in land.kinds if k in 'scr'])
    b = land
    done = []
    for kind in [k for k in land.kinds if k in 'scr' and (k == what or rng.random() < 0.4)]:
        if kind == 's':
            s = gen.pick(rng, [2, 7, 0.5, 1e3, 1e-3])
            b = b.replace(g=gen.layout(rng, times(land.g, s)))
            done.append('multiplicities by %g' % s)
        elif kind == 'c':
            s = gen.pick(rng, [2., 33.35641, 1 / 33.35641, 10. ** rng.uniform(-3, 3), 10. ** rng.uniform(-3, 3), 10. ** rng.uniform(-20, 20)])
            b = b.replace(freq=gen.layout(rng, np.asarray(land.freq) * s))
            done.append('frequencies by %g' % s)
        else:
            if rng.random() < 0.5:
                if np.asarray(land.moments).min() > 1e-3 * np.asarray(land.moments).max(axis=1).min():
                    s = gen.pick(rng, [2., 1.66e-47, 1e-3, 1e6, 10. ** rng.uniform(-30, 30), 1e-9, 1e-12])
                    b = b.replace(moments=gen.layout(rng, np.asarray(land.moments) * s))
                    done.append('moments by %g' % s)
            if not done or rng.random() < 0.5:
                s = gen.pick(rng, [2, 3, 0.5, 100])
                b = b.replace(sigma=gen.layout(rng, times(land.sigma, s)))
                done.append('symmetry orders by %g' % s)
    ok = agree(ctx, land, b, T, T, B, 'after multiplying ' + ' and '.join(done))
    return digest(land.kinds, *land.arrays().values(), T, done) if ok else None


def units(ctx, rng):
    """Energies, frequencies and temperatures scaled together."""
    land, T, B = setup_case(ctx, rng, [k for k in gen.CONTRIBUTION_SETS if set(k) & set('escq')])
    s = float(gen.pick(rng, [2., 0.5, 4., 0.125, 1024., 3., 7., 0.1, 10. ** rng.uniform(-2, 2)]))
    # differences first, so that the scaling rounds nothing away
    E = np.asarray(land.E, float) - float(np.min(land.E))
    a = land.replace(E=E)
    b = land.replace(E=E * s, freq=np.asarray(land.freq) * s)
    Tb = np.asarray(T) * s
    ok = agree(ctx, a, b, T, Tb, B, 'after scaling energies, frequencies and temperatures by %g' % s, extra=10.)
    return digest(land.kinds, *a.arrays().values(), T, s) if ok else None


STREAMS = [Stream('shift', shift, 1400, 14000), Stream('factors', factors, 1400, 14000), Stream('units', units, 1200, 12000)]
