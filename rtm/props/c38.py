"""C38: independent subsystems multiply their probabilities and add their heat capacities."""
import numpy as np

from rtm import gen, oracle, ref
from rtm.core import Stream, digest
from rtm.props.c37 import logs

RULE = ('Two or three independent random systems and the composite of all the combinations of their minima (energies added, multiplicities and orders multiplied, modes joined, in random order), '
        'each given to the library; the other systems without rotation or rotating with unit moments and orders of their own; probabilities against products, marginals, averages of sums and products, partition functions, derivatives and heat capacities against sums, at all temperatures. '
        'Non-trivial: two occupied minima in each of two systems; distinct by hash.')


def composite(rng, lands, kinds):
    """(landscape, index of the minimum of each system (systems, N), order of the modes)."""
    grid = np.array(list(np.ndindex(*[l.N for l in lands]))).T
    if rng.random() < 0.6:
        grid = grid[:, rng.permutation(grid.shape[1])]
    take = [l.take(i) for l, i in zip(lands, grid)]
    E = sum(np.asarray(t.E, float) for t in take)
    g = np.prod([np.asarray(t.g, float) for t in take], axis=0)
    sigma = np.prod([np.asarray(t.sigma, float) for t in take], axis=0)
    f = np.concatenate([np.asarray(t.freq).astype(np.longdouble if any(x.freq.dtype == np.longdouble for x in take) else float) for t in take], axis=1)
    if rng.random() < 0.7:
        f = f[:, rng.permutation(f.shape[1])]
    return gen.Landscape(kinds, gen.layout(rng, E), gen.layout(rng, g), gen.layout(rng, f), gen.layout(rng, take[0].moments), gen.layout(rng, sigma)), grid


def exact(land, rng):
    """Energies whose sums and differences are exact, multiples of 2^-30."""
    E = np.asarray(land.E, float)
    E = E - E.min()
    E = np.round(E * 2. ** 30) / 2. ** 30 + float(rng.integers(-4000, 4000))
    return land.replace(E=E)


def judge(ctx, rng, lands, T, kinds):
    lands = [exact(l, rng) for l in lands]
    k0 = kinds
    # only the first system has its own moments; the others do not rotate or have unit moments
    # and orders (the orders of the composite are products), which adds 3 kT / 2 to each
    turning = 'r' in kinds and rng.random() < 0.6
    own = [kinds] + [kinds if turning else kinds.replace('r', '') for _ in lands[1:]]
    lands = [lands[0].replace(kinds=own[0])] + [l.replace(kinds=k, sigma=l.sigma if turning else np.ones(l.N), moments=np.ones((l.N, 3))) for l, k in zip(lands[1:], own[1:])]
    extra = 1.5 * (len(lands) - 1) if turning else 0.
    comp, grid = composite(rng, lands, k0)
    ctx.note.update(T=T, kinds=kinds, systems=[l.describe() for l in lands])
    M = T.size
    amp = sum(ref.Model(l).amplitude(T) for l in lands)
    sas = [l.build() if l.kinds else None for l in lands]
    sa = comp.build()
    P = oracle.distribution(ctx, sa.calc_probability(T), comp.N, M)
    ps = [oracle.distribution(ctx, s.calc_probability(T), l.N, M) for s, l in zip(sas, lands)]
    oracle.same_logP(ctx, P, sum(logs(p)[i] for p, i in zip(ps, grid)), amp, 'calc_probability of the composite')
    # marginals
    for p, i, l in zip(ps, grid, lands):
        got = np.zeros((l.N, M), np.longdouble)
        np.add.at(got, i, P)
        d = np.abs(got - p).max()
        ctx.check(d <= float(oracle.log_tol(amp).max()) * 4, 'summed over the other systems, the probabilities differ by %r' % float(d))
    cold = np.asarray(T) == 0
    C = ref.ld(sa.calc_heat_capacity(T))[0]
    cs = [ref.ld(s.calc_heat_capacity(T))[0] for s in sas]
    e = sum(cs) - extra
    d = np.abs(C - e)
    d = np.where(np.isnan(d), np.inf, d)
    tol = 1e-8 * (1 + np.abs(e)) + 1e-12 * amp
    k = int((d - tol).argmax())
    ctx.check((d <= tol).all(), 'the heat capacity of the composite at %r K is %r instead of %r' % (float(T[k]), float(C[k]), float(e[k])))
    # averages
    bs = [rng.normal(size=(l.N, M)) for l in lands]
    avs = [ref.ld(s.calc_ensemble_average(T, b))[0] for s, b in zip(sas, bs)]
    size = np.prod([1 + np.abs(b).max() for b in bs])
    for what, obs, e in (('sum', sum(b[i] for b, i in zip(bs, grid)), sum(avs)), ('product', np.prod([b[i] for b, i in zip(bs, grid)], axis=0), np.prod(avs, axis=0)), ('observable of one system', bs[0][grid[0]], avs[0])):
        a = ref.ld(sa.calc_ensemble_average(T, np.ascontiguousarray(obs)))[0]
        d = np.abs(a - e)
        d = np.where(np.isnan(d), np.inf, d)
        k = int(d.argmax())
        ctx.check((d <= 8 * size * oracle.log_tol(amp)).all(), 'average of the %s over independent systems: %r instead of %r' % (what, float(a[k]), float(e[k])))
    # derivatives and partition functions
    for name in ('calc_part_func_w', 'calc_part_func_v'):
        x = ref.ld(sa.combine_contributions(T, np.sum, name))[:, ~cold]
        y = sum(ref.ld(s.combine_contributions(T, np.sum, name))[i][:, ~cold] for s, i in zip(sas, grid))
        y = y + (extra if name[-1] == 'w' else -extra)
        ctx.check(x.shape == y.shape and (np.abs(x - y) <= 1e-9 + 1e-11 * np.abs(y) + 4e-15 * amp[~cold]).all(), '%s of the composite is not the sum' % name)
    with np.errstate(all='ignore'):
        lz = np.log(ref.ld(sa.calc_partition_functions(T)))
        each = [np.log(ref.ld(s.calc_partition_functions(T)))[i] for s, i in zip(sas, grid)]
        ez = sum(each)
        fine = (np.abs(lz) < 280) & ~cold
        for x in each:
            fine = fine & (np.abs(x) < 280)
        fine = fine & fine[:1]
        # up to a common factor
        d = np.where(fine, np.abs((lz - lz[:1]) - (ez - ez[:1])), 0)
    ctx.check((d <= oracle.log_tol(amp)).all(), 'partition functions of the composite differ by %r (logarithm) from products' % float(d.max()))
    ctx.count('composite_minima', comp.N)
    ctx.count('probabilities_compared', P.size)
    ctx.sample({'kinds': kinds, 'systems': [l.N for l in lands], 'modes': comp.freq.shape[1]})
    return digest(kinds, *comp.arrays().values(), T) if sum(oracle.nontrivial(p) for p in ps) > 1 else None


SETS = [k for k in gen.CONTRIBUTION_SETS if k.replace('r', '')]


def pairs(ctx, rng):
    kinds = gen.pick(rng, SETS)
    lands = [gen.landscape(rng, kinds, max_n=9, max_d=30) for _ in range(2)]
    T, _ = gen.temperatures(rng, N=lands[0].N, max_m=40)
    return judge(ctx, rng, lands, T, kinds)


def triples(ctx, rng):
    kinds = gen.pick(rng, SETS)
    lands = [gen.landscape(rng, kinds, max_n=4, max_d=12) for _ in range(3)]
    T, _ = gen.temperatures(rng, max_m=20)
    return judge(ctx, rng, lands, T, kinds)


def large(ctx, rng):
    """Composites of hundreds of minima or modes."""
    kinds = gen.pick(rng, SETS)
    if rng.random() < 0.5:
        lands = [gen.landscape(rng, kinds, max_n=45, max_d=4) for _ in range(2)]
    else:
        lands = [gen.landscape(rng, kinds, max_n=3, max_d=400) for _ in range(2)]
    T = 10. ** rng.uniform(0.5, 3.3, int(rng.integers(1, 12)))
    return judge(ctx, rng, lands, T, kinds)


STREAMS = [Stream('pairs', pairs, 900, 10000), Stream('triples', triples, 400, 5000), Stream('large', large, 120, 1500)]
