"""C15: each temperature is evaluated independently."""
import numpy as np

import occuprob as op
from rtm import gen, ref
from rtm.core import Stream, digest

RULE = ('Every calc_* of every contribution and superposition evaluated on a grid (in any order, ascending or descending) and on derived grids (single temperatures, random subsets with repetitions, permutations, '
        'extensions with colder, hotter and null temperatures, other dtypes, strided or read-only layouts); values at the same temperature compared bit for bit within a few ulps '
        '(infinities alike). Non-trivial: two or more different temperatures; distinct by hash.')

METHODS = ['calc_part_func', 'calc_part_func_w', 'calc_part_func_v']


def evaluate(land, T, B):
    """All the reported quantities, {name: (rows, T.size)}; B(T) is an observable defined per temperature."""
    out = {}
    for pf in land.parts():
        for m in METHODS:
            out[type(pf).__name__ + '.' + m] = getattr(pf, m)(T)
    sa = land.build()
    out['calc_partition_functions'] = sa.calc_partition_functions(T)
    out['calc_probability'] = sa.calc_probability(T)
    out['calc_ensemble_average'] = sa.calc_ensemble_average(T, B(T))
    out['calc_heat_capacity'] = sa.calc_heat_capacity(T)
    if any(k in land.kinds for k in 'esq'):
        out['calc_exponent'] = op.calc_exponent(np.asarray(land.E, float), T)
    out['calc_beta'] = op.calc_beta(T)[None, :]
    return out


def same(ctx, name, a, b, amp, T, what):
    ctx.check(a is not None and b is not None and a.shape == b.shape, '%s: shape %s instead of %s %s' % (
        name, getattr(b, 'shape', None), getattr(a, 'shape', None), what))
    a, b = ref.ld(a), ref.ld(b)
    eq = (a == b) | (np.isnan(a) & np.isnan(b))
    scale = np.maximum(np.abs(a), np.abs(b))
    if name in ('calc_ensemble_average', 'calc_heat_capacity'):
        scale = scale + 1
    with np.errstate(invalid='ignore'):
        d = np.abs(a - b)
        tol = (1e-13 if name != 'calc_heat_capacity' else 1e-9) * scale + 4e-16 * amp * scale + 1e-300
        ok = eq | (d <= tol)
    bad = np.argwhere(~ok)
    if len(bad):
        k = tuple(bad[0])
        ctx.fail('%s at %r K is %r instead of %r %s' % (name, float(T[k[-1]]), float(b[k]), float(a[k]), what))
    ctx.events['oracle_decisions'] += 1
    ctx.count('values_compared', a.size)


def grids(ctx, rng):
    land = gen.landscape(rng, max_n=60, max_d=60)
    T, _ = gen.temperatures(rng, N=land.N, D=land.freq.shape[1], inf='q' not in land.kinds, max_m=gen.pick(rng, [60, 60, 60, 300]))
    if rng.random() < 0.1:      # a long ramp
        T = gen.layout(rng, np.sort(gen.pick(rng, [rng.uniform(0.5, 1500, int(rng.integers(60, 300))), 10. ** rng.uniform(-1, 4, int(rng.integers(60, 300)))])))
    if rng.random() < 0.3:
        T = gen.layout(rng, np.sort(T)[::gen.pick(rng, [1, -1])])
    return derive(ctx, rng, land, T)


def bulk(ctx, rng):
    land, T = gen.bulk(rng, most=0.7)
    if rng.random() < 0.4:
        T = gen.layout(rng, np.sort(T)[::gen.pick(rng, [1, -1])])
    return derive(ctx, rng, land, T)


def derive(ctx, rng, land, T):
    M = T.size
    c = rng.normal(size=(land.N, 3))

    def B(t):
        t = np.asarray(t, float)
        x = np.where(np.isfinite(t), t, 1e9)[None, :] / 300.
        return c[:, :1] + c[:, 1:2] * np.sin(x) + c[:, 2:] * np.tanh(x)
    ctx.note.update(land.describe(), T=T)
    full = evaluate(land, T, B)
    amp = np.where(np.isfinite(ref.Model(land).amplitude(T)), ref.Model(land).amplitude(T), 0) + land.N + land.freq.shape[1]
    todo = []
    j = int(rng.integers(M))
    todo.append((np.array([j]), 'alone'))
    if rng.random() < 0.5:
        z = np.nonzero(np.asarray(T) == 0)[0]
        todo.append((np.array([int(z[0]) if z.size else M - 1]), 'alone'))
    todo.append((rng.permutation(M), 'in another order'))
    todo.append((rng.integers(M, size=int(rng.integers(1, 2 * M + 2))), 'in a subset with repetitions'))
    if land.N > 1:
        todo.append((rng.integers(M, size=land.N), 'with as many temperatures as minima'))
    for idx, what in todo[:int(rng.integers(2, 6))]:
        sub = evaluate(land, gen.layout(rng, np.asarray(T)[idx]), B)
        for name, a in full.items():
            same(ctx, name, a[:, idx], sub[name], amp[idx], T[idx], what)
        ctx.count('derived_grids')
    # with other temperatures added
    more = np.array(gen.pick(rng, [[0.], [1e-3, 0.], [1e6], [0., 1e5, 3.], [1e-4], [7.] * 40]))
    pos = int(rng.integers(M + 1))
    Tm = np.concatenate([np.asarray(T, float)[:pos], more, np.asarray(T, float)[pos:]])
    idx = np.concatenate([np.arange(pos), np.arange(pos, M) + more.size])
    sub = evaluate(land, Tm, B)
    for name, a in full.items():
        same(ctx, name, a, sub[name][:, idx], amp, T, 'next to %s' % more.tolist())
    # other types of the same numbers
    if np.isfinite(T).all() and (np.asarray(T) == np.round(np.asarray(T))).all():
        for dt in rng.choice(['int64', 'int32', 'float64', 'uint16', 'longdouble', 'float32'], 2, replace=False):
            Td = np.asarray(T).astype(dt)
            if not (Td == T).all():
                continue
            if dt == 'float32':     # single precision by request: only the shape of the results
                continue
            sub = evaluate(land, Td, B)
            for name, a in full.items():
                same(ctx, name, a, sub[name], amp, T, 'as %s' % dt)
            ctx.count('dtypes:' + str(dt))
    ctx.sample({'land': land.describe(), 'T': T, 'grids': [w for _, w in todo]})
    return digest(land.kinds, *land.arrays().values(), T) if np.unique(np.asarray(T, float)).size > 1 else None


def whole(ctx, rng):
    """Grids of whole temperatures, so that integer types are always tried."""
    land = gen.landscape(rng, max_n=20, max_d=30)
    lo = int(rng.integers(0, 3))
    T = np.arange(lo, lo + int(rng.integers(1, 12))) * int(rng.integers(1, 60))
    c = rng.normal(size=(land.N, 1))

    def B(t):
        return c * (1 + np.asarray(t, float)[None, :] / 100)
    ctx.note.update(land.describe(), T=T)
    base = evaluate(land, T.astype(float), B)
    amp = ref.Model(land).amplitude(T)
    for dt in ('int64', 'int32', 'uint16', 'longdouble'):
        sub = evaluate(land, gen.layout(rng, T.astype(dt)), B)
        for name, a in base.items():
            same(ctx, name, a, sub[name], amp, T, 'as %s' % dt)
        ctx.count('dtypes:' + dt)
    return digest(land.kinds, *land.arrays().values(), T)


def setup(ctx):
    gen.SMALL.update(['temperatures'])


STREAMS = [Stream('bulk', bulk, 50, 1000), Stream('grids', grids, 700, 15000), Stream('whole', whole, 300, 6000)]
