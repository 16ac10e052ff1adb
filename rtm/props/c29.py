"""C29: the reported quantities agree with one another."""
import numpy as np

import occuprob as op
from rtm import gen, oracle, ref
from rtm.core import Stream, digest
from rtm.props import c06

RULE = ('Superpositions of built-in, repeated and user-defined contributions at random temperatures (0 K included) and sessions in which all the public entry points are called in random order on shared '
        'superpositions; probabilities compared with Z/sum(Z) where Z and its factors are representable, averages with sums over reported probabilities, heat capacities with the reported '
        'averages and variances. Non-trivial: two occupied minima; distinct by hash.')


def superposition(rng, T, land=None):
    """A superposition, its contributions and a description."""
    if land is None:
        land = gen.landscape(rng, max_n=60, max_d=60)
    parts = land.parts()
    if T.min() > 0:
        while rng.random() < 0.35:
            parts.append(c06.user(rng, land.N, T)[0])
    while rng.random() < 0.25:
        r = rng.random()
        if r < 0.4:
            f, _ = gen.frequencies(rng, land.N, int(rng.integers(1, 6)))
            parts.append(land.replace(freq=f).one(gen.pick(rng, 'cq')))
        elif r < 0.7:
            parts.append(land.one('r'))
        else:
            parts.append(parts[int(rng.integers(len(parts)))])
    parts = [parts[k] for k in rng.permutation(len(parts))]
    sa = op.SuperpositionApproximation()
    c06.add_in_groups(rng, sa, parts)
    return land, parts, sa


def usable(zs, Z):
    """(columns that can be judged, elements that are surely negligible in them)."""
    ok = np.ones(Z.shape, bool)
    cum = np.ones_like(Z)
    small = np.zeros(Z.shape, bool)
    others = np.ones_like(Z)
    for z in zs:
        ok &= (z > 1e-280) & (z < 1e280)
        small |= z < 1e-280
        others = others * np.where(z < 1e-280, 1, z)
        cum = cum * z
        ok &= (cum > 1e-280) & (cum < 1e280)
    # some factor vanishes and the others cannot compensate for it
    dead = ~ok & small & (others < 1e100)
    top = np.where(ok, cum, 0).max(axis=0)
    cols = (ok | dead).all(axis=0) & (top > 1e-50) & np.isfinite(Z).all(axis=0)
    cols |= ok.all(axis=0)
    return cols, dead, ok, cum


def check_probability(ctx, sa, parts, T, P):
    Z = oracle.as_table(ctx, sa.calc_partition_functions(T), P.shape[0], T.size, 'calc_partition_functions')
    with np.errstate(all='ignore'):
        zs = [np.broadcast_to(ref.ld(p.calc_part_func(T)), Z.shape) for p in parts]
        cols, dead, ok, cum = usable(zs, Z)
        bad = ok & ~(np.abs(Z - cum) <= 1e-9 * cum)
    if bad.any():
        k = tuple(np.argwhere(bad)[0])
        ctx.fail('the partition function of minimum %d at %r K is %r, the product of the contributions %r' % (k[0], float(T[k[1]]), float(Z[k]), float(cum[k])))
    if not cols.any():
        return 0
    e = (Z / np.where(cols, Z.sum(axis=0), 1))[:, cols]
    p, d = P[:, cols], dead[:, cols]
    diff = np.abs(p - e) - 1e-9 * np.where(d, 0, e)
    bad = np.where(d, p > 1e-100, diff > 1e-300)
    bad |= np.isnan(p)
    if bad.any():
        k = tuple(np.argwhere(bad)[0])
        ctx.fail('minimum %d at %r K has probability %r but Z/sum(Z) = %r' % (k[0], float(T[cols][k[1]]), float(p[k]), float(e[k])))
    ctx.count('probabilities_against_Z', int(cols.sum()) * P.shape[0])
    ctx.events['oracle_decisions'] += 1
    return int(cols.sum())


def check_average(ctx, sa, T, P, B):
    A = oracle.as_table(ctx, sa.calc_ensemble_average(T, B), 1, T.size, 'calc_ensemble_average')[0]
    Bl = ref.ld(B)
    e = (Bl * P).sum(axis=0)
    s = (np.abs(Bl) * P).sum(axis=0)
    d = np.abs(A - e)
    d = np.where(np.isnan(d), np.inf, d)
    ctx.check((d <= 1e-11 * s + 1e-300).all(), 'the average is %r but the reported probabilities give %r' % (float(A[d.argmax()]), float(e[d.argmax()])))
    ctx.count('averages_against_P', T.size)


def check_heat_capacity(ctx, sa, parts, T, P):
    pos = T > 0
    if not pos.any():
        return
    C = oracle.as_table(ctx, sa.calc_heat_capacity(T), 1, T.size, 'calc_heat_capacity')[0][pos]
    W = ref.ld(sa.combine_contributions(T, np.sum, 'calc_part_func_w'))[:, pos]
    V = ref.ld(sa.combine_contributions(T, np.sum, 'calc_part_func_v'))[:, pos]
    ctx.check(W.shape == V.shape == (P.shape[0], int(pos.sum())), 'the reported derivatives have shapes %s and %s' % (W.shape, V.shape))
    for name, x in (('calc_part_func_w', W), ('calc_part_func_v', V)):
        own = [ref.ld(getattr(p, name)(T))[:, pos] for p in parts]
        with np.errstate(all='ignore'):
            e, size = sum(own), sum(np.abs(o) for o in own)
            fine = np.isfinite(size)
            bad = fine & ~(np.abs(x - e) <= 1e-11 * size + 1e-300)
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            ctx.fail('the combined %s of minimum %d at %r K is %r, the contributions sum up to %r' % (name, k[0], float(T[pos][k[1]]), float(x[k]), float(e[k])))
    P = P[:, pos]
    occ = P > 0
    W, V = np.where(occ, W, 0), np.where(occ, V, 0)
    with np.errstate(over='ignore', invalid='ignore'):
        mean = (W * P).sum(axis=0)
        dev = W - mean
        var = (dev ** 2 * P).sum(axis=0)
        e = (V * P).sum(axis=0) + var
        # round-off of the doubles W: energies may carry a large common offset
        size = np.abs(W).max(axis=0) * 3e-15
        tol = 1e-9 * e + 4 * size * np.sqrt(var) + size ** 2 + 1e-12
        fine = np.isfinite(e) & np.isfinite(tol)
        d = np.abs(C - e)
    d = np.where(np.isnan(d), np.inf, d)
    bad = fine & (d > tol)
    if bad.any():
        k = int(np.argwhere(bad)[0][0])
        ctx.fail('the heat capacity at %r K is %r but <V> + Var(W) = %r' % (float(T[pos][k]), float(C[k]), float(e[k])))
    ctx.events['oracle_decisions'] += 1
    ctx.count('heat_capacities_against_W_V', int(fine.sum()))


def observable(rng, N, M):
    B = rng.normal(size=(N, M)) * 10. ** rng.uniform(-3, 6)
    r = rng.random()
    if r < 0.2:
        B = rng.integers(-20, 20, (N, M))
    elif r < 0.4:
        B = np.repeat(B[:, :1], M, axis=1)
    elif r < 0.5:
        B = B.astype(np.longdouble)
    elif r < 0.65:
        return np.broadcast_to(B[:, :1], (N, M))
    return gen.layout(rng, B)


def single(ctx, rng):
    T, mode = gen.temperatures(rng, zero=rng.random() < 0.5, small=False)
    T = np.asarray(T, float)
    return judge(ctx, rng, T, *superposition(rng, T))


def bulk(ctx, rng):
    land, T = gen.bulk(rng, most=0.7)
    return judge(ctx, rng, T, *superposition(rng, T, land))


def judge(ctx, rng, T, land, parts, sa):
    ctx.note.update(land.describe(), T=T, contributions=[type(p).__name__ for p in parts])
    P = oracle.as_table(ctx, sa.calc_probability(T), land.N, T.size, 'calc_probability')
    cols = check_probability(ctx, sa, parts, T, P)
    check_average(ctx, sa, T, P, observable(rng, land.N, T.size))
    check_heat_capacity(ctx, sa, parts, T, P)
    ctx.sample({'contributions': ctx.note['contributions'], 'N': land.N, 'T': T, 'columns_with_Z': cols})
    return digest(ctx.note['contributions'], *land.arrays().values(), T) if oracle.nontrivial(P) else None


def ground(ctx, rng):
    """Exactly 0 K and just above, where sums of Z reduce to the ground state."""
    land = gen.landscape(rng, gen.pick(rng, ['s', 'e', 'sc', 'scr', 'sr', 'er', 'ec']), max_n=20, max_d=20)
    T = np.array([0., 1e-3, 0., float(10. ** rng.uniform(-2, 2))])
    parts, sa = land.parts(), land.build()
    ctx.note.update(land.describe(), T=T)
    P = oracle.as_table(ctx, sa.calc_probability(T), land.N, T.size, 'calc_probability')
    n = check_probability(ctx, sa, parts, T, P)
    check_average(ctx, sa, T, P, observable(rng, land.N, T.size))
    return digest(land.kinds, *land.arrays().values()) if n else None


def session(ctx, rng):
    """All entry points in random order on shared superpositions that grow in between."""
    T0 = 10. ** rng.uniform(0.5, 3.3, int(rng.integers(1, 9)))
    items = [superposition(rng, T0) for _ in range(2)]
    trace = []
    ctx.note['trace'] = trace
    for _ in range(int(rng.integers(4, 10))):
        k = int(rng.integers(2))
        land, parts, sa = items[k]
        T = gen.pick(rng, [T0, T0[::-1], T0[:1], T0 * 1.5, np.sort(T0)])
        what = gen.pick(rng, ['P', 'avg', 'C', 'add', 'all'])
        trace.append((what, k, T.size))
        if what == 'add':
            new = [gen.pick(rng, [lambda: land.one('r'), lambda: land.one('c'), lambda: land.one('s'), lambda: c06.user(rng, land.N, T0)[0]])()]
            sa.add_partition_functions(new if rng.random() < 0.5 else new[0])
            parts.extend(new)
            continue
        P = oracle.as_table(ctx, sa.calc_probability(T), land.N, T.size, 'calc_probability')
        if what in ('P', 'all'):
            check_probability(ctx, sa, parts, T, P)
        if what in ('avg', 'all'):
            check_average(ctx, sa, T, P, observable(rng, land.N, T.size))
        if what in ('C', 'all'):
            check_heat_capacity(ctx, sa, parts, T, P)
    ctx.count('session_steps', len(trace))
    return digest(trace, *items[0][0].arrays().values(), T0)


STREAMS = [Stream('bulk', bulk, 100, 1000), Stream('single', single, 2400, 25000), Stream('ground', ground, 1000, 10000), Stream('session', session, 500, 5000)]
