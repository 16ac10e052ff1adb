"""C07: occupation at 0 K is the limit of low temperatures."""
import numpy as np

from rtm import gen, oracle, ref
from rtm.core import Stream, digest

RULE = ('Landscapes with unique, degenerate (2 to all minima) and wholly tied ground states in any position, or ground states lower by a few units in the last place up to 1e-5 eV; T = 0 alone or inside a grid; '
        'the column at 0 K compared with the analytic limit and with the library itself at the temperature where the first gap is 80 kT. '
        'Non-trivial: two or more minima; distinct by hash. With quantum vibrations the deviation listed as known finding is accepted only '
        'if it is exactly that of electronic energies without zero-point energies.')


def with_zero(rng, land):
    T, _ = gen.temperatures(rng, zero=True, N=land.N, D=land.freq.shape[1], max_m=30)
    T = np.array(T)
    if rng.random() < 0.3:
        T = np.array([0.] if rng.random() < 0.5 else [0])
    if not (T == 0).any():
        T[rng.integers(T.size)] = 0
    return T


def match(P, logref, tol=1e-9):
    e = np.exp(logref)
    if (P[np.isneginf(logref)] != 0).any():     # not occupied at all
        return False
    return bool(np.isfinite(P).all() and (np.abs(P - e) <= tol * e + 1e-250).all())


def decide(ctx, land, T):
    ctx.note.update(land.describe(), T=T)
    model = ref.Model(land)
    P = oracle.as_table(ctx, land.build().calc_probability(T), land.N, T.size, 'calc_probability')
    limit = model.logP0()
    for j in np.nonzero(T == 0)[0]:
        ctx.count('columns_at_0K')
        ctx.events['oracle_decisions'] += 1
        col = P[:, j]
        if match(col, limit):
            continue
        if 'q' in land.kinds and match(col, model.logP0(ignore_zpe=True)):
            ctx.known('zpe-ignored-at-0K', 'at T = 0 the zero-point energy is ignored: %s instead of %s' % (
                col.astype(float), np.exp(limit).astype(float)))
            continue
        k = int(np.abs(np.where(np.isfinite(col), col, 9) - np.exp(limit)).argmax())
        ctx.fail('at T = 0 minimum %d has probability %r, the limit T -> 0+ is %r' % (k, float(col[k]), float(np.exp(limit[k]))))
    # the library itself close to 0 K
    L = land
    ground = np.zeros(L.N, np.longdouble)
    if 'e' in land.kinds or 's' in land.kinds:
        ground = ground + ref.ld(L.E) - ref.ld(L.E).min()
    if 'q' in land.kinds:
        ground = ground + 0.5 * ref.H * ref.ld(L.freq).sum(axis=1)
    rel = ground - ground.min()
    up = rel[rel > (1e-15 * max(float(np.abs(ground).max()), 1e-30) if 'q' in land.kinds else 0)]
    gap = float(up.min()) if up.size else 1e-3
    if gap > 1e-7 and gap > 1e-9 * float(np.abs(ground).max()):
        entropy = sum([x for k, x in model.log_terms(np.array([1.])).items() if k in 'cr'] or [0])
        entropy = float(np.ptp(entropy)) + float(np.log(np.max(land.g)))
        Tc = np.array([gap / float(ref.KB) / (80 + entropy)])
        if 'q' in land.kinds:       # freeze the softest mode too
            Tc = np.minimum(Tc, float(ref.H / ref.KB) * float(np.min(land.freq)) / 80)
        if Tc[0] > 1e-7:
            cold = land.build().calc_probability(Tc)[:, 0]
            e = np.exp(limit)
            ctx.check((np.abs(cold - e) <= 1e-8).all(), 'at %r K the probabilities %s are not at their limit %s' % (
                float(Tc[0]), cold.astype(float), e.astype(float)))
            ctx.count('cold_columns')
    ctx.sample({'land': land.describe(), 'T': T, 'P_at_0K': P[:, T == 0][:, 0]})
    return digest(land.kinds, *land.arrays().values(), T) if land.N > 1 else None


def general(ctx, rng):
    land = gen.landscape(rng, gen.pick(rng, [k for k in gen.CONTRIBUTION_SETS if 'q' not in k]))
    return decide(ctx, land, with_zero(rng, land))


def ties(ctx, rng):
    """Several minima share the lowest energy, not in first place."""
    land = gen.landscape(rng, gen.pick(rng, ['e', 's', 'ec', 'sc', 'er', 'sr', 'scr', 'ecr']), max_n=12)
    if land.N < 2:
        return None
    E = np.array(land.E, float)
    k = int(rng.integers(2, land.N + 1))
    E[rng.choice(land.N, k, replace=False)] = E.min() - gen.pick(rng, [0., 0.1, 3.])
    return decide(ctx, land.replace(E=gen.layout(rng, E)), with_zero(rng, land))


def split(ctx, rng):
    """Ground states lower than others by next to nothing: not degenerate all the same."""
    land = gen.landscape(rng, gen.pick(rng, ['e', 's', 'ec', 'sc', 'er', 'sr', 'scr', 'ecr']), max_n=12)
    if land.N < 2:
        return None
    E = np.array(land.E, float) - gen.pick(rng, [0., float(np.min(land.E))])
    low = E.min()
    k = int(rng.integers(2, land.N + 1))
    near = rng.choice(land.N, k, replace=False)
    for i in near[1:]:
        if rng.random() < 0.4:      # a few units in the last place
            x = low
            for _ in range(int(rng.integers(1, 5))):
                x = np.nextafter(x, np.inf)
            E[i] = x
        else:
            E[i] = low + 10. ** rng.uniform(-14, -5)
    E[near[0]] = low
    ctx.count('gaps_below_1e-9_eV', int(((E > low) & (E < low + 1e-9)).sum()))
    return decide(ctx, land.replace(E=gen.layout(rng, E)), with_zero(rng, land))


def quantum(ctx, rng):
    """Ground states set by the zero-point energy, in agreement with the energies or not."""
    land = gen.landscape(rng, gen.pick(rng, ['q', 'eq', 'sq', 'qr', 'eqr', 'sqr']), max_n=10, max_d=30)
    if rng.random() < 0.6:
        E = land.E - np.min(land.E)
        zpe = (0.5 * ref.H * ref.ld(land.freq).sum(axis=1)).astype(float)
        if rng.random() < 0.5:      # same minimum lowest in both
            i, j = int(np.argmin(E)), int(np.argmin(zpe))
            f = np.array(land.freq)
            f[[i, j]] = f[[j, i]]
            land = land.replace(freq=f)
        else:
            land = land.replace(E=gen.layout(rng, rng.permutation(zpe) * rng.uniform(0, 1) - 3.))
    return decide(ctx, land, with_zero(rng, land))


def finding(ctx, rng):
    """The recorded history: 0.01 eV higher but with a lower zero-point energy."""
    E, f = np.array([0., 0.01]), np.array([[50., 50.], [40., 40.]])
    land = gen.Landscape('eq', E, np.ones(2), f, np.ones((2, 3)), np.ones(2))
    return decide(ctx, land, np.array([0., 0.01, 1., 10.]))


STREAMS = [Stream('general', general, 2700, 20000), Stream('ties', ties, 1500, 10000), Stream('split', split, 1500, 10000),
           Stream('quantum', quantum, 1500, 10000), Stream('finding', finding, 1, 1)]
