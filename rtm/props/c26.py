"""C26: empty or inconsistent superpositions yield no numbers."""
import contextlib
import io

import numpy as np

import occuprob as op
from rtm import gen, oracle
from rtm.core import Stream, digest
from rtm.props import c06

RULE = ('Superpositions without contributions (new, extended with empty lists, tuples and iterators, sharing a class with filled ones) asked for every quantity in random order; and '
        'superpositions of 2-5 built-in and user-defined contributions of which one or more has another number of minima (1-40: a single minimum would be broadcast by a careless combination), in every position. '
        'Distinct by hash of the trace.')

QUANTITIES = ['P', 'Z', 'avg', 'C', 'W', 'V']


def ask(sa, what, T, N, rng):
    if what == 'P':
        return sa.calc_probability(T)
    if what == 'Z':
        return sa.calc_partition_functions(T)
    if what == 'C':
        return sa.calc_heat_capacity(T)
    if what == 'avg':
        return sa.calc_ensemble_average(T, rng.normal(size=(N, T.size)))
    return sa.combine_contributions(T, np.sum, 'calc_part_func_' + what.lower())


def empty(ctx, rng):
    sas = []
    trace = []
    ctx.note['trace'] = trace
    for _ in range(int(rng.integers(1, 4))):
        sa = op.SuperpositionApproximation()
        for _ in range(int(rng.integers(0, 4))):
            how = gen.pick(rng, ['list', 'tuple', 'iter', 'dict'])
            trace.append('add empty ' + how)
            sa.add_partition_functions({'list': [], 'tuple': (), 'iter': iter([]), 'dict': {}}[how])
        sas.append(sa)
    if rng.random() < 0.6:      # another, not empty
        land = gen.landscape(rng, max_n=10, max_d=10)
        full = land.build()
        full.calc_probability(np.array([300.]))
        trace.append('other with ' + land.kinds)
    for _ in range(int(rng.integers(3, 10))):
        T, mode = gen.temperatures(rng, max_m=30)
        k = int(rng.integers(len(sas)))
        what = gen.pick(rng, QUANTITIES)
        trace.append('%s of %d at %s' % (what, k, mode))
        try:
            r = ask(sas[k], what, T, int(rng.integers(1, 6)), rng)
        except Exception as e:      # noqa: BLE001
            ctx.fail('%s of an empty superposition raised %s: %s' % (what, type(e).__name__, e))
        ctx.check(r is None, '%s of an empty superposition is %r' % (what, r), T=T)
        ctx.count('empty_' + what)
        if rng.random() < 0.2:
            trace.append('add empty list')
            sas[k].add_partition_functions([])
    # once it has contributions it answers
    if rng.random() < 0.5:
        land = gen.landscape(rng, max_n=10, max_d=10)
        sas[0].add_partition_functions(land.parts())
        T = np.array([50., 300.])
        P = sas[0].calc_probability(T)
        ctx.check(P is not None and P.shape == (land.N, 2), 'no probabilities after adding contributions')
        for sa in sas[1:]:
            ctx.check(sa.calc_probability(T) is None, 'an empty superposition has probabilities after another was filled')
    ctx.sample(list(trace))
    return digest(trace)


class Uneven(op.partitionfunctions.PartitionFunction):
    """A contribution of the user's, one of whose tables has another number of minima."""

    def __init__(self, sizes):
        self.sizes = sizes

    def calc_part_func(self, temperature):
        return np.ones((self.sizes['Z'], temperature.size))

    def calc_part_func_w(self, temperature):
        return -0.5 * np.ones((self.sizes['W'], temperature.size))

    def calc_part_func_v(self, temperature):
        return 0.5 * np.ones((self.sizes['V'], temperature.size))


def uneven(ctx, rng):
    """Contributions that agree on the partition functions but not on a derivative, or the reverse."""
    T, mode = gen.temperatures(rng, max_m=30, zero=False, small=False)
    T = np.asarray(T, float)
    land = gen.landscape(rng, max_n=20, max_d=12)
    if land.N < 2:
        return None
    sizes = dict.fromkeys('ZWV', land.N)
    odd = gen.pick(rng, 'ZWV')
    sizes[odd] = int(gen.pick(rng, [1, land.N - 1, land.N + 1, 2 * land.N, T.size if T.size != land.N else 1]))
    parts = land.parts()
    parts.insert(int(rng.integers(len(parts) + 1)), Uneven(sizes))
    sa = op.SuperpositionApproximation()
    sa.add_partition_functions(parts)
    ctx.note.update(kinds=land.kinds, minima=land.N, odd=sizes, T=T)
    used = {'Z': ['P', 'Z', 'avg', 'C'], 'W': ['W', 'C'], 'V': ['V', 'C']}[odd]
    for what in [used[k] for k in rng.permutation(len(used))]:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = ask(sa, what, T, land.N, rng)
        except Exception as e:      # noqa: BLE001
            ctx.count('refused_with_' + type(e).__name__)
            r = None
        ctx.check(r is None, '%s of contributions that disagree on %s: a result of shape %s' % (what, odd, np.shape(r)), result=r)
        ctx.count('uneven_' + what)
    return digest(land.kinds, sizes, T)


def inconsistent(ctx, rng):
    T, mode = gen.temperatures(rng, max_m=30, zero=False, small=False)
    T = np.asarray(T, float)
    N = int(rng.integers(2, 41))
    n = int(rng.integers(2, 6))
    sizes = [N] * n
    for k in rng.choice(n, int(rng.integers(1, n)), replace=False):
        other = int(rng.integers(2, 41))
        # numbers related to N, on which a careless combination could agree
        sizes[k] = int(gen.pick(rng, [other, N + 1, max(1, N - 1), 2 * N, T.size, max(1, N // 2), 1, 1]))
    if len(set(sizes)) == 1:
        sizes[0] += 1
    parts, kinds = [], []
    for s in sizes:
        kind = gen.pick(rng, 'escqru')
        if kind == 'u':
            parts.append(c06.user(rng, s, T)[0])
        else:
            land = gen.landscape(rng, max_d=12)
            while land.N < s:
                land = gen.landscape(rng, max_d=12)
            parts.append(land.take(np.arange(s)).one(kind))
        kinds.append('%s:%d' % (kind, s))
    sa = op.SuperpositionApproximation()
    how = c06.add_in_groups(rng, sa, parts)
    ctx.note.update(contributions=kinds, grouping=how, T=T)
    order = [QUANTITIES[k] for k in rng.permutation(4)]
    for what in order:
        size = int(gen.pick(rng, sizes))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = ask(sa, what, T, size, rng)
        except Exception as e:      # noqa: BLE001
            ctx.count('refused_with_' + type(e).__name__)
            r = None
        ctx.check(r is None, '%s of contributions with %s minima: a result of shape %s' % (what, sizes, np.shape(r)), result=r)
        ctx.count('inconsistent_' + what)
    ctx.sample({'contributions': kinds, 'asked': order})
    return digest(kinds, order, T)


def consistent_first(ctx, rng):
    """Valid until a contribution with another number of minima is added."""
    land = gen.landscape(rng, max_n=20, max_d=12)
    if land.N < 2:
        return None
    T, _ = gen.temperatures(rng, max_m=20)
    sa = land.build()
    P = oracle.as_table(ctx, sa.calc_probability(T), land.N, T.size, 'calc_probability')
    other = gen.landscape(rng, kinds=gen.pick(rng, 'scqr'), max_d=12)
    if rng.random() < 0.3:
        other = other.take(np.arange(1))
    elif other.N == land.N:
        other = other.take(np.arange(1).repeat(land.N + 1))
    ctx.note.update(N=land.N, kinds=land.kinds, then=other.kinds, then_N=other.N, T=T)
    sa.add_partition_functions(gen.pick(rng, [other.parts, lambda: tuple(other.parts()), lambda: other.parts()[0]])())
    for what in ('P', 'Z', 'avg', 'C'):
        try:
            r = ask(sa, what, T, land.N, rng)
        except Exception as e:      # noqa: BLE001
            ctx.count('refused_with_' + type(e).__name__)
            r = None
        ctx.check(r is None, '%s after adding %d minima to %d: a result of shape %s' % (what, other.N, land.N, np.shape(r)))
    return digest(land.kinds, other.kinds, *land.arrays().values(), T) if oracle.nontrivial(P) else None


STREAMS = [Stream('empty', empty, 3000, 30000), Stream('inconsistent', inconsistent, 3000, 30000), Stream('consistent_first', consistent_first, 1600, 15000), Stream('uneven', uneven, 900, 6000)]
