"""C06: contributions combine as independent degrees of freedom."""
import numpy as np

import occuprob as op
from rtm import gen, oracle, ref
from rtm.core import Stream, digest

RULE = ('Random multisets of up to 12 contributions (built-in, repeated and user-defined subclasses, with floating and integer tables, new or kept ones) added in random order and grouping (singly, list, '
        'tuple, generator, nested rounds) to a superposition; products, sums, probabilities and heat capacity compared with those of '
        'the contributions taken one by one and with the reference. Non-trivial: at least two contributions and two occupied minima; distinct by hash.')


class UserPF(op.PartitionFunction):
    """Z_a = c_a (kT)^p_a exp(-e_a/kT): only the three documented methods."""

    def __init__(self, c, p, e):
        self.c, self.p, self.e = c, p, e

    def calc_part_func(self, temperature):
        kt = float(ref.KB) * temperature
        return self.c[:, None] * kt ** self.p[:, None] * np.exp(-self.e[:, None] / kt)

    def calc_part_func_w(self, temperature):
        return -self.p[:, None] - self.e[:, None] / (float(ref.KB) * temperature)

    def calc_part_func_v(self, temperature):
        return self.p[:, None] * np.ones((1, temperature.size))


class CountPF(op.PartitionFunction):
    """A degeneracy: tables of integers."""

    def __init__(self, c):
        self.c = c

    def calc_part_func(self, temperature):
        return np.repeat(self.c[:, None], temperature.size, axis=1)

    def calc_part_func_w(self, temperature):
        return np.zeros((self.c.size, temperature.size), self.c.dtype)

    calc_part_func_v = calc_part_func_w


class StoredPF(UserPF):
    """Hands out the tables it keeps, as a cache or a table read from a file would."""

    def __init__(self, *args):
        super().__init__(*args)
        self.kept, self.bytes, self.locked = {}, {}, False

    def table(self, method, temperature):
        key = (method, np.asarray(temperature, float).tobytes())
        if key not in self.kept:
            self.kept[key] = np.ascontiguousarray(getattr(UserPF, method)(self, temperature), float)
            self.kept[key].flags.writeable = not self.locked
            self.bytes[key] = self.kept[key].tobytes()
        return self.kept[key]

    def intact(self):
        return all(self.kept[k].tobytes() == b for k, b in self.bytes.items())

    def calc_part_func(self, temperature):
        return self.table('calc_part_func', temperature)

    def calc_part_func_w(self, temperature):
        return self.table('calc_part_func_w', temperature)

    def calc_part_func_v(self, temperature):
        return self.table('calc_part_func_v', temperature)


def user(rng, N, T):
    """A user-defined contribution and its reference logarithm."""
    if rng.random() < 0.25:
        n = rng.integers(1, 9, N).astype(gen.pick(rng, [np.int64, np.int64, np.int32]))
        return (CountPF(n), lambda T: np.repeat(np.log(ref.ld(n))[:, None], np.size(T), axis=1),
                lambda T: np.zeros((N, np.size(T)), ref.LD), lambda T: np.zeros((N, np.size(T)), ref.LD))
    c, p = rng.uniform(0.2, 5, N), rng.integers(0, 4, N) * 0.5
    e = rng.choice([0., 1.]) * float(ref.KB) * T.min() * rng.exponential(8., N)
    pf = gen.pick(rng, [UserPF, UserPF, StoredPF])(c, p, e)
    if isinstance(pf, StoredPF):
        pf.locked = rng.random() < 0.3

    def log(T):
        b = ref.beta(T)
        return np.log(ref.ld(c))[:, None] - ref.ld(p)[:, None] * np.log(b)[None, :] - ref.ld(e)[:, None] * b[None, :]

    def w(T):
        return -ref.ld(p)[:, None] - ref.ld(e)[:, None] * ref.beta(T)[None, :]

    def v(T):
        return ref.ld(p)[:, None] + 0 * ref.beta(T)[None, :]
    return pf, log, w, v


def add_in_groups(rng, sa, items):
    """Adds the items in order, grouped at random; returns the grouping."""
    how, i = [], 0
    while i < len(items):
        k = int(rng.integers(1, 4)) if rng.random() < 0.8 else len(items)
        part = items[i:i + k]
        i += k
        mode = gen.pick(rng, ['each', 'list', 'tuple', 'iter', 'empty+each'])
        if mode == 'list':
            sa.add_partition_functions(list(part))
        elif mode == 'tuple':
            sa.add_partition_functions(tuple(part))
        elif mode == 'iter':
            sa.add_partition_functions(x for x in part)
        else:
            if mode == 'empty+each':
                sa.add_partition_functions([])
            for x in part:
                sa.add_partition_functions(x)
        how.append((mode, len(part)))
    return how


def compose(ctx, rng):
    land = gen.landscape(rng, max_n=40, max_d=40)
    T, _ = gen.temperatures(rng, zero=False, small=False, N=land.N, D=land.freq.shape[1])
    return combine(ctx, rng, land, T.astype(float))


def bulk(ctx, rng):
    land, T = gen.bulk(rng, zero=False, most=0.5)
    return combine(ctx, rng, land, T)


def combine(ctx, rng, land, T):
    items = []      # (object, log, w, v)

    def builtin(kind, L):
        m = ref.Model(L, kind)
        return (L.one(kind), lambda t: m.logw(t), lambda t: m.W(t), lambda t: m.V(t))
    for kind in land.kinds:
        items.append(builtin(kind, land))
    for _ in range(int(rng.integers(0, 4))):
        items.append(user(rng, land.N, T))
    if rng.random() < 0.5:
        for _ in range(int(rng.integers(1, 6))):    # more vibrational blocks, repeated objects
            r = rng.random()
            if r < 0.4:
                f, _m = gen.frequencies(rng, land.N, int(rng.integers(1, 8)))
                items.append(builtin(gen.pick(rng, 'cq'), land.replace(freq=f)))
            elif r < 0.7:
                items.append(builtin('r', land.replace(moments=np.ones((land.N, 3)), sigma=gen.orders(rng, land.N))))
            else:
                items.append(items[int(rng.integers(len(items)))])
    order = rng.permutation(len(items))
    items = [items[k] for k in order]
    sa = op.SuperpositionApproximation()
    how = add_in_groups(rng, sa, [x[0] for x in items])
    ctx.note.update(land.describe(), T=T, grouping=how, contributions=[type(x[0]).__name__ for x in items])
    terms = [x[1](T) for x in items]
    logw = sum(terms)
    amp = sum(np.abs(t).max(axis=0) for t in terms) + ref.Model(land).amplitude(T)
    # against the reference
    P = oracle.as_table(ctx, sa.calc_probability(T), land.N, T.size, 'calc_probability')
    oracle.same_logP(ctx, P, ref.normalize(logw), amp, 'calc_probability of %d contributions' % len(items))
    Z = oracle.as_table(ctx, sa.calc_partition_functions(T), land.N, T.size, 'calc_partition_functions')
    oracle.same_ratios(ctx, Z, logw, amp, 'calc_partition_functions', oracle.representable(terms),
                       whole=all((t < 600).all() for t in terms))
    # against the contributions themselves
    zs = [ref.ld(x[0].calc_part_func(T)) for x in items]
    prod = zs[0].copy()
    for z in zs[1:]:
        prod = prod * z
    ok = oracle.representable(terms)
    oracle.close(ctx, np.where(ok, Z, 0), np.where(ok, prod, 0), 1e-11, 0, 'calc_partition_functions as the product')
    for method, part in (('calc_part_func_w', 2), ('calc_part_func_v', 3)):
        tot = sa.combine_contributions(T, np.sum, method)
        tot = oracle.as_table(ctx, tot, land.N, T.size, 'sum of ' + method)
        each = [ref.ld(getattr(x[0], method)(T)) for x in items]
        scale = sum(np.abs(e) for e in each)
        oracle.close(ctx, (tot - sum(each)) / (1 + scale), 0 * tot, 0, 1e-13, 'sum of ' + method)
    # heat capacity from the reference of every contribution
    C = ref.fluctuation(ref.normalize(logw), sum(x[2](T) for x in items), sum(x[3](T) for x in items))
    obs = sa.calc_heat_capacity(T)
    oracle.close(ctx, obs, C[None, :], 1e-7, 1e-9 * (1 + float(amp.max()) * 1e-6), 'calc_heat_capacity')
    # another order and grouping gives the same
    sb = op.SuperpositionApproximation()
    how2 = add_in_groups(rng, sb, [items[k][0] for k in rng.permutation(len(items))])
    ctx.note['second_grouping'] = how2
    d = np.abs(ref.ld(sb.calc_probability(T)) - P)
    ctx.check((d <= 1e-11 + 1e-14 * amp).all(), 'probabilities depend on the order of addition by %r' % float(d.max()))
    C2 = sb.calc_heat_capacity(T)
    oracle.close(ctx, C2, obs, 1e-8, 1e-9 * (1 + float(amp.max()) * 1e-6), 'calc_heat_capacity in another order')
    for x in items:
        if isinstance(x[0], StoredPF):
            ctx.check(x[0].intact(), 'a table kept by a user-defined contribution was modified')
            ctx.count('stored_tables', len(x[0].kept))
    ctx.count('contributions_combined', len(items))
    ctx.sample({'contributions': ctx.note['contributions'], 'grouping': how, 'T': T, 'P': P})
    if len(items) < 2 or not oracle.nontrivial(P):
        return None
    return digest(ctx.note['contributions'], how, how2, *land.arrays().values(), T)


STREAMS = [Stream('compose', compose, 2400, 25000), Stream('bulk', bulk, 80, 1000)]
