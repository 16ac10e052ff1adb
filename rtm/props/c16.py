"""C16: results depend only on the arguments, not on the history of calls."""
import numpy as np

import occuprob as op
from rtm import gen, oracle, ref
from rtm.core import Stream, digest

RULE = ('Random programs (20-60 operations) over pools of superpositions, contributions, temperature arrays and observables of two systems: construction, additions before and after '
        'calculations, every calculation, in-place changes of temperatures, observables and returned arrays by the caller, repetition of old calls, failing calls. After each operation '
        'the monitor compares the result with the reference model of the objects involved and the bytes of every array given to or returned by the library with a snapshot. '
        'Distinct by hash of the operation sequence and its inputs.')


class World:
    """The monitored history."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.trace = []
        self.watched = []       # [array, bytes, description]: must keep these bytes
        self.systems = []
        self.pfs, self.sas, self.Ts = [], [], []
        self.calls = []         # (callable description, result copy, args) to repeat
        for _ in range(2):
            N = int(rng.integers(1, 9))
            D = int(rng.integers(1, 10))
            first = self.fresh_land(N, D)
            self.systems.append([first, self.lookalike(first) if rng.random() < 0.5 else self.fresh_land(N, D)])
        for _ in range(2):
            self.new_sa()
            self.new_pf()
            self.new_temperature()

    def fresh_land(self, N, D):
        rng = self.rng
        f = rng.uniform(0.5, 30., (N, D))
        if rng.random() < 0.3:
            f = f.astype(np.longdouble)
        E = np.cumsum(rng.exponential(0.03, N)) + gen.pick(rng, [0., -4000., 2.])
        m = rng.uniform(5., 900., (N, 3))
        if rng.random() < 0.4:      # some linear isomers
            m[rng.random(N) < 0.5, 0] = gen.pick(rng, [0., 1e-14, -1e-14])
        E = rng.permutation(E)
        if rng.random() < 0.2:
            E, f = rng.integers(0, 3, N), rng.integers(1, 20, (N, D))
        return self.enter(gen.Landscape('', E, gen.spins(rng, N), f, m, gen.orders(rng, N)))

    def lookalike(self, land):
        """The same shapes, types, ends and (within round-off) sums, but other values."""
        rng, new = self.rng, {}
        for k, v in land.originals.items():
            v = v.copy()
            w = v.reshape(-1)
            if w.size > 3 and k != 'moments' and rng.random() < 0.8:
                i, j = 1 + rng.choice(w.size - 2, 2, replace=False)
                d = np.asarray(0.3 * min(w[i], w[j]) if k != 'E' else 0.02).astype(w.dtype)
                if v.dtype.kind == 'f':
                    w[i], w[j] = w[i] + d, w[j] - d
                else:
                    w[i], w[j] = w[j], w[i]
            elif k == 'moments' and len(v) > 2:
                v[1:-1] = rng.permutation(v[1:-1]) * gen.pick(rng, [1., 1., 2.])
            new[k] = v
        self.ctx.count('lookalike_systems')
        return self.enter(land.replace(**new))

    def enter(self, land):
        land.N = len(land.E)
        land.originals = {k: v.copy() for k, v in land.arrays().items()}
        for k, v in land.arrays().items():
            self.watch(v, 'constructor argument ' + k)
        return land

    # --- monitors
    def watch(self, a, what):
        self.watched.append([a, a.tobytes(), what])

    def rewatch(self, a):
        for w in self.watched:
            if w[0] is a:
                w[1] = a.tobytes()

    def audit(self):
        for a, b, what in self.watched:
            if a.tobytes() != b:
                self.ctx.fail('%s was modified' % what, now=a)
        self.ctx.events['oracle_decisions'] += 1
        self.ctx.count('arrays_audited', len(self.watched))
        for sa, items in self.sas:
            if len(sa.partition_functions) != len(items) or any(x is not y[0] for x, y in zip(sa.partition_functions, items)):
                self.ctx.fail('a superposition holds %d contributions, %d were added' % (len(sa.partition_functions), len(items)))

    # --- operations
    def new_sa(self):
        self.sas.append((op.SuperpositionApproximation(), []))
        return 'new superposition'

    def new_pf(self):
        s = int(self.rng.integers(2))
        land = gen.pick(self.rng, self.systems[s])
        kind = gen.pick(self.rng, 'escqr')
        self.pfs.append((land.one(kind), land, kind, s))
        return 'new ' + kind

    def new_temperature(self):
        rng = self.rng
        mode = rng.integers(4)
        if self.Ts and rng.random() < 0.3:      # nearly those of another array
            old = gen.pick(rng, self.Ts)
            T = old.copy()
            j = int(rng.integers(T.size))
            if T.dtype.kind == 'f' and T[j] > 0:
                T[j] *= 1 + gen.pick(rng, [1e-7, 1e-6, 1e-4, 0.1])
            else:
                T[j] += 1
            self.ctx.count('lookalike_temperatures')
        elif rng.random() < 0.04:       # long ones
            T = np.linspace(gen.pick(rng, [0., 20.]), 900., int(rng.integers(1001, 1300)))
            for _ in range(2):
                self.Ts.append(T.copy())
                self.watch(self.Ts[-1], 'temperature array')
                T[int(rng.integers(300, 700))] = rng.uniform(20, 900)
            self.ctx.count('long_temperatures')
        elif rng.random() < 0.06:       # low ones
            T = rng.uniform(0.0005, 0.01, int(rng.integers(1, 5)))
        elif mode == 0:
            T = np.arange(int(rng.integers(0, 2)), int(rng.integers(2, 30))) * int(rng.integers(1, 60))
        elif mode == 1:
            T = rng.uniform(20, 900, int(rng.integers(1, 9)))
        elif mode == 2:
            T = np.array([0., 100., 300.])
        else:
            T = rng.uniform(20, 900, self.systems[int(rng.integers(2))][0].N)
        self.Ts.append(T)
        self.watch(T, 'temperature array')
        return 'new temperatures %s' % T[:3]

    def add(self):
        rng = self.rng
        sa, items = gen.pick(rng, self.sas)
        s = items[0][3] if items else int(rng.integers(2))
        cand = [p for p in self.pfs if p[3] == s]
        if not cand or len(items) > 5:
            return None
        chosen = [gen.pick(rng, cand) for _ in range(int(rng.integers(1, gen.pick(rng, [3, 3, 6]))))]
        if len(chosen) == 1 and rng.random() < 0.6:
            sa.add_partition_functions(chosen[0][0])
        else:
            lst = [p[0] for p in chosen]
            sa.add_partition_functions(lst)
            if rng.random() < 0.5:      # the caller goes on using its own list
                lst.append(gen.pick(rng, self.pfs)[0])
                lst.pop(0)
        items.extend(chosen)
        return 'add %s' % ''.join(p[2] for p in chosen)

    def mutate_temperature(self):
        T = gen.pick(self.rng, self.Ts)
        if self.rng.random() < 0.5:
            T[...] = self.rng.permutation(T)
        else:
            T[int(self.rng.integers(T.size))] = self.rng.integers(20, 500)
        self.rewatch(T)
        return 'change temperatures in place'

    def mutate_result(self):
        own = [w for w in self.watched if w[2].startswith('result') and w[0].flags.writeable]
        if not own:
            return None
        w = gen.pick(self.rng, own)
        w[0][...] = gen.pick(self.rng, [0., -1., np.nan, 1e9])
        w[1] = w[0].tobytes()
        return 'overwrite %s' % w[2]

    def failing(self):
        """A call that cannot succeed, whatever it does, must leave no trace."""
        sa = op.SuperpositionApproximation()
        a = [p for p in self.pfs if p[1].N > 1]
        pair = [(p, q) for p in a for q in a if p[1].N != q[1].N]
        T = gen.pick(self.rng, self.Ts)
        if pair:
            p, q = gen.pick(self.rng, pair)
            sa.add_partition_functions([p[0], q[0]])
        for m in ('calc_probability', 'calc_heat_capacity'):
            try:
                getattr(sa, m)(T)
            except Exception:   # noqa: BLE001
                pass
        return 'failing calls'

    # --- calculations
    def expected_terms(self, items, T):
        terms, W, V = [], 0, 0
        for pf, land, kind, _ in items:
            pristine = land.replace(**land.originals)
            m = ref.Model(pristine, kind)
            terms.append(m.logw(T))
            W, V = W + m.W(T), V + m.V(T)
        return terms, W, V

    def limit(self, items):
        """Probabilities at 0 K; with quantum vibrations the zero-point energy may be ignored (finding of C07)."""
        out = []
        for ignore in (False, True):
            ground, w = 0, 0
            for pf, land, kind, _ in items:
                L = land.replace(**land.originals)
                if kind in 'es':
                    ground = ground + ref.ld(L.E) - ref.ld(L.E).min()
                if kind == 's':
                    w = w + np.log(ref.ld(L.g))
                if kind == 'c':
                    w = w - np.log(ref.ld(L.freq)).sum(axis=1)
                if kind == 'r':
                    w = w + ref.rot_log(L.sigma, L.moments, [1.])[:, 0]
                if kind == 'q' and not ignore:
                    ground = ground + 0.5 * ref.H * ref.ld(L.freq).sum(axis=1)
            N = items[0][1].N
            ground, w = np.zeros(N) + ground, np.zeros(N) + w
            low = ground - ground.min() <= 1e-13
            out.append(np.exp(ref.normalize(np.where(low, w, -np.inf)[:, None])[:, 0]))
        lands = {id(i[1]) for i in items if i[2] in 'es'}
        return out if len(lands) < 2 else None     # two different sets of energies have no common ground state

    def keep(self, x, what):
        self.watch(x, 'result of ' + what)

    def calc_pf(self):
        rng = self.rng
        pf, land, kind, _ = item = gen.pick(rng, self.pfs)
        T = gen.pick(rng, self.Ts)
        m = gen.pick(rng, ['calc_part_func', 'calc_part_func_w', 'calc_part_func_v'])
        x = getattr(pf, m)(T)
        what = '%s(%s)' % (m, kind)
        self.judge_pf(item, m, T, x, what)
        self.keep(x, what)
        self.remember(lambda t: getattr(pf, m)(t), T, x, what)
        return what

    def judge_pf(self, item, m, T, x, what):
        N = item[1].N
        x = oracle.as_table(self.ctx, x, N, T.size, what)
        pos = np.asarray(T) > 0
        if not pos.any():
            return
        Tp = np.array(T[pos], float)
        terms, W, V = self.expected_terms([item], Tp)
        if m == 'calc_part_func':
            oracle.same_ratios(self.ctx, x[:, pos], terms[0], np.abs(terms[0]).max(axis=0), what)
        elif m == 'calc_part_func_w':
            d = x[:, pos] - W
            if item[2] in 'es':
                d = d - d[:1]
            self.ctx.check((np.abs(d) <= 1e-10 * (1 + np.abs(W).max())).all(), '%s differs by %r' % (what, float(np.abs(d).max())))
        else:
            oracle.close(self.ctx, x[:, pos], V, 1e-9, 1e-9, what)

    def calc_sa(self):
        rng = self.rng
        sa, items = gen.pick(rng, self.sas)
        T = gen.pick(rng, self.Ts)
        m = gen.pick(rng, ['calc_probability', 'calc_probability', 'calc_partition_functions', 'calc_ensemble_average', 'calc_heat_capacity', 'combine'])
        names = ''.join(i[2] for i in items)
        what = '%s[%s]' % (m, names)
        if not items:
            x = getattr(sa, m if m != 'combine' else 'calc_probability')(*([T] if m != 'calc_ensemble_average' else [T, np.ones((3, T.size))]))
            self.ctx.check(x is None, '%s of an empty superposition is not None' % m)
            return what
        N = items[0][1].N
        if m == 'calc_ensemble_average':
            B = rng.normal(size=(N, T.size))
            self.watch(B, 'observable')
            f = (lambda s: lambda t: s.calc_ensemble_average(t, B))(sa)
        elif m == 'combine':
            B = None
            part = gen.pick(rng, ['calc_part_func_w', 'calc_part_func_v'])
            what = 'combine_contributions[%s, %s]' % (names, part)
            f = (lambda s, p: lambda t: s.combine_contributions(t, np.sum, p))(sa, part)
        else:
            B = None
            f = getattr(sa, m)
        x = f(T)
        self.judge_sa(items, m, T, x, B, what)
        self.keep(x, what)
        self.remember(f, T, x, what, len(items), items)
        return what

    def judge_sa(self, items, m, T, x, B, what):
        ctx = self.ctx
        N = items[0][1].N
        x = oracle.as_table(ctx, x, 1 if m in ('calc_ensemble_average', 'calc_heat_capacity') else N, T.size, what)
        pos = np.asarray(T) > 0
        Tp = np.array(T[pos], float)
        if pos.any():
            terms, W, V = self.expected_terms(items, Tp)
            logw = sum(terms)
            amp = sum(np.abs(t).max(axis=0) for t in terms)
            P = np.exp(ref.normalize(logw))
            if m == 'calc_probability':
                oracle.same_logP(ctx, x[:, pos], ref.normalize(logw), amp, what)
            elif m == 'calc_partition_functions':
                oracle.same_ratios(ctx, x[:, pos], logw, amp, what, oracle.representable(terms))
            elif m == 'calc_ensemble_average':
                e = (P * B[:, pos]).sum(axis=0)
                ctx.check((np.abs(x[0, pos] - e) <= np.abs(B).max() * 1e-9).all(), '%s differs by %r' % (what, float(np.abs(x[0, pos] - e).max())))
            elif m == 'calc_heat_capacity':
                C = ref.fluctuation(ref.normalize(logw), W, V)
                oracle.close(ctx, x[0, pos], C, 1e-7, 1e-7, what)
        if (~pos).any() and m == 'calc_probability':
            lims = self.limit(items)
            for j in np.nonzero(~pos)[0] if lims else []:
                ctx.check(any((np.abs(x[:, j] - p) <= 1e-9).all() for p in lims), '%s at 0 K is %s' % (what, x[:, j].astype(float)))

    def remember(self, f, T, x, what, n=None, items=None):
        self.calls.append((f, T.copy(), x.copy(), what, n, items))
        if len(self.calls) > 12:
            self.calls.pop(int(self.rng.integers(len(self.calls))))

    def repeat(self):
        """An old call again, with an equal temperature array (another object, or one recycled)."""
        if not self.calls:
            return None
        f, T, x, what, n, items = gen.pick(self.rng, self.calls)
        if items is not None and len(items) != n:
            return None         # contributions were added since
        same = [t for t in self.Ts if t.shape == T.shape and t.dtype == T.dtype]
        if same and self.rng.random() < 0.5:
            t = gen.pick(self.rng, same)
            t[...] = T
            self.rewatch(t)
        else:
            t = T.copy()
        y = f(t)
        self.ctx.check(y.shape == x.shape, '%s again has shape %s instead of %s' % (what, y.shape, x.shape))
        a, b = ref.ld(x), ref.ld(y)
        with np.errstate(invalid='ignore'):
            ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-12 * np.maximum(np.abs(a), 1e-290))
        self.ctx.check(ok.all(), '%s again gives %r instead of %r' % (what, float(b[~ok][0]) if (~ok).any() else 0, float(a[~ok][0]) if (~ok).any() else 0))
        self.ctx.count('repeated_calls')
        return 'repeat ' + what

    def primitives(self):
        rng = self.rng
        T = gen.pick(rng, self.Ts)
        E = rng.normal(size=4)
        E[0] = 0.
        F = rng.uniform(0, 9, (3, 5))
        F[rng.random((3, 5)) < 0.2] = 0.
        keep = E.copy(), F.copy(), T.copy()
        self.check_utilities(E, F, T)
        op.compare_numpy_dictionaries({'a': E, 'b': F}, {'a': E + 1, 'b': F})
        self.ctx.check(all((a == b).all() for a, b in zip((E, F, T), keep)), 'an argument of a utility function was modified')
        return 'utilities'

    def check_utilities(self, E, F, T):
        """The helpers on which the contributions are built; their results belong to the caller."""
        ctx, Tp = self.ctx, np.asarray(T, float)
        pos = Tp > 0
        beta, expo, mean = op.calc_beta(T), op.calc_exponent(E, T), op.calc_geometric_mean(F)
        for x, shape, what in ((beta, T.shape, 'calc_beta'), (expo, (E.size, T.size), 'calc_exponent'), (mean, (F.shape[0],), 'calc_geometric_mean')):
            ctx.check(np.shape(x) == shape, '%s has shape %s' % (what, np.shape(x)))
            self.keep(x, what)
        if pos.any():
            b = ref.beta(Tp[pos])
            oracle.close(ctx, beta[pos], b, 1e-9, 0, 'calc_beta')
            oracle.close(ctx, expo[:, pos], ref.ld(E)[:, None] * b[None, :], 1e-9, 0, 'calc_exponent')
            self.remember(op.calc_beta, T, beta, 'calc_beta')
        with np.errstate(divide='ignore'):
            g = np.exp(np.log(ref.ld(F)).mean(axis=1))
        oracle.close(ctx, mean, g, 1e-9, 1e-300, 'calc_geometric_mean')


def program(ctx, rng, length=None):
    w = World(ctx, rng)
    ops = [w.calc_sa] * 8 + [w.calc_pf] * 4 + [w.add] * 5 + [w.repeat] * 5 + [w.mutate_temperature] * 3 + \
        [w.mutate_result] * 2 + [w.new_pf] * 3 + [w.new_sa, w.new_temperature, w.failing, w.primitives]
    ctx.note['history'] = w.trace
    n = length or int(rng.integers(20, 60))
    for _ in range(n):
        what = gen.pick(rng, ops)()
        if what is None:
            continue
        w.trace.append(what)
        ctx.note['history'] = w.trace[-24:]
        ctx.count('operations')
        w.audit()
        if len(w.watched) > 60:
            w.watched = [x for x in w.watched if not x[2].startswith('result')] + \
                [x for x in w.watched if x[2].startswith('result')][-20:]
    ctx.sample({'history': w.trace[:40]})
    ctx.count('histories')
    return digest(w.trace, *[x[0] for x in w.watched])


def isolation(ctx, rng):
    """Many superpositions alive at once, filled in interleaved order."""
    N = int(rng.integers(2, 6))
    land = gen.landscape(rng, 'scqr', max_n=1)
    land = land.replace(E=rng.random(N), g=gen.spins(rng, N), freq=rng.uniform(1, 20, (N, 3)), moments=rng.uniform(1, 99, (N, 3)), sigma=gen.orders(rng, N))
    land.N = N
    k = int(rng.integers(3, 9))
    sas = [op.SuperpositionApproximation() for _ in range(k)]
    plan = [[] for _ in range(k)]
    parts = dict(zip('escqr', land.parts('escqr')))
    T = rng.uniform(30, 900, int(rng.integers(1, 6)))
    ctx.note.update(land.describe(), T=T, plan=plan)
    for _ in range(int(rng.integers(k, 5 * k))):
        i = int(rng.integers(k))
        kind = gen.pick(rng, 'escqr')
        sas[i].add_partition_functions(parts[kind] if rng.random() < 0.5 else [parts[kind]])
        plan[i].append(kind)
        if rng.random() < 0.5:
            i = int(rng.integers(k))
            x = sas[i].calc_probability(T)
            if not plan[i]:
                ctx.check(x is None, 'a superposition nothing was added to has probabilities')
            else:
                m = [ref.Model(land, q).logw(T) for q in plan[i]]
                oracle.same_logP(ctx, oracle.as_table(ctx, x, N, T.size, 'calc_probability'), ref.normalize(sum(m)), sum(np.abs(t).max(axis=0) for t in m), 'calc_probability')
    ctx.count('isolated_superpositions', k)
    return digest(plan, T, land.E)


class KeptPF(op.PartitionFunction):
    """A contribution of the user that answers with arrays it keeps."""

    def __init__(self, rng, N, M):
        self.t = {n: rng.uniform(0.5, 3., (N, M)) for n in ('f', 'w', 'v')}
        self.bytes = {n: v.tobytes() for n, v in self.t.items()}

    def calc_part_func(self, temperature):
        return self.t['f']

    def calc_part_func_w(self, temperature):
        return self.t['w']

    def calc_part_func_v(self, temperature):
        return self.t['v']


def kept(ctx, rng):
    """Contributions of the user that keep their tables, mixed with the built-in ones."""
    land = gen.landscape(rng, max_n=6)
    T = rng.uniform(50, 900, int(rng.integers(1, 6)))
    own = [KeptPF(rng, land.N, T.size) for _ in range(int(rng.integers(1, 4)))]
    parts = own + list(land.parts())
    sa = op.SuperpositionApproximation()
    for k in rng.permutation(len(parts)):
        sa.add_partition_functions(parts[k])
    obs = rng.normal(size=(land.N, T.size))
    calls = [lambda: sa.calc_probability(T), lambda: sa.calc_heat_capacity(T), lambda: sa.calc_partition_functions(T), lambda: sa.calc_ensemble_average(T, obs),
             lambda: sa.combine_contributions(T, np.sum, 'calc_part_func_w'), lambda: sa.combine_contributions(T, np.prod, 'calc_part_func')]
    first, trace = {}, []
    ctx.note.update(land.describe(), T=T, calls=trace)
    for _ in range(int(rng.integers(4, 12))):
        k = int(rng.integers(len(calls)))
        trace.append(k)
        x = np.asarray(calls[k]())
        if k in first:
            ctx.check(x.shape == first[k].shape and np.allclose(x, first[k], rtol=1e-12, atol=0, equal_nan=True), 'the same call gives other values after %s' % trace)
            ctx.events['oracle_decisions'] += 1
        first.setdefault(k, x.copy())
        ctx.check(all(v.tobytes() == p.bytes[n] for p in own for n, v in p.t.items()), 'an array kept by a contribution was modified')
        if rng.random() < 0.3 and x.flags.writeable and not any(np.shares_memory(x, v) for p in own for v in p.t.values()):
            x[...] = 0
    m = sum(ref.Model(land, q).logw(T) for q in land.kinds) + sum(np.log(ref.ld(p.t['f'])) for p in own)
    oracle.same_logP(ctx, oracle.as_table(ctx, sa.calc_probability(T), land.N, T.size, 'calc_probability'), ref.normalize(m), np.abs(m).max(axis=0), 'calc_probability')
    return digest(trace, land.E, T)


STREAMS = [Stream('program', program, 1350, 9000), Stream('kept', kept, 200, 2000), Stream('isolation', isolation, 750, 5000)]
