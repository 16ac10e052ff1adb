"""C17: concurrent calculations give the sequential results."""
import sys
import time

import numpy as np

import occuprob as op
from rtm import gen, oracle, ref, sched, taps
from rtm.core import Stream, digest, from_target

RULE = ('2-8 threads calculating on shared and separate superpositions and contributions, with arrays of equal and different shapes. (a) scheduled: a baton scheduler decides at every line of '
        'the library which thread runs (random walks, PCT-style priorities, storms), replayable; (b) free: real preemption every 10 us plus yields injected at the entry and exit of '
        'every contribution method. Every result compared with the one obtained sequentially from separate objects and with the reference model. '
        'Distinct by the hash of the interleaving observed (sequence of switch points, or of entries and exits) and inputs.')


class Case:
    def __init__(self, ctx, rng, nthreads, ncalls, same=False):
        """same: every thread makes the same calls, on shared objects that were never used before."""
        N, D = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        self.ctx = ctx
        self.lands = []
        for _ in range(2):
            land = gen.landscape(rng, gen.pick(rng, ['eqr', 'scr', 'sq', 'sqr', 'ecr', 'qr', 'cr', 's', 'q']), max_n=1)
            land = land.replace(E=rng.exponential(0.05, N), g=gen.spins(rng, N), freq=rng.uniform(0.5, 30, (N, D)),
                                moments=rng.uniform(2, 700, (N, 3)), sigma=gen.orders(rng, N))
            land.N = N
            self.lands.append(land)
        shared = [land.build() for land in self.lands]
        shared_parts = [land.parts() for land in self.lands]
        M = int(rng.integers(1, 6))
        self.plan, self.expected = [], []
        for tid in range(nthreads):
            if same and tid:
                self.plan.append([(o, m, a if rng.random() < 0.5 else tuple(x.copy() for x in a)) for o, m, a in self.plan[0]])
                self.expected.append(self.expected[0])
                continue
            row, exp = [], []
            for _ in range(ncalls):
                i = int(rng.integers(2))
                land = self.lands[i]
                m = M if rng.random() < 0.8 else int(rng.integers(1, 9))
                T = rng.uniform(20, 900, m)
                if rng.random() < 0.2:
                    T[int(rng.integers(m))] = 0.
                what = gen.pick(rng, ['calc_probability', 'calc_probability', 'calc_heat_capacity', 'calc_heat_capacity',
                                      'calc_ensemble_average', 'calc_partition_functions', 'part'])
                B = rng.normal(size=(N, m))
                own = rng.random() < 0.25 and not same
                k = int(rng.integers(len(land.kinds)))
                meth = gen.pick(rng, ['calc_part_func', 'calc_part_func_w', 'calc_part_func_v'])
                if same and rng.random() < 0.4:
                    what = 'part'
                if what == 'part':
                    pf = land.parts()[k] if own else shared_parts[i][k]
                    row.append((pf, meth, (T,)))
                    exp.append((land.parts()[k], meth, (T.copy(),)))
                else:
                    sa = land.build() if own else shared[i]
                    args = (T, B) if what == 'calc_ensemble_average' else (T,)
                    row.append((sa, what, args))
                    exp.append((land.build(), what, tuple(a.copy() for a in args)))
                exp[-1] = (exp[-1], land)
            self.plan.append(row)
            self.expected.append(exp)
        self.sequential = [[getattr(o, m)(*a) for (o, m, a), _ in exp] for exp in self.expected]
        ctx.note.update(threads=nthreads, calls=[[c[1] for c in row] for row in self.plan], lands=[x.describe() for x in self.lands])

    def jobs(self):
        return [lambda row=row: [getattr(o, m)(*a) for o, m, a in row] for row in self.plan]

    def judge(self, results):
        ctx = self.ctx
        for tid, (status, got) in enumerate(results):
            if status == 'error':
                if not from_target(got.__traceback__):
                    raise got
                ctx.fail('thread %d raised %s: %s' % (tid, type(got).__name__, got))
            for (o, m, a), x, y, (_, land) in zip(self.plan[tid], got, self.sequential[tid], self.expected[tid]):
                what = '%s in thread %d' % (m, tid)
                ctx.check(x is not None and x.shape == y.shape, '%s: shape %s instead of %s' % (what, getattr(x, 'shape', None), y.shape))
                p, q = ref.ld(x), ref.ld(y)
                with np.errstate(invalid='ignore'):
                    ok = (p == q) | (np.isnan(p) & np.isnan(q)) | (np.abs(p - q) <= 1e-11 * np.maximum(np.abs(q), 1e-290))
                if m in ('calc_heat_capacity', 'calc_ensemble_average'):
                    with np.errstate(invalid='ignore'):
                        ok = ok | (np.abs(p - q) <= 1e-9)
                if not ok.all():
                    ctx.fail('%s gives %r instead of %r when run alone' % (what, float(p[~ok][0]), float(q[~ok][0])))
                ctx.events['oracle_decisions'] += 1
                ctx.count('results_compared')
                if m == 'calc_probability':
                    T = a[0]
                    pos = T > 0
                    model = ref.Model(land)
                    if pos.any():
                        oracle.same_logP(ctx, x[:, pos], model.logP(T[pos]), model.amplitude(T[pos]), what)


def scheduled(ctx, rng):
    n = int(rng.integers(2, 5))
    case = Case(ctx, rng, n, int(rng.integers(1, 4)))
    style = gen.pick(rng, ['random', 'random', 'storm', 'rare', 'pct', 'pct'])
    baton = sched.Baton(rng, n, style)
    results = sched.run(case.jobs(), baton)
    ctx.note['schedule'] = [style, baton.points, baton.switches[:60]]
    case.judge(results)
    ctx.count('scheduling_points', baton.points)
    ctx.count('switches', len(baton.switches))
    ctx.count('schedules:' + style)
    ctx.count('rescued_from_locks', baton.rescued)
    ctx.sample({'style': style, 'threads': n, 'points': baton.points, 'switches': baton.switches[:12]})
    return digest(baton.switches, *[a for row in case.plan for _, _, args in row for a in args]) if baton.switches else None


def first_use(ctx, rng):
    """All threads make the same first call on the same new objects."""
    n = int(rng.integers(2, 4))
    case = Case(ctx, rng, n, int(rng.integers(1, 3)), same=True)
    style = gen.pick(rng, ['random', 'random', 'storm', 'storm', 'pct'])
    baton = sched.Baton(rng, n, style)
    results = sched.run(case.jobs(), baton)
    ctx.note['schedule'] = [style, baton.points, baton.switches[:60]]
    case.judge(results)
    ctx.count('scheduling_points', baton.points)
    ctx.count('first_use_switches', len(baton.switches))
    return digest(baton.switches, *[a for row in case.plan for _, _, args in row for a in args]) if baton.switches else None


def free(ctx, rng):
    n = int(rng.integers(4, 9))
    case = Case(ctx, rng, n, int(rng.integers(4, 12)))
    log, pause = [], rng.random(64)

    def yielding(tag):
        def hook(args, kwargs, *result):
            log.append(tag)
            p = pause[len(log) % 64]
            if p < 0.3:
                time.sleep(0)
            elif p < 0.34:
                time.sleep(1e-4)
        return hook
    import threading
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with taps.Taps() as t:
            for cls in (op.ElectronicPF, op.ClassicalHarmonicPF, op.QuantumHarmonicPF, op.RotationalPF):
                for m in ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v', 'calc_log_part_func'):
                    if hasattr(cls, m):
                        tag = cls.__name__[0] + m[-1]
                        t.wrap(cls, m, before=lambda a, k, y=yielding(tag), g=tag: (log.append((threading.get_ident() % 997, g)), y(a, k)),
                               after=lambda a, k, r, y=yielding(tag): y(a, k))
            results = sched.run(case.jobs())
    finally:
        sys.setswitchinterval(old)
    case.judge(results)
    order = [e for e in log if isinstance(e, tuple)]
    ids = {}
    seq = [(ids.setdefault(i, len(ids)), g) for i, g in order]
    ctx.count('method_entries', len(seq))
    ctx.count('thread_changes', sum(a[0] != b[0] for a, b in zip(seq, seq[1:])))
    return digest(seq)


def finish(ctx):
    from rtm.core import Inconclusive
    if ctx.events['switches'] < ctx.ran['scheduled'] // 2 or ctx.events['thread_changes'] < ctx.ran['free'] // 2:
        raise Inconclusive('too few interleavings: %s' % dict(ctx.events))


STREAMS = [Stream('scheduled', scheduled, 500, 6000), Stream('free', free, 160, 2000),
           Stream('first_use', first_use, 700, 8000)]
