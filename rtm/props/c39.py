"""C39: memory and work grow in proportion to the problem."""
import os
import sys
import time
import tracemalloc

import numpy as np

import occuprob as op
from occuprob import io as oio
from occuprob import utils
from rtm import clirun, core, gen, xyz
from rtm.core import Stream, digest

RULE = ('Every calculation, comparison, loading and command line run on pairs of problems, one of which has four times as many minima, modes, temperatures, contributions, arrays or isomers; monitors: peak of the memory allocated (tracemalloc), '
        'function calls (of Python and C, sys.setprofile) and lines of the library executed, processor time for the larger ones (sixteen times). The larger one may need at most 1.5 times more than in proportion '
        '(time: 5 times, thrice in a row). Distinct by hash of sizes, kind and inputs.')

FACTOR, SLACK = 4, 1.5


class Work:
    """Counts calls (all) and lines (of the library) while a function runs."""

    def __init__(self):
        self.root = os.path.join(os.path.realpath(core.REPO), 'occuprob') + os.sep
        self.calls = self.lines = 0

    def _profile(self, frame, event, arg):
        if event in ('call', 'c_call'):
            self.calls += 1

    def _local(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
        return self._local

    def _trace(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(self.root) else None

    def __call__(self, f):
        sys.setprofile(self._profile)
        sys.settrace(self._trace)
        try:
            f()
        finally:
            sys.settrace(None)
            sys.setprofile(None)
        return {'function calls': self.calls, 'lines executed': self.lines}


def peak(f):
    tracemalloc.start()
    try:
        f()
        tracemalloc.reset_peak()
        before = tracemalloc.get_traced_memory()[0]
        x = f()
        return max(0, tracemalloc.get_traced_memory()[1] - before), x
    finally:
        tracemalloc.stop()


def compare(ctx, small, large, what, base, factor=FACTOR, spare=200e3):
    """base: bytes that the smaller problem may take at least (its own inputs and results)."""
    a, b = peak(small)[0], peak(large)[0]
    ctx.note['memory'] = [a, b]
    ctx.check(b <= factor * SLACK * max(a, base) + spare, '%s: %d bytes of memory instead of %d for a problem %d times as large' % (what, b, a, factor))
    x, y = Work()(small), Work()(large)
    ctx.note['work'] = [x, y]
    for k in x:
        ctx.check(y[k] <= factor * SLACK * x[k] + 300, '%s: %d %s instead of %d for a problem %d times as large' % (what, y[k], k, x[k], factor))
    ctx.count('pairs_measured')
    ctx.count('bytes_of_memory_seen', b)
    ctx.count('function_calls_seen', y['function calls'])


def system(rng, kinds, N, D, K=1):
    E = np.cumsum(rng.exponential(0.01, N))
    f, m = rng.uniform(0.5, 30, (N, D)), rng.uniform(1, 900, (N, 3))
    land = gen.Landscape(kinds, rng.permutation(E), gen.spins(rng, N), f, m, gen.orders(rng, N))
    sa = op.SuperpositionApproximation()
    for _ in range(K):
        sa.add_partition_functions(land.parts())
    return land, sa


CALLS = ['calc_probability', 'calc_heat_capacity', 'calc_partition_functions', 'calc_ensemble_average', 'contributions', 'construction', 'primitives']


def problem(rng, kinds, name, N, D, M, K=1):
    land, sa = system(rng, kinds, N, D, K)
    T = rng.uniform(20, 900, M)
    B = rng.normal(size=(N, M))
    if name == 'calc_ensemble_average':
        return lambda: sa.calc_ensemble_average(T, B)
    if name == 'contributions':
        return lambda: [(p.calc_part_func(T), p.calc_part_func_w(T), p.calc_part_func_v(T)) for p in sa.partition_functions]
    if name == 'construction':
        return lambda: [land.build() for _ in range(K)]
    if name == 'primitives':
        return lambda: (utils.calc_beta(T), utils.calc_exponent(land.E, T), utils.calc_geometric_mean(land.freq))
    return lambda: getattr(sa, name)(T)


def calculations(ctx, rng):
    kinds, name = gen.pick(rng, gen.CONTRIBUTION_SETS), gen.pick(rng, CALLS)
    size = {'N': int(rng.integers(2, 5)), 'D': int(rng.integers(2, 5)), 'M': int(rng.integers(2, 5)), 'K': 1}
    what = gen.pick(rng, 'NNDMMK')
    size[what] = int(rng.integers(400, 900)) if what != 'K' else int(rng.integers(8, 20))
    if rng.random() < 0.3 and what != 'K':
        other = gen.pick(rng, [k for k in 'NDM' if k != what])
        size[what], size[other] = int(rng.integers(60, 200)), int(rng.integers(20, 60))
    more = dict(size)
    more[what] *= FACTOR
    ctx.note.update(kinds=kinds, call=name, sizes=size, grows=what)
    a, b = problem(rng, kinds, name, **size), problem(rng, kinds, name, **more)
    base = 16 * size['K'] * len(kinds) * size['N'] * (size['M'] + size['D'])
    compare(ctx, a, b, '%s (%s; %s)' % (name, kinds, {'N': 'minima', 'D': 'modes', 'M': 'temperatures', 'K': 'contributions'}[what]), base)
    ctx.sample({'call': name, 'kinds': kinds, 'sizes': size, 'grows': what})
    return digest(kinds, name, sorted(size.items()), what)


def grown(ctx, rng):
    """Many calls on one object, many additions: each one costs the same."""
    kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
    land, _ = system(rng, kinds, int(rng.integers(2, 9)), 5)
    T = rng.uniform(20, 900, int(rng.integers(1, 30)))
    n = int(rng.integers(10, 25))

    def adding(k):
        def f():
            sa = op.SuperpositionApproximation()
            for _ in range(k):
                sa.add_partition_functions(land.one(kinds[0]))
            return sa.calc_probability(T)
        return f

    def calling(k):
        def f():
            sa = land.build()
            for _ in range(k):
                for name in chosen:
                    sa.calc_ensemble_average(T, B) if name == 'calc_ensemble_average' else getattr(sa, name)(T)
        return f
    B = rng.normal(size=(land.N, T.size))
    chosen = [name for name in CALLS[:4] if rng.random() < 0.6] or CALLS[:1]
    which = gen.pick(rng, [adding, calling])
    ctx.note.update(kinds=kinds, n=n, what=which.__name__)
    compare(ctx, which(n), which(n * FACTOR), '%d times %s' % (n, which.__name__), 0)
    return digest(kinds, n, which.__name__, T)


def comparison(ctx, rng):
    K, size = (int(rng.integers(10, 40)), int(rng.integers(1, 30))) if rng.random() < 0.5 else (2, int(rng.integers(3000, 9000)))
    many = K > 2

    def pair(k, n):
        a = {'key %d' % i: rng.normal(size=(n, 3)) for i in range(k)}
        return a, {i: a[i].copy() for i in list(a)[::-1]}
    a, b = pair(K, size), pair(K * FACTOR if many else K, size if many else size * FACTOR)
    compare(ctx, lambda: utils.compare_numpy_dictionaries(*a), lambda: utils.compare_numpy_dictionaries(*b), 'comparison of dictionaries', 0)
    return digest(K, size, many)


def loading(ctx, rng):
    """Files with more isomers (equal but for their position), more modes."""
    d = ctx.tmpdir()
    iso = xyz.random_isomers(rng, N=1, D=int(rng.integers(3, 8)), natoms=int(rng.integers(2, 5)), special=False)
    n = int(rng.integers(3, 7))
    paths = []
    for k in (n, n * FACTOR):
        paths.append(os.path.join(d, 'in%d.xyz' % k))
        xyz.write(paths[-1], np.random.default_rng(1), iso * k, plain=True)
    ctx.note.update(isomers=n)
    compare(ctx, lambda: oio.load_properties_from_extxyz(paths[0]), lambda: oio.load_properties_from_extxyz(paths[1]), 'loading isomers', 0, spare=400e3)
    return digest(n, open(paths[0]).read())


def command(ctx, rng):
    """Tables with more temperatures."""
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    xyz.write(path, rng, xyz.random_isomers(rng, N=2, D=3, natoms=2, special=False), plain=True)
    base = clirun.flags(rng, gen.pick(rng, gen.CONTRIBUTION_SETS)) + [path]
    M = int(rng.integers(400, 900))

    def run(m):
        def f():
            r = clirun.run(ctx, base + ['--max_temp', str(m)], d)
            if r.status:
                ctx.fail('a valid request failed: %s' % (r.raised or r.err[-200:]))
        return f
    compare(ctx, run(M), run(M * FACTOR), 'the command line (temperatures)', 0, spare=600e3)
    return digest(base[:-1], M, open(path).read())


def long_tables(ctx, rng):
    """Processor time of runs with many temperatures (lists copied as they grow show in no count of calls)."""
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    xyz.write(path, rng, xyz.random_isomers(rng, N=int(rng.integers(1, 4)), D=3, natoms=2, special=False), plain=True)
    base = clirun.flags(rng, gen.pick(rng, gen.CONTRIBUTION_SETS)) + [path]
    M = int(rng.integers(1800, 2200))

    def timed(m, n):
        best = np.inf
        for _ in range(n):
            t = time.thread_time()
            r = clirun.run(ctx, base + ['--max_temp', str(m)], d)
            best = min(best, time.thread_time() - t)
            ctx.check(r.status == 0, 'a valid request failed: %s' % (r.raised or r.err[-200:]))
        return best
    timed(5, 1)
    for attempt in range(3):
        x, y = timed(M, 3), timed(16 * M, 1)
        ctx.note['seconds'] = [x, y]
        if y <= 50 * x or y < 0.4:
            break
    else:
        ctx.fail('the command line: %.3g s of processor time instead of %.3g s for 16 times as many temperatures' % (y, x))
    ctx.events['oracle_decisions'] += 1
    ctx.count('pairs_timed')
    ctx.sample({'temperatures': M, 'seconds': [x, y]})
    return digest(base[:-1], M)


def clock(ctx, rng):
    kinds, name = gen.pick(rng, gen.CONTRIBUTION_SETS), gen.pick(rng, CALLS[:5])
    size = {'N': 2, 'D': 2, 'M': 2}
    what = gen.pick(rng, 'NDM')
    size[what] = int(rng.integers(1500, 2500))
    more = dict(size)
    more[what] *= 16
    ctx.note.update(kinds=kinds, call=name, sizes=size, grows=what)
    a, b = problem(rng, kinds, name, **size), problem(rng, kinds, name, **more)

    def measure(f, n):
        best = np.inf
        for _ in range(n):
            t = time.thread_time()
            f()
            best = min(best, time.thread_time() - t)
        return best
    for attempt in range(3):
        x, y = measure(a, 5), measure(b, 2)
        if y <= 80 * x or y < 0.3:
            break
    else:
        ctx.fail('%s (%s): %.3g s of processor time instead of %.3g s for a problem 16 times as large' % (name, kinds, y, x))
    ctx.events['oracle_decisions'] += 1
    ctx.count('pairs_timed')
    return digest(kinds, name, sorted(size.items()))


STREAMS = [Stream('calculations', calculations, 150, 4000), Stream('grown', grown, 30, 600), Stream('comparison', comparison, 20, 400), Stream('loading', loading, 6, 100), Stream('command', command, 4, 80), Stream('clock', clock, 12, 200), Stream('long_tables', long_tables, 3, 25)]
