"""C34: repeated use accumulates nothing."""
import contextlib
import gc
import io
import os
import threading
import tracemalloc
import warnings
import weakref

import numpy as np

import occuprob as op
from occuprob import io as oio
from occuprob import utils
from rtm import clirun, gen, xyz
from rtm.core import Stream, digest

RULE = ('Long series of calls: new superpositions each time, one superposition at new or equal temperatures, primitives, comparisons, failing calls, loading of files and command line runs in one process. '
        'Blocks of calls are repeated until a block leaves nothing behind; memory (tracemalloc, of everything allocated), live objects, open files, threads and temporary files are read after a collection at '
        'the end of every block. A breach is growth in every one of the blocks (16 of 100-200 calls: bounded caches fill up before). Weak references watch discarded superpositions and results. Distinct by hash of inputs.')

BLOCKS = 16


def census():
    gc.collect()
    return {'bytes of memory': tracemalloc.get_traced_memory()[0], 'objects': len(gc.get_objects()), 'open files': len(os.listdir('/proc/self/fd')),
            'threads': threading.active_count()}


def series(ctx, call, per_block, what, allowance=4., mode='default'):
    """Repeats blocks of calls until one accumulates (next to) nothing."""
    base = 2500 + allowance * per_block        # bytes: noise of the interpreter
    limits = {'bytes of memory': base, 'objects': 0.25 * per_block + 30, 'open files': 0.05 * per_block, 'threads': 0.05 * per_block + 1}
    tracemalloc.start()
    caught = warnings.catch_warnings()
    caught.__enter__()
    warnings.simplefilter(mode)     # what has been said once is remembered
    warnings.showwarning = lambda *args, **kw: None
    try:
        growing = set(limits)
        k, last, history = 0, None, []
        for block in range(BLOCKS + 1):
            for _ in range(per_block):
                call(k)
                k += 1
            now = census()
            if last is not None:
                diff = {n: now[n] - last[n] for n in limits}
                history.append(diff)
                growing = {n for n in growing if diff[n] > limits[n]}
                if not growing:
                    break
            last = now
    finally:
        caught.__exit__(None, None, None)
        tracemalloc.stop()
    ctx.count('calls_in_series', k)
    ctx.count('blocks', len(history))
    ctx.note['growth per block of %d calls' % per_block] = history
    if growing:
        n = sorted(growing)[0]
        ctx.fail('%s: after %d calls every further block of %d leaves more %s behind (%s in the last one)' % (what, k, per_block, n, history[-1][n]))
    ctx.events['oracle_decisions'] += len(limits)
    return k


def inputs(rng):
    land = gen.landscape(rng, max_n=8, max_d=6)
    return land, int(rng.integers(20, 300))


def fresh(ctx, rng):
    """New arrays, contributions and superpositions every time."""
    land, M = inputs(rng)
    E, f, m = np.array(land.E, float), np.array(land.freq, float), np.array(land.moments, float)

    first, step = gen.pick(rng, [0., 0.1, 1.]), gen.pick(rng, [1e-2, 1e-4])

    def call(k):
        other = land.replace(E=E + 1e-3 * k, freq=f * (1 + 1e-4 * k), moments=m * (1 + 1e-4 * k))
        T = np.arange(M) + first + step * k
        sa = other.build()
        sa.calc_heat_capacity(T)
        sa.calc_partition_functions(T)
        sa.calc_ensemble_average(T, np.full((land.N, M), float(k)))
        if k % 3 == 0:
            sa.add_partition_functions(other.one('e'))
            sa.calc_probability(T)
    series(ctx, call, 120, 'new superpositions')
    return digest(land.kinds, *land.arrays().values(), M)


def same(ctx, rng):
    """One superposition used over and over, at new or at the same temperatures."""
    land, M = inputs(rng)
    sa = land.build()
    mode = gen.pick(rng, ['new', 'equal', 'same'])
    fixed, step = np.arange(M) + gen.pick(rng, [0., 0.1, 1.]), gen.pick(rng, [1e-2, 1e-4])
    obs = rng.normal(size=(land.N, M))

    def call(k):
        T = fixed if mode == 'same' else fixed.copy() if mode == 'equal' else fixed + step * k
        sa.calc_probability(T)
        sa.calc_heat_capacity(T)
        sa.calc_ensemble_average(T, obs)
        sa.calc_partition_functions(T)
        for pf in sa.partition_functions:
            pf.calc_part_func_w(T)
    series(ctx, call, 120, 'one superposition at %s temperatures' % mode)
    return digest(land.kinds, *land.arrays().values(), M, mode)


def primitives(ctx, rng):
    M, N = int(rng.integers(20, 300)), int(rng.integers(2, 20))
    base = rng.uniform(0.1, 2, (N, 5))
    order, step = int(rng.integers(3)), gen.pick(rng, [1e-2, 1e-4])

    def call(k):
        T = np.arange(M) + step * k
        utils.calc_beta(T)
        utils.calc_exponent(base[:, 0] + k, T)
        utils.calc_geometric_mean(base + k)
        a = {'x%d' % k: base + k, 'y': base}
        utils.compare_numpy_dictionaries(a, {'y': base.copy(), 'x%d' % k: base + k + (k % 3 == order)})
    series(ctx, call, 200, 'primitives')
    return digest(base, M, order)


def failing(ctx, rng):
    """Calls that give no result."""
    land, M = inputs(rng)
    one = land.one('e')
    other = op.RotationalPF(np.ones(land.N + 1), np.ones((land.N + 1, 3)))

    def call(k):
        T = np.arange(M) + 0.01 * k
        with contextlib.redirect_stdout(io.StringIO()):
            sa = op.SuperpositionApproximation()
            sa.calc_probability(T)
            sa.calc_heat_capacity(T)
            sa.add_partition_functions([one, other])
            for name in ('calc_probability', 'calc_partition_functions', 'calc_heat_capacity'):
                try:
                    getattr(sa, name)(T)
                except Exception:       # noqa: BLE001
                    pass
            try:
                oio.load_properties_from_extxyz('/nonexistent/%d.xyz' % k)
            except OSError:
                pass
    series(ctx, call, 100, 'failing calls')
    return digest(land.kinds, *land.arrays().values(), M)


def loading(ctx, rng):
    d = ctx.tmpdir()
    paths = []
    for k in range(4):
        paths.append(os.path.join(d, 'in%d.xyz' % k))
        xyz.write(paths[-1], rng, xyz.random_isomers(rng, N=int(rng.integers(1, 3)), D=int(rng.integers(2, 6)), natoms=int(rng.integers(2, 4)), special=False), plain=True)
    texts = [open(p).read() for p in paths]
    before = sorted(os.listdir(ctx.scratch)), sorted(os.listdir(d))
    new = os.path.join(d, 'new.xyz')

    def call(k):
        oio.load_properties_from_extxyz(paths[k % 4])
        with open(new, 'w') as f:       # another content every time
            f.write(texts[k % 4].replace('Energy=', 'Run=%d Energy=' % k))
        oio.load_properties_from_extxyz(new)
        os.remove(new)
    series(ctx, call, 20, 'loading', allowance=200.)
    ctx.check((sorted(os.listdir(ctx.scratch)), sorted(os.listdir(d))) == before, 'loading left files behind')
    return digest(*texts)


def command(ctx, rng):
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    xyz.write(path, rng, xyz.random_isomers(rng, N=2, D=3, natoms=2, special=False), plain=True)
    base = clirun.flags(rng, gen.pick(rng, gen.CONTRIBUTION_SETS)) + [path]

    def call(k):
        r = clirun.run(ctx, base + ['--max_temp', str(20 + k % 7)], d)
        if r.status:
            ctx.fail('a valid request failed: %s' % (r.raised or r.err[-200:]))
    series(ctx, call, 20, 'command line runs', allowance=300.)
    return digest(base[:-1], open(path).read())


def discarded(ctx, rng):
    """Nothing keeps a discarded superposition, contribution or result alive, once other calls have been made."""
    land, M = inputs(rng)
    T = np.arange(M) + 1.
    refs = []
    for k in range(40):
        sa = land.replace(E=np.array(land.E, float) + k).build()
        P = sa.calc_probability(T)
        C = sa.calc_heat_capacity(T)
        refs.append([weakref.ref(x) if type(x).__weakrefoffset__ else lambda: None for x in (sa, P, C, sa.partition_functions[0])])
        del sa, P, C
    # enough calls to expel what a bounded cache may hold
    for k in range(1200):
        land.replace(E=np.array(land.E, float) - k).build().calc_heat_capacity(T[:1 + k % M])
    gc.collect()
    alive = [[r() is not None for r in row] for row in refs]
    names = ['superpositions', 'probabilities', 'heat capacities', 'contributions']
    for j, n in enumerate(names):
        ctx.check(sum(row[j] for row in alive) < len(alive) - 1, 'discarded %s are kept for ever' % n)
    ctx.count('weak_references_watched', 4 * len(refs))
    return digest(land.kinds, *land.arrays().values(), M)


STREAMS = [Stream('fresh', fresh, 5, 60), Stream('same', same, 9, 90), Stream('primitives', primitives, 4, 30), Stream('failing', failing, 3, 20),
           Stream('loading', loading, 3, 12), Stream('command', command, 2, 8), Stream('discarded', discarded, 2, 20)]
