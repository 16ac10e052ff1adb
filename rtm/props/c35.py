"""C35: copies and worker processes behave as the original."""
import copy
import multiprocessing
import os
import pickle
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor

import numpy as np

import occuprob as op
from rtm import core, gen
from rtm.core import Stream, digest

RULE = ('Superpositions and contributions of every kind, before or after calculations, copied deeply, pickled with every protocol (singly, several in one container, repeatedly) and restored here, in forked and in '
        'new processes; then the copy or the original is extended. Results of copies against those of the original and of an equal one built anew; the original must stay as it was. Distinct by hash of inputs and way of copying.')


class Shift(op.partitionfunctions.PartitionFunction):
    """A contribution of the user's: ln Z = w of each minimum."""

    def __init__(self, w):
        self.w = np.asarray(w, float)

    def calc_part_func(self, temperature):
        return np.exp(self.w)[:, None] * np.ones(temperature.size)

    def calc_part_func_w(self, temperature):
        return np.zeros((self.w.size, temperature.size))

    calc_part_func_v = calc_part_func_w


def results(sa, T, obs):
    return [sa.calc_probability(T), sa.calc_heat_capacity(T), sa.calc_partition_functions(T), sa.calc_ensemble_average(T, obs)]


def parts_results(pf, T):
    return [pf.calc_part_func(T), pf.calc_part_func_w(T), pf.calc_part_func_v(T)]


NAMES = ['calc_probability', 'calc_heat_capacity', 'calc_partition_functions', 'calc_ensemble_average']


def same(ctx, got, expected, what, names=NAMES):
    for n, a, b in zip(names, got, expected):
        if b is None or a is None:
            ctx.check(a is None and b is None, '%s: %s gives %r, the original %r' % (what, n, a, b))
            continue
        a, b = np.asarray(a), np.asarray(b)
        ctx.check(a.shape == b.shape and np.allclose(a.astype(float), b.astype(float), rtol=1e-11, atol=1e-300, equal_nan=True),
                  '%s: %s differs from that of the original' % (what, n), got=a, expected=b)


def duplicate(ctx, rng, x):
    """(copy, way)."""
    way = gen.pick(rng, ['deepcopy', 'pickle', 'pickle', 'twice', 'container', 'copied pickle'])
    protocol = int(rng.integers(pickle.HIGHEST_PROTOCOL + 1))
    if protocol < 2:        # these do not support slots, which are no breach
        try:
            pickle.dumps(x, protocol)
        except TypeError:
            protocol = 2
    ctx.count('way_' + way.replace(' ', '_'))
    if way == 'deepcopy':
        return copy.deepcopy(x), way
    if way == 'pickle':
        return pickle.loads(pickle.dumps(x, protocol)), 'pickle protocol %d' % protocol
    if way == 'twice':
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x, protocol)), 4)), way
    if way == 'container':
        a = pickle.loads(pickle.dumps({'a': [x, x], 'b': 1}, protocol))
        return a['a'][int(rng.integers(2))], way
    return copy.deepcopy(pickle.loads(pickle.dumps(copy.deepcopy(x), protocol))), way


def system(rng, zero=True):
    land = gen.landscape(rng, max_n=15, max_d=15)
    T, _ = gen.temperatures(rng, zero=zero and 'q' not in land.kinds, max_m=30)
    obs = rng.normal(size=(land.N, T.size))
    return land, T, obs


def copies(ctx, rng):
    land, T, obs = system(rng)
    sa = land.build()
    user = rng.random() < 0.2
    if user:
        sa.add_partition_functions(Shift(rng.normal(size=land.N)))
    used = rng.random() < 0.5
    first = results(sa, T, obs) if used else None
    other, way = duplicate(ctx, rng, sa)
    ctx.note.update(land.describe(), T=T, way=way, used=used)
    extend = gen.pick(rng, ['no', 'copy', 'original', 'both'])
    extra = land.one(gen.pick(rng, 'escr'))
    reference = land.build()
    reference.partition_functions.extend(sa.partition_functions[len(land.kinds):])
    if extend in ('copy', 'both'):
        other.add_partition_functions([extra])
    if extend == 'original':
        sa.add_partition_functions(extra)
    plain = results(reference, T, obs)
    if extend == 'both':        # each in its own way, and used alternately
        third = land.one(gen.pick(rng, 'escr')) if rng.random() < 0.5 else Shift(rng.normal(size=land.N))
        sa.add_partition_functions([third])
        apart = land.build()
        apart.partition_functions.extend(reference.partition_functions[len(land.kinds):] + [third])
        expected = results(apart, T, obs)
        for _ in range(int(rng.integers(1, 3))):
            same(ctx, results(sa, T, obs), expected, 'the original of a copy (%s), both extended' % way)
            results(other, T, obs)
    reference.add_partition_functions(extra)
    more = results(reference, T, obs)
    if first is not None:
        same(ctx, plain, first, 'an equal superposition')
    same(ctx, results(other, T, obs), more if extend in ('copy', 'both') else plain, 'a copy (%s%s)' % (way, ', extended' if extend in ('copy', 'both') else ''))
    same(ctx, results(sa, T, obs), more if extend == 'original' else expected if extend == 'both' else plain, 'the original of a copy (%s)' % way)
    ctx.sample({'kinds': land.kinds, 'way': way, 'extended': extend})
    return digest(land.kinds, *land.arrays().values(), T, way, extend)


class Mixed(op.SuperpositionApproximation):
    """Of a user: the probabilities are mixed with equal ones."""

    def __init__(self, share):
        super().__init__()
        self.share = share

    def calc_probability(self, temperature):
        P = super().calc_probability(temperature)
        return (1 - self.share) * P + self.share / len(P)


class Scaled(op.ClassicalHarmonicPF):
    """Of a user: a number is kept beside the frequencies."""

    def __init__(self, frequencies, factor):
        super().__init__(frequencies)
        self.factor = np.asarray(factor)

    def calc_part_func(self, temperature):
        return self.factor[:, None] * super().calc_part_func(temperature)

    def calc_log_part_func(self, temperature):
        return np.log(self.calc_part_func(temperature))


def derived(ctx, rng):
    """Objects of classes derived by the user."""
    N, D = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    f, w = rng.uniform(0.5, 3., (N, D)), rng.uniform(0.5, 3., N)
    T = rng.uniform(1, 900, int(rng.integers(1, 9)))
    obs = rng.normal(size=(N, T.size))
    land = gen.landscape(rng, 's', max_n=1).replace(E=1e-3 * rng.random(N), g=gen.spins(rng, N))
    sa = Mixed(float(rng.uniform(0.1, 0.9))) if rng.random() < 0.7 else op.SuperpositionApproximation()
    sa.note = 'kept by the user'
    sa.add_partition_functions([Scaled(f, w), op.ElectronicPF(land.E, land.g)])
    expected = results(sa, T, obs)
    ctx.note.update(frequencies=f, factor=w, T=T, E=land.E, g=land.g)
    other, way = duplicate(ctx, rng, sa)
    ctx.check(type(other) is type(sa), 'a copy (%s) of a %s is a %s' % (way, type(sa).__name__, type(other).__name__))
    ctx.check([type(p) for p in other.partition_functions] == [type(p) for p in sa.partition_functions], 'the contributions of a copy (%s) are of other classes' % way)
    ctx.check(getattr(other, 'note', None) == sa.note and getattr(other, 'share', None) == getattr(sa, 'share', None), 'attributes of the user are lost in a copy (%s)' % way)
    same(ctx, results(other, T, obs), expected, 'a copy (%s) of an object of a derived class' % way)
    same(ctx, results(sa, T, obs), expected, 'the original of a copy (%s)' % way)
    return digest(f, w, T, way)


def single(ctx, rng):
    """Contributions on their own, and sets of them that share arrays."""
    land, T, obs = system(rng)
    kind = gen.pick(rng, 'escqr')
    if kind == 'q':
        T = np.where(T > 0, T, 1)
    pf = land.one(kind)
    if rng.random() < 0.5:
        parts_results(pf, T)
    other, way = duplicate(ctx, rng, pf)
    ctx.note.update(land.describe(), T=T, way=way, kind=kind)
    same(ctx, parts_results(other, T), parts_results(land.one(kind), T), 'a copy (%s) of %s' % (way, type(pf).__name__), ['calc_part_func', 'calc_part_func_w', 'calc_part_func_v'])
    ctx.check(type(other) is type(pf), 'a copy of a %s is a %s' % (type(pf).__name__, type(other).__name__))
    # a superposition of copies
    sa = op.SuperpositionApproximation()
    sa.add_partition_functions([duplicate(ctx, rng, p)[0] for p in land.parts()])
    same(ctx, results(sa, T, obs), results(land.build(), T, obs), 'a superposition of copies')
    return digest(kind, *land.arrays().values(), T, way)


def child(args):
    data, T, obs, extra = args
    try:
        sa = pickle.loads(data) if isinstance(data, bytes) else data
        if extra is not None:
            sa.add_partition_functions(extra)
        return results(sa, T, obs)
    except Exception as e:      # noqa: BLE001
        return '%s: %s' % (type(e).__name__, e)


def forked(ctx, rng):
    """A pool of forked workers, given superpositions already in use."""
    tasks, expected, sig = [], [], []
    for _ in range(6):
        land, T, obs = system(rng)
        sa = land.build()
        if rng.random() < 0.5:
            results(sa, T, obs)
        extra = land.one('r') if rng.random() < 0.4 else None
        both = land.build()
        if extra is not None:
            both.add_partition_functions(extra)
        expected.append(results(both, T, obs))
        tasks.append((sa if rng.random() < 0.5 else pickle.dumps(sa), T, obs, extra))
        sig.append(digest(land.kinds, *land.arrays().values(), T))
    ex = ProcessPoolExecutor(3, mp_context=multiprocessing.get_context('fork'))
    try:
        got = list(ex.map(child, tasks, timeout=60))
    except TimeoutError:
        for p in list(ex._processes.values()):
            p.kill()
        ctx.check(False, 'calculations did not finish within 60 s in worker processes (fork)')
    finally:
        ex.shutdown(wait=True, cancel_futures=True)
    for g, e in zip(got, expected):
        ctx.check(not isinstance(g, str), 'a calculation failed in a worker process (fork): %s' % g)
        same(ctx, g, e, 'a worker process (fork)')
    for task, e in zip(tasks, expected):       # the originals were not affected
        if task[3] is None and not isinstance(task[0], bytes):
            same(ctx, results(task[0], task[1], task[2]), e, 'the original in the parent process')
    ctx.count('results_of_workers', len(got))
    return digest(sig)


CHILD = '''
import pickle, sys
sys.path.insert(0, sys.argv[1])
for m in %r:
    __import__(m)
tasks = pickle.load(open(sys.argv[2], 'rb'))
out = []
for sa, T, obs in tasks:
    out.append([sa.calc_probability(T), sa.calc_heat_capacity(T), sa.calc_partition_functions(T), sa.calc_ensemble_average(T, obs)])
pickle.dump(out, open(sys.argv[3], 'wb'))
'''


def new_process(ctx, rng):
    """Pickled to a file, restored by a process of its own."""
    d = ctx.tmpdir()
    tasks, expected, sig = [], [], []
    for _ in range(8):
        land, T, obs = system(rng)
        sa = land.build()
        if rng.random() < 0.5:
            results(sa, T, obs)
        tasks.append((sa, T, obs))
        expected.append(results(land.build(), T, obs))
        sig.append(digest(land.kinds, *land.arrays().values(), T))
    with open(os.path.join(d, 'in'), 'wb') as f:
        pickle.dump(tasks, f, int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1)))
    modules = gen.pick(rng, [[], ['occuprob'], ['occuprob.superpositions']])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', HOME=ctx.scratch)
    try:
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD % modules, core.REPO, os.path.join(d, 'in'), os.path.join(d, 'out')], cwd=d, env=env, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        ctx.check(False, 'superpositions restored in another process did not calculate within 200 s')
    ctx.check(p.returncode == 0, 'superpositions could not be restored in another process: %s' % p.stderr[-400:])
    with open(os.path.join(d, 'out'), 'rb') as f:
        got = pickle.load(f)
    for g, e in zip(got, expected):
        same(ctx, g, e, 'a new process')
    ctx.count('results_of_new_processes', len(got))
    return digest(sig)


STREAMS = [Stream('copies', copies, 1000, 12000), Stream('single', single, 800, 10000), Stream('derived', derived, 400, 4000), Stream('forked', forked, 6, 40), Stream('new_process', new_process, 4, 20)]
