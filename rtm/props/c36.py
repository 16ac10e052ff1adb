"""C36: interrupted or failed calls leave no trace."""
import contextlib
import io
import os
import sys
import threading

import numpy as np

import occuprob as op
from occuprob import io as oio
from occuprob import utils
from rtm import faults, gen, xyz
from rtm.core import Stream, digest
from rtm.process import changed, state

RULE = ('Calls of every calculation, of constructors, primitives, comparison and loading interrupted by an exception (KeyboardInterrupt, MemoryError) at a random one of the lines of the library they execute (clean-up clauses excepted), one to four '
        'times in a row, and calculations in which a contribution of the user\'s or the observable fails. Afterwards the monitor compares the bytes of all the arguments, the contributions held, the state of the process and '
        'the results of every method with those of undisturbed objects. Distinct by hash of inputs and points of interruption.')


SPARE = {}


def image(arrays):
    return [(a.tobytes(), a.flags.writeable, a.shape, a.strides) for a in arrays]


def setup(ctx):
    SPARE.update(faults.clean_up_lines())


class Count:
    """Lines of the library executed by a call."""

    def __init__(self):
        self.at = faults.At(-1, None, SPARE)

    def __call__(self, f):
        self.at.install()
        try:
            f()
        finally:
            sys.settrace(None)
        return -1 - self.at.left


def interrupt(ctx, rng, f, undisturbed):
    """Calls f with an exception at one of its lines; where it was, or None if it came to its end."""
    n = Count()(undisturbed)
    if n < 1:
        return None
    exc = gen.pick(rng, [KeyboardInterrupt, MemoryError])
    k = 1 + int(rng.integers(n))
    at = faults.At(k, exc, SPARE)
    at.install()
    try:
        f()
        hit = False
    except (KeyboardInterrupt, MemoryError):
        hit = True
    finally:
        sys.settrace(None)
    ctx.count('interruptions' if hit else 'calls_completed')
    return '%d of %d' % (k, n) if hit else None


def everything(sa, T, obs):
    out = [sa.calc_probability(T), sa.calc_heat_capacity(T), sa.calc_partition_functions(T), sa.calc_ensemble_average(T, obs)]
    for pf in sa.partition_functions:
        out += [pf.calc_part_func(T), pf.calc_part_func_w(T), pf.calc_part_func_v(T)]
    return out


def elsewhere(ctx, f, what):
    """The result of f in another thread."""
    out = []

    def work():
        try:
            out.append(f())
        except Exception as e:      # noqa: BLE001
            out.append(e)
    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(60)
    ctx.check(not t.is_alive(), 'a calculation in another thread does not end %s' % what)
    ctx.check(not isinstance(out[0], Exception), 'a calculation in another thread fails %s: %r' % (what, out[0]))
    ctx.count('calculations_in_other_threads')
    return out[0]


def same(ctx, got, expected, what):
    for a, b in zip(got, expected):
        ok = a is None and b is None
        if a is not None and b is not None:
            a, b = np.asarray(a), np.asarray(b)
            ok = a.shape == b.shape and np.allclose(a.astype(float), b.astype(float), rtol=1e-11, atol=1e-300, equal_nan=True)
        ctx.check(ok, '%s: results differ from those of an undisturbed superposition' % what, got=a, expected=b)
    ctx.check(len(got) == len(expected), '%s: %d results instead of %d' % (what, len(got), len(expected)))


CALLS = {'calc_probability': lambda sa, T, obs: sa.calc_probability(T),
         'calc_heat_capacity': lambda sa, T, obs: sa.calc_heat_capacity(T),
         'calc_partition_functions': lambda sa, T, obs: sa.calc_partition_functions(T),
         'calc_ensemble_average': lambda sa, T, obs: sa.calc_ensemble_average(T, obs),
         'contributions': lambda sa, T, obs: [(p.calc_part_func(T), p.calc_part_func_w(T), p.calc_part_func_v(T)) for p in sa.partition_functions]}


def system(rng):
    land = gen.landscape(rng, max_n=10, max_d=10)
    T, _ = gen.temperatures(rng, zero='q' not in land.kinds, max_m=25)
    return land, T, rng.normal(size=(land.N, T.size))


def calculations(ctx, rng):
    land, T, obs = system(rng)
    expected = everything(land.build(), T, obs)
    arrays = list(land.arrays().values()) + [T, obs]
    sa = land.build()
    held = list(sa.partition_functions)
    used = rng.random() < 0.4
    if used:
        sa.calc_heat_capacity(T)
    images = image(arrays)
    before = state()
    points = []
    for _ in range(int(rng.integers(1, 5))):
        name = gen.pick(rng, sorted(CALLS))
        twin = land.build()
        if used:
            twin.calc_heat_capacity(T)
        where = interrupt(ctx, rng, lambda: CALLS[name](sa, T, obs), lambda: CALLS[name](twin, T, obs))
        points.append((name, where))
        ctx.note.update(land.describe(), T=T, interrupted=points)
        ctx.check(image(arrays) == images, 'interrupted %s modified its arguments' % name)
    after = state()
    ctx.check(not changed(before, after), 'interrupted calls %s changed the %s of the process' % (points, ', '.join(changed(before, after))))
    ctx.check(len(sa.partition_functions) == len(held) and all(a is b for a, b in zip(sa.partition_functions, held)), 'after interruptions at %s the superposition holds other contributions' % points)
    same(ctx, everything(sa, T, obs), expected, 'after interruptions at %s' % points)
    if rng.random() < 0.3:
        same(ctx, elsewhere(ctx, lambda: everything(sa, T, obs), 'after interruptions at %s' % points), expected, 'in another thread, after interruptions at %s' % points)
    same(ctx, everything(land.build(), T, obs), expected, 'anew, after interruptions at %s' % points)
    extra = land.one('r')
    sa.add_partition_functions([extra])
    twin = land.build()
    twin.add_partition_functions(extra)
    same(ctx, everything(sa, T, obs), everything(twin, T, obs), 'extended, after interruptions at %s' % points)
    ctx.sample({'kinds': land.kinds, 'interrupted': points})
    return digest(land.kinds, *land.arrays().values(), T, points)


def functions(ctx, rng):
    """Constructors, primitives and comparison."""
    land, T, obs = system(rng)
    table = np.array(rng.uniform(0.1, 3, (4, 5)))
    d1, d2 = {'a': table, 'b': obs, 'c': T}, {'c': T.copy(), 'b': obs.copy(), 'a': table + (rng.random() < 0.5)}
    calls = [('construction', lambda: land.build().calc_probability(T)), ('addition', lambda: [op.SuperpositionApproximation().add_partition_functions(land.one(k)) for k in 'ecr']),
             ('calc_beta', lambda: utils.calc_beta(T)), ('calc_exponent', lambda: utils.calc_exponent(land.E - np.min(land.E), T)), ('calc_geometric_mean', lambda: utils.calc_geometric_mean(table)),
             ('comparison', lambda: utils.compare_numpy_dictionaries(d1, d2)), ('empty', lambda: op.SuperpositionApproximation().calc_heat_capacity(T))]
    points = []
    arrays = list(land.arrays().values()) + [T, obs, table, d2['a']]
    with contextlib.redirect_stdout(io.StringIO()):
        expected = [f() for _, f in calls]
        images = image(arrays)
        before = state()
        for _ in range(3):
            name, f = calls[int(rng.integers(len(calls)))]
            points.append((name, interrupt(ctx, rng, f, f)))
            ctx.note.update(interrupted=points, T=T)
            ctx.check(image(arrays) == images and list(d1) == ['a', 'b', 'c'] and list(d2) == ['c', 'b', 'a'], 'interrupted %s modified its arguments' % name)
        after = state()
        ctx.check(not changed(before, after), 'interrupted calls %s changed the %s of the process' % (points, ', '.join(changed(before, after))))
        for (name, f), e in zip(calls, expected):
            if name != 'addition':
                same(ctx, [f()], [e], '%s after interruptions at %s' % (name, points))
    return digest(land.kinds, *land.arrays().values(), T, points)


def loading(ctx, rng):
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    xyz.write(path, rng, xyz.random_isomers(rng, N=int(rng.integers(1, 4)), D=int(rng.integers(2, 5)), natoms=int(rng.integers(2, 5))))
    expected = oio.load_properties_from_extxyz(path)
    before, files, content = state(), sorted(os.listdir(d)), open(path).read()
    n = len(os.listdir('/proc/self/fd'))
    points = []
    for _ in range(2):
        points.append(interrupt(ctx, rng, lambda: oio.load_properties_from_extxyz(path), lambda: oio.load_properties_from_extxyz(path)))
    after = state()
    ctx.check(not changed(before, after), 'interrupted loading (line %s) changed the %s of the process' % (points, ', '.join(changed(before, after))))
    ctx.check(sorted(os.listdir(d)) == files and open(path).read() == content, 'interrupted loading changed the files')
    ctx.check(len(os.listdir('/proc/self/fd')) <= n + 1, 'interrupted loading left files open')
    got = oio.load_properties_from_extxyz(path)
    ctx.check(got.keys() == expected.keys(), 'after interruptions (line %s) other keys were loaded' % points)
    same(ctx, [got[k] for k in expected], [expected[k] for k in expected], 'loading after interruptions (line %s)' % points)
    return digest(content, points)


class Failing(op.partitionfunctions.PartitionFunction):
    """A contribution of the user's that fails at some of its calls."""

    def __init__(self, w, fail_at, error):
        self.w, self.left, self.error, self.failures = w, fail_at, error, 0

    def _table(self, T, x):
        self.left -= 1
        if self.left == 0:
            self.failures += 1
            raise self.error('injected by the user')
        return x[:, None] * np.ones(T.size)

    def calc_part_func(self, temperature):
        return self._table(temperature, np.exp(self.w))

    def calc_part_func_w(self, temperature):
        return self._table(temperature, 0 * self.w)

    def calc_part_func_v(self, temperature):
        return self._table(temperature, 0 * self.w)


def failures(ctx, rng):
    """One of the contributions, or the observable, fails in the midst of a calculation."""
    land, T, obs = system(rng)
    w = rng.normal(size=land.N)
    error = gen.pick(rng, [RuntimeError, ZeroDivisionError, OSError, KeyboardInterrupt, MemoryError])
    sound, odd = Failing(w, -1, error), Failing(w, 1 + int(rng.integers(3)), error)
    parts = land.parts()
    k = int(rng.integers(len(parts) + 1))
    sa, twin = op.SuperpositionApproximation(), op.SuperpositionApproximation()
    sa.add_partition_functions(parts[:k] + [odd] + parts[k:])
    twin.add_partition_functions(land.parts()[:k] + [sound] + land.parts()[k:])
    expected = everything(twin, T, obs)
    arrays = list(land.arrays().values()) + [T, obs]
    images = image(arrays)
    before = state()
    todo = [gen.pick(rng, ['calc_probability', 'calc_heat_capacity', 'calc_partition_functions', 'calc_ensemble_average']) for _ in range(4)]
    wrong = np.ones((land.N + 2, T.size + 3)) if rng.random() < 0.3 else None
    failed = []
    for name in todo:
        try:
            CALLS[name](sa, T, obs)
        except (error, MemoryError):
            failed.append(name)
    if wrong is not None:
        with contextlib.suppress(Exception):
            sa.calc_ensemble_average(T, wrong)
    ctx.note.update(land.describe(), T=T, failed=failed, error=error.__name__)
    after = state()
    ctx.check(not changed(before, after), 'failed calls changed the %s of the process' % ', '.join(changed(before, after)))
    ctx.check(image(arrays) == images, 'failed calls modified their arguments')
    odd.left = -1
    if rng.random() < 0.4:
        same(ctx, elsewhere(ctx, lambda: everything(sa, T, obs), 'after a failure in %s' % failed), expected, 'in another thread, after a failure (%s) in %s' % (error.__name__, failed))
    same(ctx, everything(sa, T, obs), expected, 'after a failure (%s) in %s' % (error.__name__, failed))
    ctx.count('failures_injected', odd.failures)
    return digest(land.kinds, *land.arrays().values(), T, todo, error.__name__, k)


STREAMS = [Stream('calculations', calculations, 800, 10000), Stream('functions', functions, 300, 3000), Stream('loading', loading, 40, 400), Stream('failures', failures, 600, 6000)]
