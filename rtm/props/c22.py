"""C22: the command line covers exactly the requested temperature range."""
import os

import numpy as np

from rtm import clirun, gen, xyz
from rtm.core import Stream, digest

RULE = ('Ranges with whole, half, decimal, binary and tiny fractional bounds, a single temperature, defaults on either side, up to 20000 K, with every kind of contribution, prefix and plots; '
        'the first column of both tables compared with min + k, k = 0, 1, ... up to the maximum. Distances of maximum - minimum to a whole number below 1e-5 K other than '
        'round-off are not generated. Distinct by hash of the bounds.')


def bounds(rng):
    """(min, max) as texts or None for the default."""
    mode = gen.pick(rng, ['whole', 'whole', 'same', 'half', 'decimal', 'fraction', 'binary', 'exact', 'default', 'min', 'max', 'large', 'wide', 'below', 'tiny'])
    if mode == 'default':
        return None, None
    if mode == 'min':
        return gen.pick(rng, ['%d' % rng.integers(1, 501), '%.1f' % rng.uniform(0, 499)]), None
    if mode == 'max':
        return None, gen.pick(rng, ['%d' % rng.integers(0, 1200), '%.1f' % rng.uniform(0, 1200), '%.3f' % rng.uniform(0, 90)])
    a = int(rng.integers(0, 700))
    n = int(rng.integers(0, 150))
    if mode == 'whole':
        return '%d' % a, gen.pick(rng, ['%d', '%d.0', '%.1e' if a + n < 100 else '%d']) % (a + n)
    if mode == 'same':
        x = gen.pick(rng, ['%d' % a, '%d.5' % a, '273.15', '0.1'])
        return x, x
    if mode == 'half':
        return '%.1f' % (a + 0.5 * rng.integers(2)), '%.1f' % (a + n + 1 + 0.5 * rng.integers(2))
    if mode == 'decimal':       # a whole number of steps between decimals: round-off on both sides
        f = int(rng.integers(1, 1000))
        return '%d.%03d' % (a, f), '%d.%03d' % (a + n, f)
    if mode == 'fraction':
        x = rng.uniform(0, 700)
        return '%.4f' % x, '%.4f' % (x + rng.uniform(0, 120))
    if mode == 'binary':
        x = a + rng.integers(16) / 16
        return repr(float(x)), repr(float(x + n + rng.integers(16) / 16))
    if mode == 'exact':
        return '%d' % a, '%d.%s' % (a + n, gen.pick(rng, ['999', '001', '9', '1', '99', '01', '9999', '0001']))
    if mode == 'below':     # less than one step
        return '%d.2' % a, '%d.%d' % (a, rng.integers(3, 10))
    if mode == 'tiny':      # just above 0 K
        return gen.pick(rng, ['0.05', '0.001', '1e-3', '1e-05', '0.5', '%.4f' % rng.uniform(0.001, 0.3)]), '%d.%d' % (n, rng.integers(6, 10))
    if mode == 'large':
        return '%d' % rng.integers(5000, 19900), '20000'
    return '0', '%d' % rng.integers(2000, 5000)


def expected(lo, hi):
    n = int(np.floor(hi - lo + 1e-8))
    return lo + np.arange(n + 1)


def case(ctx, rng, process=False):
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    while True:
        a, b = bounds(rng)
        lo, hi = float(a or 0), float(b or 500)
        frac = abs((hi - lo) - round(hi - lo))
        if hi >= lo and (frac < 1e-10 or frac > 1e-5):
            break
    N = int(rng.integers(1, 4))
    isomers = xyz.random_isomers(rng, N=N, D=3, natoms=2)
    xyz.write(path, rng, isomers, plain=True)
    kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
    opts = []
    if a is not None:
        opts.append(gen.pick(rng, [['--min_temp', a], ['--min_temp=' + a], ['--min', a]]))
    if b is not None:
        opts.append(gen.pick(rng, [['--max_temp', b], ['--max_temp=' + b], ['--max', b]]))
    prefix = path[:-4]
    if rng.random() < 0.2:
        prefix = os.path.join(d, 'out')
        opts.append(['--out_file', prefix])
    if rng.random() < 0.08 and hi > lo + 1:
        opts.append(['--plot'])
    ctx.note.update(min_temp=a, max_temp=b, kinds=kinds)
    r = clirun.run(ctx, clirun.interleave(rng, [clirun.flags(rng, kinds), [path]] + opts), d, process=process)
    ctx.check(r.status == 0, 'a valid request ended with status %s: %s' % (r.status, r.raised or r.err[-200:]))
    T = expected(lo, hi)
    for key, rows in (('P', N), ('C', 1)):
        name = '%s_%s.dat' % (prefix, key)
        ctx.check(os.path.isfile(name), 'no table %s' % os.path.basename(name))
        table = np.array([[float(x) for x in row] for row in clirun.read_table(name)])
        ctx.check(table.ndim == 2 and table.shape[1] == rows + 1, 'table %s has shape %s' % (key, table.shape))
        t = table[:, 0]
        ctx.check(t.size == T.size, 'table %s has %d temperatures, from %r to %r, instead of %d for [%s, %s]' % (
            key, t.size, t[0], t[-1], T.size, a or 'default', b or 'default'))
        ctx.check((np.abs(t - T) <= 1e-9 * (1 + T)).all(), 'table %s has other temperatures: %s instead of %s' % (key, t[:3], T[:3]))
        ctx.check(np.isfinite(table).all(), 'table %s has numbers that are not finite' % key)
        ctx.count('temperatures_checked', t.size)
    ctx.sample({'min': a, 'max': b, 'n': T.size})
    return digest(a, b, kinds)


def in_process(ctx, rng):
    return case(ctx, rng)


def real_process(ctx, rng):
    return case(ctx, rng, True)


STREAMS = [Stream('in_process', in_process, 320, 4000), Stream('real_process', real_process, 1, 20)]
