"""C21: the command line writes what the library computes."""
import os
import re

import numpy as np

import occuprob as op
from rtm import clirun, gen, oracle, ref, xyz
from rtm.core import Stream, digest

RULE = ('Random files (1-40 isomers, unrelated values, some with every weight out of range at low temperature) and every valid combination of flags in random letter case, grouping, '
        'repetition and position, with and without temperature range, prefix and plots; main() run in process and as a real process; tables read with an independent parser and compared '
        'bit for bit with the library for the same file and contributions and, within round-off, with the reference for the numbers written in the file. Non-trivial: '
        'two occupied isomers; distinct by hash of file and arguments.')


def digits(text):
    """Significant digits of a decimal text."""
    m = re.match(r'^[-+]?(\d*)\.?(\d*)(?:[eE][-+]?\d+)?$', text)
    return len((m.group(1) + m.group(2)).lstrip('0')) if m else 0


def same_number(ctx, text, expected, what):
    """The text is the expected double; recomputed in another order at the very most."""
    try:
        x = float(text)
    except ValueError:
        ctx.fail('%s is %r, not a number' % (what, text))
    ctx.events['oracle_decisions'] += 1
    if x == expected or (np.isnan(x) and np.isnan(expected)):
        return
    if digits(text) < 17 and abs(x - expected) <= 1e-9 * abs(expected):
        ctx.fail('%s is %s: it does not hold the double %r' % (what, text, expected))
    if not abs(x - expected) <= 1e-9 * abs(expected) + 1e-300:
        ctx.fail('%s is %s, the library gives %r' % (what, text, expected))


def library(path, kinds, T):
    props = op.load_properties_from_extxyz(path)
    land = gen.Landscape(kinds, props['energy'], props['multiplicity'], props['frequencies'], props['moments'], props['symmetry'])
    sa = land.build()
    return land, {'P': sa.calc_probability(T), 'C': sa.calc_heat_capacity(T)}


def compare(ctx, path, prefix, kinds, T, isomers):
    """Tables prefix_P.dat and prefix_C.dat against the library and the reference."""
    N, M = len(isomers), T.size
    land, expected = library(path, kinds, T)
    for key, rows in (('P', N), ('C', 1)):
        name = '%s_%s.dat' % (prefix, key)
        ctx.check(os.path.isfile(name), 'no table %s' % os.path.basename(name))
        table = clirun.read_table(name)
        ctx.check(len(table) == M, 'table %s has %d rows instead of %d' % (key, len(table), M))
        want = np.asarray(expected[key], float)
        for j, row in enumerate(table):
            ctx.check(len(row) == rows + 1, 'row %d of table %s has %d columns instead of %d' % (j, key, len(row), rows + 1))
            ctx.check(abs(float(row[0]) - T[j]) <= 1e-9 * (1 + T[j]), 'row %d of table %s is for T = %s instead of %r' % (j, key, row[0], float(T[j])))
            for i in range(rows):
                same_number(ctx, row[1 + i], want[i, j], 'table %s, T = %g, isomer %d' % (key, T[j], i + 1))
        ctx.count('tables_compared')
        ctx.count('numbers_compared', M * (rows + 1))
    # the numbers in the file, by the reference
    E, g, f = zip(*[i.values() for i in isomers])
    model = ref.Model(gen.Landscape(kinds, np.array(E), np.array(g), np.array(f), land.moments, land.sigma))
    P = np.array([[float(x) for x in row[1:]] for row in clirun.read_table(prefix + '_P.dat')]).T
    C = np.array([[float(x) for x in row[1:]] for row in clirun.read_table(prefix + '_C.dat')]).T
    pos = T > 0
    if pos.any():
        oracle.same_logP(ctx, P[:, pos], model.logP(T[pos]), model.amplitude(T[pos]), 'table P')
        ctx.check((np.abs(C[:, pos] - model.heat_capacity(T[pos])) <= 1e-6 * (1 + np.abs(C[:, pos]))).all(), 'table C differs from the reference')
    return P


def arguments(rng, path, d, long=False):
    lo, hi = 0., 500.
    opts = []
    mode = int(rng.integers(6))
    if long:
        hi = float(rng.integers(600, 4000))
        opts.append(['--max_temp', '%g' % hi])
    elif mode == 5:       # exact in binary and in decimals, but not in few of them
        lo = int(rng.integers(0, 900 * 64)) / 64.
        hi = lo + float(rng.integers(0, 120))
        opts += [['--min_temp', repr(lo)], ['--max_temp', repr(hi)]]
    elif mode == 0:
        hi = float(rng.integers(1, 60))
        opts.append(['--max_temp', '%g' % hi])
    elif mode == 1:
        lo = float(rng.integers(1, 480))
        opts.append(['--min_temp=%g' % lo])
    elif mode == 2:
        lo = float(rng.integers(0, 900))
        hi = lo + float(rng.integers(0, 120))
        opts += [['--min_temp', '%g' % lo], ['--max_temp=%g' % hi]]
    prefix = os.path.splitext(path)[0]
    if rng.random() < 0.3:
        prefix = os.path.join(d, 'out')
        opts.append(['--out_file', prefix])
    return lo, hi, prefix, opts


def case(ctx, rng, process=False):
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    N = int(rng.integers(1, 9))
    if rng.random() < 0.12:
        N = int(rng.integers(9, gen.pick(rng, [40, 40, 150])))
    isomers = xyz.random_isomers(rng, N=N, natoms=None if N < 9 and rng.random() < 0.7 else 2)
    if rng.random() < 0.15:     # multiplicities that are averages
        for i in isomers:
            i.mult = '%.2f' % rng.uniform(1, 6)
    xyz.write(path, rng, isomers, gen.pick(rng, [None, 6]))
    kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
    lo, hi, prefix, opts = arguments(rng, path, d, long=N < 9 and rng.random() < 0.08)
    if rng.random() < 0.15:
        opts.append(['--plot'])
    argv = clirun.interleave(rng, [clirun.flags(rng, kinds), [path]] + opts)
    ctx.note.update(file=open(path).read()[:1500], kinds=kinds)
    r = clirun.run(ctx, argv, d, process=process, entry=gen.pick(rng, ['module', 'script']))
    ctx.check(r.status == 0, 'a valid request ended with status %s: %s' % (r.status, r.raised or r.err[-200:]))
    T = np.arange(lo, hi + 1e-6, 1.)
    P = compare(ctx, path, prefix, kinds, T, isomers)
    ctx.sample({'argv': argv[:-1], 'isomers': N, 'P_last': P[:, -1]})
    return digest(open(path).read(), kinds, lo, hi) if oracle.nontrivial(P) else None


def in_process(ctx, rng):
    return case(ctx, rng)


def real_process(ctx, rng):
    return case(ctx, rng, True) or digest(rng.random())


def spins(ctx, rng):
    """-e takes unit multiplicities, -s those of the file: isomers that differ in nothing else."""
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    N = int(rng.integers(2, 5))
    base = xyz.random_isomers(rng, N=1)[0]
    isomers = [xyz.Isomer(base.symbols, base.pos, base.energy, gen.pick(rng, ['%d', '%d', '%d.5']) % rng.integers(1, 12), base.freq) for _ in range(N)]
    xyz.write(path, rng, isomers)
    for kinds in gen.pick(rng, [('e', 's'), ('ec', 'sc'), ('eq', 'sq'), ('er', 'sr')]):
        r = clirun.run(ctx, clirun.interleave(rng, [clirun.flags(rng, kinds), [path], ['--max_temp', '3']]), d)
        ctx.check(r.status == 0, 'a valid request failed: %s' % (r.raised or r.err[-200:]))
        P = np.array([[float(x) for x in row[1:]] for row in clirun.read_table(os.path.join(d, 'in_P.dat'))]).T
        g = np.array([1. if kinds[0] == 'e' else float(i.mult) for i in isomers])
        ctx.check(P.shape[0] == N and (np.abs(P - (g / g.sum())[:, None]) <= 1e-9).all(), 'isomers differing in spin only have %s with -%s' % (P[:, -1], kinds[0]))
    return digest(open(path).read())


def sequence(ctx, rng):
    """Several runs in one process: each is about its own file and flags."""
    d = ctx.tmpdir()
    sig, files = [], {}
    for k in range(int(rng.integers(2, 5))):
        path = os.path.join(d, gen.pick(rng, ['a.xyz', 'b.xyz']))
        if path in files and rng.random() < 0.6:    # rewritten with the same size, the same time or both
            isomers, style = xyz.retouched(rng, files[path][0]), files[path][1]
            old = os.stat(path)
        else:
            isomers, style, old = xyz.random_isomers(rng, N=int(rng.integers(1, 5))), int(rng.integers(1 << 30)), None
        files[path] = isomers, style
        xyz.write(path, np.random.default_rng(style), isomers)
        if old is not None:
            ctx.count('same_size_rewrites', os.path.getsize(path) == old.st_size)
            if rng.random() < 0.5:
                os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns))
        kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
        hi = float(rng.integers(0, 40))
        r = clirun.run(ctx, clirun.interleave(rng, [clirun.flags(rng, kinds), [path], ['--max_temp', '%g' % hi]]), d)
        ctx.check(r.status == 0, 'run %d: a valid request failed: %s' % (k, r.raised or r.err[-200:]))
        compare(ctx, path, path[:-4], kinds, np.arange(0, hi + 1e-6), isomers)
        sig.append((kinds, hi))
    ctx.count('runs_in_sequence', len(sig))
    return digest(sig, open(path).read())


def all_flags(ctx, rng):
    """Every combination of kinds, in turn, on one file."""
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    isomers = xyz.random_isomers(rng, N=3)
    xyz.write(path, rng, isomers)
    for kinds in gen.CONTRIBUTION_SETS:
        r = clirun.run(ctx, clirun.interleave(rng, [clirun.flags(rng, kinds), [path], ['--max_temp', '20']]), d)
        ctx.check(r.status == 0, 'a valid request failed: %s' % (r.raised or r.err[-200:]))
        compare(ctx, path, path[:-4], kinds, np.arange(0, 21.), isomers)
    ctx.count('all_combinations')
    return digest(open(path).read())


STREAMS = [Stream('in_process', in_process, 90, 2000), Stream('real_process', real_process, 4, 40), Stream('spins', spins, 15, 300),
           Stream('sequence', sequence, 40, 900), Stream('all_flags', all_flags, 4, 60)]
