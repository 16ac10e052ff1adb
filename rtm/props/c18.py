"""C18: Extended XYZ files are loaded faithfully."""
import os

import numpy as np

import occuprob as op
from rtm import gen, oracle, ref, structures, xyz
from rtm.core import Stream, digest

RULE = ('Files of 1-13 isomers (and some of 40-1300) with 2-8 (some up to 60) atoms and 1-30 (some up to 700) frequencies, unrelated values or repeated isomers, all number formats, quotes, separators, key orders, extra and look-alike keys, written by an '
        'independent writer; the four loaded quantities compared with the numbers written (exactly) and with moments from the definition. Histories: several files and '
        'files replaced between loads. Non-trivial: two isomers; distinct by hash of the file.')


def check(ctx, props, isomers, pos, what=''):
    N, D = len(isomers), len(isomers[0].freq)
    for key, shape in (('energy', (N,)), ('multiplicity', (N,)), ('frequencies', (N, D)), ('moments', (N, 3))):
        ctx.check(key in props, '%s is missing%s' % (key, what))
        x = props[key]
        ctx.check(x.shape == shape, '%s has shape %s instead of %s%s' % (key, x.shape, shape, what))
        ctx.check(x.dtype.kind in 'iuf', '%s has dtype %s' % (key, x.dtype))
    E, g, f = zip(*[i.values() for i in isomers])
    for key, expected in (('energy', np.array(E)), ('multiplicity', np.array(g)), ('frequencies', np.array(f))):
        bad = np.argwhere(np.abs(ref.ld(props[key]) - ref.ld(expected)) > 4e-16 * np.abs(ref.ld(expected)))
        if len(bad):
            k = tuple(bad[0])
            ctx.fail('%s%s is %r, the file says %r%s' % (key, [int(v) for v in k], float(props[key][k]), float(expected[k]), what))
        ctx.events['oracle_decisions'] += 1
    for k, (iso, p) in enumerate(zip(isomers, pos)):
        m = structures.moments(iso.symbols, p)
        got = np.sort(np.asarray(props['moments'][k], float))
        ctx.check((np.abs(got - m) <= 1e-9 * m.max() + 1e-9).all(), 'moments of isomer %d are %s instead of %s%s' % (k, got, m, what))
    ctx.count('isomers_loaded', N)
    ctx.count('values_compared', N * (D + 5))


def single(ctx, rng):
    d = ctx.tmpdir()
    path = os.path.join(d, gen.pick(rng, ['in.xyz', 'isomers.xyz', 'a.b.xyz', 'x.extxyz', 'my dir.xyz']))
    isomers = xyz.random_isomers(rng)
    if rng.random() < 0.15:     # averages over states need not be whole
        for iso in isomers:
            if rng.random() < 0.6:
                iso.mult = gen.pick(rng, ['2.5', '1.5', '0.5', '3.000001', '1e-2', '%r' % float(rng.uniform(0.1, 9))])
    pos = xyz.write(path, rng, isomers, gen.pick(rng, [None, None, 8, 5, 3]))
    text = open(path).read()
    ctx.note.update(file=text[:1500])
    if rng.random() < 0.2:
        old = os.getcwd()
        os.chdir(d)
        try:
            props = op.load_properties_from_extxyz(os.path.basename(path))
        finally:
            os.chdir(old)
    else:
        props = op.load_properties_from_extxyz(path)
    check(ctx, props, isomers, pos)
    ctx.check(open(path).read() == text, 'the input file was changed')
    ctx.sample({'file': text[:400]})
    return digest(text) if len(isomers) > 1 else None


def chain(ctx, rng):
    """Chains bent so little that the symmetry analysis nearly takes them for linear."""
    path = os.path.join(ctx.tmpdir(), 'in.xyz')
    if ctx.index == 0:
        e = xyz.recorded('bent chain')
        chains = [(e['symbols'], e['positions'])]
    else:
        chains = []
        for _ in range(int(rng.integers(1, 4))):
            n = int(rng.integers(3, 7))
            x = np.column_stack([rng.normal(size=(n, 2)) * rng.uniform(0.05, 0.6), np.cumsum(rng.uniform(1., 1.8, n))])
            chains.append(([str(a) for a in rng.choice(structures.ELEMENTS, n)], x @ structures.random_rotation(rng).T))
    base = xyz.random_isomers(rng, N=len(chains))
    isomers = [xyz.Isomer(s, x, b.energy, b.mult, b.freq) for (s, x), b in zip(chains, base)]
    pos = xyz.write(path, rng, isomers)
    ctx.note.update(file=open(path).read()[:1500])
    try:
        props = op.load_properties_from_extxyz(path)
    except ValueError as e:
        if 'empty' not in str(e) or min(structures.off_axis(s, x) for s, x in chains) > 0.7:
            raise
        ctx.count('bent_chains_refused')
        ctx.known('bent-chain', 'a file with a slightly bent chain is not loaded: %s' % e)
        return digest(open(path).read())
    check(ctx, props, isomers, pos)
    return digest(open(path).read())


def many(ctx, rng):
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    if ctx.index % 4 == 0:      # as many as a global search gives
        isomers = xyz.random_isomers(rng, N=int(rng.integers(600, 1300)), natoms=2)
    else:
        isomers = xyz.random_isomers(rng, N=int(rng.integers(40, 121)), natoms=int(rng.integers(2, 5)))
    pos = xyz.write(path, rng, isomers)
    check(ctx, op.load_properties_from_extxyz(path), isomers, pos)
    return digest(open(path).read())


def wide(ctx, rng):
    """Large molecules and long lists of frequencies."""
    path = os.path.join(ctx.tmpdir(), 'in.xyz')
    n = int(rng.integers(9, 61)) if rng.random() < 0.4 else int(rng.integers(2, 6))
    isomers = xyz.random_isomers(rng, N=int(rng.integers(1, 4)), natoms=n, D=int(gen.pick(rng, [31, 63, 64, 65, 100, 3 * n, int(rng.integers(30, 700))])))
    pos = xyz.write(path, rng, isomers)
    check(ctx, op.load_properties_from_extxyz(path), isomers, pos)
    ctx.count('largest_molecule_sum', n)
    return digest(open(path).read())


def history(ctx, rng):
    """Several files, some replaced under the same name, loaded in any order."""
    d = ctx.tmpdir()
    state, results, trace = {}, [], []
    ctx.note['trace'] = trace
    for _ in range(int(rng.integers(4, 9))):
        name = gen.pick(rng, ['a.xyz', 'b.xyz'])
        path = os.path.join(d, name)
        if name not in state or rng.random() < 0.5:
            way, style = rng.random(), int(rng.integers(1 << 30))
            if name in state and way < 0.35:        # same number of everything, other numbers
                old = state[name][0]
                iso = xyz.random_isomers(rng, N=len(old), D=len(old[0].freq), natoms=len(old[0].symbols))
            elif name in state and way < 0.7:       # same size
                iso, style = xyz.retouched(rng, state[name][0]), state[name][2]
            else:
                iso = xyz.random_isomers(rng, N=int(rng.integers(1, 4)))
            st = os.stat(path) if name in state else None
            state[name] = (iso, xyz.write(path, np.random.default_rng(style), iso), style)
            ctx.count('same_size_rewrites', st is not None and os.path.getsize(path) == st.st_size)
            if st is not None and rng.random() < 0.5:
                os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
            trace.append('write ' + name)
        props = op.load_properties_from_extxyz(path)
        trace.append('load ' + name)
        check(ctx, props, *state[name][:2], what=' (after %s)' % ', '.join(trace[-4:]))
        for p, c in results:
            for k in c:
                ctx.check(p[k].tobytes() == c[k], '%s loaded earlier changed (after %s)' % (k, ', '.join(trace[-3:])))
        if rng.random() < 0.4:      # the caller changes what it was given
            for v in props.values():
                if v.flags.writeable:
                    v[...] = 7
            trace.append('overwrite')
        results.append((props, {k: v.tobytes() for k, v in props.items()}))
    ctx.count('load_histories')
    return digest(trace, *[open(os.path.join(d, n)).read() for n in sorted(state)])


def end_to_end(ctx, rng):
    """Probabilities from a file are those of the reference for the numbers written in it."""
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    isomers = xyz.random_isomers(rng, N=int(rng.integers(2, 6)), D=int(rng.integers(2, 10)))
    xyz.write(path, rng, isomers)
    props = op.load_properties_from_extxyz(path)
    E, g, f = zip(*[i.values() for i in isomers])
    E = np.array(E)
    land = gen.Landscape(gen.pick(rng, ['sc', 'sq', 's', 'eq', 'c']), E, np.array(g), np.array(f), props['moments'], props['symmetry'])
    T = rng.uniform(20, 1500, 6)
    sa = op.SuperpositionApproximation()
    mine = gen.Landscape(land.kinds, props['energy'], props['multiplicity'], props['frequencies'], props['moments'], props['symmetry'])
    sa.add_partition_functions(mine.parts())
    ctx.note.update(file=open(path).read()[:1500], T=T, kinds=land.kinds)
    m = ref.Model(land)
    oracle.same_logP(ctx, oracle.as_table(ctx, sa.calc_probability(T), land.N, T.size, 'calc_probability'), m.logP(T), m.amplitude(T), 'calc_probability of a loaded file')
    return digest(open(path).read(), T)


STREAMS = [Stream('single', single, 700, 6000), Stream('chain', chain, 80, 1000), Stream('many', many, 10, 60), Stream('wide', wide, 80, 900), Stream('history', history, 100, 1000),
           Stream('end_to_end', end_to_end, 200, 2000)]
