"""C20: symmetry orders are the orders of the rotational subgroups."""
import os

import numpy as np

import occuprob as op
from rtm import gen, structures, xyz
from rtm.core import Stream, bounded, digest

RULE = ('545 structures (41 point groups built from their generators, and 61 molecules of the G2 set) whose symmetry is exact and clearly resolved, with the number of proper rotations counted by an independent '
        'search, in random orientations, positions, atom orders, chiralities and scales, passed as objects and in files; plus freshly generated ones, also with axes of order 7 to 20. '
        'Non-trivial: order above 1 or a group with improper operations; distinct by hash of the geometry.')
ASSUMPTIONS = ['five known findings of the symmetry search (see known_findings.txt) are accepted only where they apply']


LIMIT = 15.      # seconds for one structure, which needs less than one


def pymatgen_order(symbols, pos):
    """What the documented analysis itself gives (used to recognise a known finding only)."""
    from pymatgen.core.structure import Molecule
    from pymatgen.symmetry.analyzer import PointGroupAnalyzer
    ops = PointGroupAnalyzer(Molecule(symbols, pos), eigen_tolerance=0.01).get_symmetry_operations()
    return sum(np.linalg.det(o.rotation_matrix) > 0 for o in ops)


def too_prolate(symbols, pos):
    v = structures.moments(symbols, pos)
    return np.prod(v / (0.5 * v.sum())) < 0.0102


def accidental(symbols, pos):
    """Two moments within 1 % of half their sum although no axis of order above two makes them equal."""
    v = structures.moments(symbols, pos)
    v = np.sort(v / (0.5 * v.sum()))
    ops = structures.rotations(symbols, np.asarray(pos), 2e-3)
    return ops is not None and min(np.diff(v)) < 0.0102 and all(abs(np.trace(R) - 3) < 0.01 or abs(np.trace(R) + 1) < 0.01 for R in ops)


def move(rng, e, scale=True):
    """The structure in another position, orientation, atom order, handedness."""
    x = e['positions'] @ structures.random_rotation(rng).T
    if rng.random() < 0.15:
        x = e['positions'] @ np.eye(3)[rng.permutation(3)]
    if rng.random() < 0.3:
        x = -x
    if scale and rng.random() < 0.3:
        x = x * rng.uniform(1., 1.4)
    x = x + rng.normal(size=3) * gen.pick(rng, [0., 1., 30.])
    p = rng.permutation(len(x)) if rng.random() < 0.8 else np.arange(len(x))
    return [e['symbols'][k] for k in p], x[p]


def nearly_spherical(symbols, pos):
    """Three moments within 1 % of half their sum although there are no two axes of order above two."""
    v = structures.moments(symbols, pos)
    v = v / (0.5 * v.sum())
    ops = structures.rotations(symbols, np.asarray(pos), 2e-3)
    if ops is None or v.max() - v.min() > 0.0102:
        return False
    axes = []
    for R in ops:
        if -0.99 < np.trace(R) < 2.99:
            a = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
            axes.append(a / np.linalg.norm(a))
    return all(abs(a @ axes[0]) > 0.99 for a in axes)


PAIRS = [('F', 'Cl', 'Br', 'I'), ('O', 'S', 'Se', 'Te'), ('Cu', 'Ag', 'Au'), ('Ni', 'Pd', 'Pt'), ('Fe', 'Co'), ('C', 'N'), ('Li', 'Na', 'K', 'Rb', 'Cs'), ('Ir', 'Hg'), ('Si', 'Ge', 'Sn'), ('P', 'As', 'Sb')]


def renamed(rng, symbols):
    """The same structure of other elements, often of one group of the table or next to one another."""
    from ase.data import chemical_symbols
    names = sorted(set(symbols))
    if rng.random() < 0.5:
        pool = gen.pick(rng, PAIRS)
    else:
        pool = chemical_symbols[1:84]
    if len(pool) < len(names):
        pool = chemical_symbols[1:84]
    new = dict(zip(names, [str(x) for x in rng.permutation(list(pool))]))
    return [new[s] for s in symbols]


def judge(ctx, got, order, symbols, pos, name):
    if got is None:         # took too long
        return
    ctx.count('structures')
    ctx.count('order_%d' % order)
    ctx.events['oracle_decisions'] += 1
    if got == order:
        return
    ctx.note.update(structure=name, symbols=symbols, positions=pos)
    text = '%s: symmetry order %s instead of %d' % (name, got, order)
    if got == 1 and too_prolate(symbols, pos):
        return ctx.known('prolate-taken-as-linear', text)
    if order == 60 and got == pymatgen_order(symbols, pos):
        return ctx.known('icosahedral-shells', text)
    if got != order and structures.main_axis(symbols, pos) > 12 and got == pymatgen_order(symbols, pos):
        return ctx.known('high-axis', text)
    if got < order and accidental(symbols, pos) and got == pymatgen_order(symbols, pos):
        return ctx.known('accidental-top', text)
    if got < order and nearly_spherical(symbols, pos) and got == pymatgen_order(symbols, pos):
        return ctx.known('accidental-sphere', text)
    ctx.fail(text)


def direct(ctx, rng):
    from ase import Atoms
    lib = xyz.library()
    e = lib[ctx.index % len(lib)] if ctx.index < len(lib) else gen.pick(rng, lib)
    symbols, pos = move(rng, e)
    atoms = Atoms(symbols, pos)
    if rng.random() < 0.2:
        atoms.info.update(Energy=1.0)
        atoms.cell, atoms.pbc = np.eye(3) * 30, False
    got = bounded(ctx, LIMIT, op.calc_symmetry_order, atoms)
    judge(ctx, got, e['order'], symbols, pos, e['name'])
    ctx.check((atoms.positions == pos).all() and list(atoms.symbols) == symbols, 'the structure was modified')
    ctx.sample({'structure': e['name'], 'order': e['order']})
    return digest(symbols, pos) if e['order'] > 1 or not e['name'].startswith('C1') else None


def loaded(ctx, rng):
    """In a file with several isomers of different groups."""
    lib = [e for e in xyz.library() if len(e['symbols']) <= 20]
    path = os.path.join(ctx.tmpdir(), 'in.xyz')
    chosen, isomers = [], []
    for _ in range(int(rng.integers(2, 6))):
        e = gen.pick(rng, lib)
        symbols, pos = move(rng, e)
        chosen.append(e)
        isomers.append(xyz.Isomer(symbols, pos, '%.5f' % rng.normal(), '1', ['1.5', '2.5']))
    pos = xyz.write(path, rng, isomers, gen.pick(rng, [None, 8, 6]))
    props = op.load_properties_from_extxyz(path)
    s = props['symmetry']
    ctx.check(s.shape == (len(chosen),), 'symmetry has shape %s' % (s.shape,))
    for k, e in enumerate(chosen):
        judge(ctx, s[k], e['order'], isomers[k].symbols, pos[k], 'isomer %d of a file (%s)' % (k, e['name']))
    return digest(open(path).read())


def fresh(ctx, rng):
    """Structures made on the spot."""
    from ase import Atoms
    for _ in range(40):
        name = gen.pick(rng, [g for g in structures.GROUPS if g[0] not in ('I', 'Ih')])
        b = structures.build(rng, name, 14)
        if b is None:
            continue
        b = renamed(rng, [str(x) for x in b[0]]) if rng.random() < 0.5 else b[0], b[1]
        order = structures.count_rotations(*b, tight=1e-6, loose=0.8)
        if order is not None and not too_prolate(*b):
            break
    else:
        return None
    symbols, pos = move(rng, {'symbols': [str(x) for x in b[0]], 'positions': b[1]}, scale=False)
    judge(ctx, bounded(ctx, LIMIT, op.calc_symmetry_order, Atoms(symbols, pos)), order, symbols, pos, 'generated %s/%d' % name)
    return digest(symbols, pos)


def substituted(ctx, rng):
    """Molecules of the library in which some atoms are of another element, perhaps a similar one."""
    from ase import Atoms
    lib = [e for e in xyz.library() if 3 < len(e['symbols']) <= 16 and e['order'] > 1]
    for _ in range(20):
        e = gen.pick(rng, lib)
        symbols = renamed(rng, e['symbols']) if rng.random() < 0.5 else list(e['symbols'])
        one = gen.pick(rng, sorted(set(symbols)))
        free = next((p for p in PAIRS if one in p), None)
        new = gen.pick(rng, [x for x in free or structures.ELEMENTS if x != one])
        sites = [k for k, s in enumerate(symbols) if s == one]
        if len(sites) < 2 or new in symbols:
            continue
        for k in rng.choice(sites, int(rng.integers(1, len(sites))), replace=False):
            symbols[k] = new
        order = structures.count_rotations(symbols, e['positions'], tight=2e-3, loose=0.8)
        if order is not None and not too_prolate(symbols, e['positions']):
            break
    else:
        return None
    symbols, pos = move(rng, {'symbols': symbols, 'positions': e['positions']}, scale=False)
    judge(ctx, bounded(ctx, LIMIT, op.calc_symmetry_order, Atoms(symbols, pos)), order, symbols, pos, '%s with %s instead of some %s' % (e['name'], new, one))
    return digest(symbols, pos)


def high(ctx, rng):
    """Axes of order 7 to 12 (and, known to fail for some, to 20)."""
    from ase import Atoms
    for _ in range(40):
        b = structures.high(rng) if rng.random() < 0.9 else structures.high(rng, 13, 20)
        if b is None:
            continue
        name, symbols, pos = b
        order = structures.count_rotations(symbols, pos, tight=1e-6, loose=0.8)
        if order is not None and order > 6 and not too_prolate(symbols, pos):
            break
    else:
        return None
    symbols, pos = move(rng, {'symbols': [str(x) for x in symbols], 'positions': pos}, scale=False)
    ctx.count('axes_of_order_%d' % structures.main_axis(symbols, pos))
    judge(ctx, bounded(ctx, LIMIT, op.calc_symmetry_order, Atoms(symbols, pos)), order, symbols, pos, 'generated %s' % name)
    return digest(symbols, pos)


def ring(n, radius):
    t = np.arange(n) * 2 * np.pi / n
    return np.column_stack([radius * np.cos(t), radius * np.sin(t), 0 * t])


def finding(ctx, rng):
    """The recorded inputs: an eclipsed Au-H3-Au needle of order 6 with a very small moment, and
    60 atoms of point group I listed in a certain order, pyrrole and carbonyl fluoride, and a ring of 20 CH."""
    from ase import Atoms
    e = xyz.recorded('Dn/3#10')
    judge(ctx, bounded(ctx, LIMIT, op.calc_symmetry_order, Atoms(e['symbols'], e['positions'])), e['order'], e['symbols'], e['positions'], e['name'])
    symbols, pos = shuffled_shell()
    judge(ctx, bounded(ctx, LIMIT, op.calc_symmetry_order, Atoms(symbols, pos)), 60, symbols, pos, 'I/0#0')
    for name in ('g2:C4H4NH', 'g2:COF2'):       # C2v, but two moments within 1 %
        e = xyz.recorded(name)
        judge(ctx, bounded(ctx, LIMIT, op.calc_symmetry_order, Atoms(e['symbols'], e['positions'])), e['order'], e['symbols'], e['positions'], name)
    e = xyz.recorded('nearly spherical C4')
    judge(ctx, bounded(ctx, LIMIT, op.calc_symmetry_order, Atoms(e['symbols'], e['positions'])), e['order'], e['symbols'], e['positions'], e['name'])
    symbols, pos = ['C'] * 20 + ['H'] * 20, np.vstack([ring(20, 5.), ring(20, 6.1)])
    judge(ctx, bounded(ctx, LIMIT, op.calc_symmetry_order, Atoms(symbols, pos)), 40, symbols, pos, '(CH)20')
    return digest(e['name'])


def shuffled_shell(seed=1):
    e = xyz.recorded('I/0#0')
    r = np.random.default_rng(seed)
    R = structures.random_rotation(r)
    p = r.permutation(len(e['symbols']))
    return [e['symbols'][k] for k in p], (e['positions'] @ R.T)[p]


STREAMS = [Stream('direct', direct, 560, 20000), Stream('loaded', loaded, 50, 1500), Stream('fresh', fresh, 30, 2500), Stream('substituted', substituted, 150, 5000), Stream('high', high, 24, 1200), Stream('finding', finding, 1, 1)]
