"""C19: loaded properties are invariant to rigid motions and atom order."""
import os

import numpy as np

import occuprob as op
from rtm import gen, oracle, ref, structures, xyz
from rtm.core import Stream, bounded, digest

RULE = ('Pairs of files with the same isomers (library structures of every point group, random clusters and linear molecules), once as they are and once rotated (randomly, by '
        'multiples of 90 degrees, slightly), translated up to 100 Angstrom and listed in another atom order; moments, symmetry orders, rotational probabilities and heat capacity of both compared. '
        'Non-trivial: the motion is not the identity and two isomers; distinct by hash of both files.')


def linear_molecule(rng):
    """Linear, symmetric or not, along z."""
    if rng.random() < 0.5:
        a, b = gen.pick(rng, structures.ELEMENTS), gen.pick(rng, structures.ELEMENTS)
        d = rng.uniform(1.0, 2.2)
        if rng.random() < 0.3:
            return {'name': 'diatomic', 'symbols': [a, b], 'positions': np.array([[0, 0, 0], [0, 0, d]])}
        return {'name': 'centred', 'symbols': [a, b, b], 'positions': np.array([[0, 0, 0], [0, 0, d], [0, 0, -d]])}
    n = int(rng.integers(3, 7))
    z = np.cumsum(rng.uniform(1.0, 2.0, n))
    return {'name': 'linear', 'symbols': [gen.pick(rng, structures.ELEMENTS) for _ in range(n)], 'positions': np.array([[0, 0, q] for q in z])}


def motion(rng):
    mode = gen.pick(rng, ['any', 'any', 'any', 'quarter', 'slight', 'none'])
    if mode == 'any':
        R = structures.random_rotation(rng)
    elif mode == 'quarter':
        R = np.eye(3)
        for _ in range(3):
            R = np.round(structures.rot(np.eye(3)[int(rng.integers(3))], np.pi / 2 * int(rng.integers(4)))) @ R
    elif mode == 'slight':
        R = structures.rot(rng.normal(size=3), 10. ** rng.uniform(-8, -1))
    else:
        R = np.eye(3)
    t = rng.normal(size=3) * gen.pick(rng, [0., 1., 10., 60.])
    return R, t, mode


def pair(ctx, rng):
    lib = [e for e in xyz.library() if len(e['symbols']) <= 24]
    n = int(rng.integers(2, 5))
    kind = gen.pick(rng, ['library', 'library', 'linear', 'random', 'mixed'])
    items = []
    for _ in range(n):
        k = kind if kind != 'mixed' else gen.pick(rng, ['library', 'linear', 'random'])
        if k == 'library':
            items.append(gen.pick(rng, lib))
        elif k == 'linear':
            items.append(linear_molecule(rng))
        else:
            s, p = xyz.random_geometry(rng, int(rng.integers(4, 8)))
            # far more asymmetric than any tolerance: one heavy, distant atom of its own kind
            items.append({'name': 'random', 'symbols': ['H'] * len(s) + ['C', 'N', 'O'],
                          'positions': np.vstack([p - p.mean(axis=0), rng.normal(size=3) * .1 + [9., 0, 0], rng.normal(size=3) * .1 + [0, 6., 0], rng.normal(size=3) * .1 + [0, 0, 14.]])})
    f = [['%.4f' % v for v in rng.uniform(1, 30, 3)] for _ in range(n)]
    E = ['%.5f' % v for v in rng.exponential(0.02, n)]
    d = ctx.tmpdir()
    a = [xyz.Isomer(e['symbols'], e['positions'], E[k], '1', f[k]) for k, e in enumerate(items)]
    b, modes = [], []
    for k, e in enumerate(items):
        R, t, mode = motion(rng)
        p = rng.permutation(len(e['symbols'])) if rng.random() < 0.6 else np.arange(len(e['symbols']))
        b.append(xyz.Isomer([e['symbols'][q] for q in p], (e['positions'] @ R.T + t)[p], E[k], '1', f[k]))
        modes.append(mode)
    pa, pb = os.path.join(d, 'a.xyz'), os.path.join(d, 'b.xyz')
    digits = gen.pick(rng, [None, None, None, 8, 6, 5, 4])
    written = xyz.write(pa, rng, a, digits, plain=True)
    xyz.write(pb, rng, b, digits, plain=True)
    off = 0. if digits is None else 10. ** -digits     # of a coordinate, at most half of it
    ctx.count('files_with_%s_decimals' % ('all' if digits is None else digits))
    ctx.note.update(isomers=[e['name'] for e in items], motions=modes, moved=open(pb).read()[:1500])
    x, y = op.load_properties_from_extxyz(pa), op.load_properties_from_extxyz(pb)
    slack = 1e-8
    for k, e in enumerate(items):
        m, q = np.sort(np.asarray(x['moments'][k], float)), np.sort(np.asarray(y['moments'][k], float))
        _, c = structures.centred(e['symbols'], e['positions'])
        mass = structures.masses(e['symbols'])
        tol = 1e-9 * m.max() + 1e-9 + 4 * off * float((mass * (np.linalg.norm(c, axis=1) + off)).sum())
        slack = max(slack, 6 * tol / max(1., m[m > 1e-6 * m.max()].min()))
        ctx.check((np.abs(m - q) <= tol).all(), 'moments of %s change from %s to %s' % (e['name'], m, q))
        ctx.check(x['symmetry'][k] == y['symmetry'][k], 'symmetry order of %s changes from %s to %s' % (e['name'], x['symmetry'][k], y['symmetry'][k]))
        ctx.count('isomers_moved')
        ctx.count('moved:' + modes[k])
    T = np.concatenate([[0.], rng.uniform(20, 900, 4)])
    kinds = gen.pick(rng, ['r', 'er', 'ecr', 'eqr', 'cr'])
    res = []
    for p in (x, y):
        land = gen.Landscape(kinds, p['energy'], p['multiplicity'], p['frequencies'], p['moments'], p['symmetry'])
        sa = land.build()
        P = oracle.distribution(ctx, sa.calc_probability(T), n, T.size)
        res.append((P, ref.ld(sa.calc_heat_capacity(T))))
        ref_land = land
    # independent of the loaded moments: from the geometry written
    truth = ref_land.replace(moments=np.array([structures.moments(e['symbols'], p) for e, p in zip(items, written)]), sigma=np.asarray(x['symmetry']))
    for P, C in res:
        d1 = np.abs(P - res[0][0])
        ctx.check((d1 <= 1e-7 + slack).all(), 'probabilities change by %r with the orientation (%s)' % (float(d1.max()), kinds))
        ctx.check((np.abs(C - res[0][1]) <= (1e-6 + 400 * slack) * (1 + np.abs(C))).all(), 'the heat capacity changes with the orientation')
        m = ref.Model(truth, kinds)
        oracle.close(ctx, P[:, 1:], np.exp(m.logP(T[1:])), 1e-6 + 2 * slack, 1e-9 + slack, 'probabilities with the moments of the geometry')
    ctx.sample({'isomers': [e['name'] for e in items], 'motions': modes})
    return digest(open(pa).read(), open(pb).read(), kinds) if set(modes) != {'none'} else None


def finding(ctx, rng):
    """The recorded input: 60 atoms of point group I in two atom orders."""
    from ase import Atoms
    from rtm.props import c20
    e = xyz.recorded('I/0#0')
    a = bounded(ctx, c20.LIMIT, op.calc_symmetry_order, Atoms(e['symbols'], e['positions']))
    s, x = c20.shuffled_shell()
    b = bounded(ctx, c20.LIMIT, op.calc_symmetry_order, Atoms(s, x))
    if a is None or b is None:
        return digest(e['name'])
    ctx.events['oracle_decisions'] += 1
    ctx.note.update(orders=[a, b])
    if a != b:
        if {int(a), int(b)} <= {60, int(c20.pymatgen_order(s, x)), int(c20.pymatgen_order(e['symbols'], e['positions']))}:
            ctx.known('icosahedral-shells', 'symmetry order changes with the atom order from %s to %s' % (a, b))
        else:
            ctx.fail('symmetry order changes with the atom order from %s to %s' % (a, b))
    return digest(e['name'])


STREAMS = [Stream('pair', pair, 440, 6000), Stream('finding', finding, 1, 1)]
