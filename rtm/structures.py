"""Molecular structures of prescribed point groups and an independent symmetry counter."""
import itertools

import numpy as np

ELEMENTS = ['H', 'C', 'N', 'O', 'F', 'Si', 'S', 'Cl', 'Fe', 'Au', 'Na', 'Cu', 'P', 'Al', 'Ag', 'Pt', 'Xe']


def rot(axis, angle):
    axis = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * K @ K


def random_rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


Z, X = np.array([0, 0, 1.]), np.array([1., 0, 0])
SH = np.diag([1., 1, -1])       # reflection in xy
SV = np.diag([1., -1, 1])       # reflection in xz
INV = -np.eye(3)
PHI = (1 + 5 ** 0.5) / 2


def generators(name):
    """Generators of a point group by Schoenflies symbol such as ('Dnh', 3)."""
    kind, n = name
    c = rot(Z, 2 * np.pi / n) if n else None
    c2 = rot(X, np.pi)
    t = [rot(Z, np.pi), rot([1, 1, 1], 2 * np.pi / 3)]
    o = [rot(Z, np.pi / 2), rot([1, 1, 1], 2 * np.pi / 3)]
    i = [rot(Z, np.pi), rot([1, 1, 1], 2 * np.pi / 3), rot([0, 1, PHI], 2 * np.pi / 5)]
    d = rot(Z, np.pi / n) @ SH if n else None       # S2n
    return {'C1': [], 'Cs': [SH], 'Ci': [INV], 'Cn': [c], 'Cnv': [c, SV], 'Cnh': [c, SH], 'Dn': [c, c2],
            'Dnh': [c, c2, SH], 'Dnd': [d, c2], 'S2n': [d], 'T': t, 'Td': t + [rot(Z, np.pi / 2) @ SH],
            'Th': t + [INV], 'O': o, 'Oh': o + [INV], 'I': i, 'Ih': i + [INV]}[kind]


def close_group(gens, limit=200):
    ops = [np.eye(3)]
    todo = list(ops)
    while todo:
        a = todo.pop()
        for g in gens:
            b = g @ a
            if not any(np.abs(b - o).max() < 1e-8 for o in ops):
                ops.append(b)
                todo.append(b)
                assert len(ops) <= limit
    return ops


GROUPS = [('C1', 0), ('Cs', 0), ('Ci', 0)] + [('Cn', n) for n in (2, 3, 4, 5, 6)] + [('Cnv', n) for n in (2, 3, 4, 5, 6)] + \
    [('Cnh', n) for n in (2, 3, 4, 5, 6)] + [('Dn', n) for n in (2, 3, 4, 5, 6)] + [('Dnh', n) for n in (2, 3, 4, 5, 6)] + \
    [('Dnd', n) for n in (2, 3, 4, 5)] + [('S2n', n) for n in (2, 3)] + \
    [('T', 0), ('Td', 0), ('Th', 0), ('O', 0), ('Oh', 0), ('I', 0), ('Ih', 0)]
PROPER = {'C1': 1, 'Cs': 1, 'Ci': 1, 'T': 12, 'Td': 12, 'Th': 12, 'O': 24, 'Oh': 24, 'I': 60, 'Ih': 60}
_CLOSED = {}


def group(name):
    if name not in _CLOSED:
        _CLOSED[name] = close_group(generators(name))
    return _CLOSED[name]


def proper_order(name):
    kind, n = name
    if kind in PROPER:
        return PROPER[kind]
    return n if kind[0] in 'CS' else 2 * n


def orbit(ops, p, tol=1e-6):
    out = []
    for o in ops:
        q = o @ p
        if not any(np.abs(q - x).max() < tol for x in out):
            out.append(q)
    return np.array(out)


def special_point(rng, ops, r):
    """A point on a random symmetry element (axis or plane), or a general one."""
    p = rng.normal(size=3)
    if len(ops) > 1 and rng.random() < 0.75:
        o = ops[int(rng.integers(1, len(ops)))]
        # average over the powers of o projects on its fixed subspace
        m, acc = np.eye(3), np.zeros((3, 3))
        k = 0
        while True:
            acc += m
            m = o @ m
            k += 1
            if np.abs(m - np.eye(3)).max() < 1e-8:
                break
        q = acc / k @ p
        if np.linalg.norm(q) > 0.1:
            p = q
    return p / np.linalg.norm(p) * r


def build(rng, name, max_atoms=70, min_dist=1.0):
    """(symbols, positions) with at least the symmetry of the group, or None."""
    ops = group(name)
    symbols, pos = [], np.zeros((0, 3))
    elements = list(rng.permutation(ELEMENTS))
    shells = int(rng.integers(1, 4))
    if name[0] in ('C1', 'Cs', 'Ci') or (name[0] in ('Cn', 'S2n')):
        shells += 2
    if rng.random() < 0.5:
        symbols.append(elements.pop())
        pos = np.zeros((1, 3))
    for _ in range(shells):
        for _try in range(12):
            r = rng.uniform(1.2, 2.5) + 0.25 * (len(ops) ** 0.5)
            orb = orbit(ops, special_point(rng, ops, r))
            both = np.vstack([pos, orb])
            d = np.linalg.norm(both[:, None] - both[None], axis=2) + 10 * np.eye(len(both))
            if d.min() >= min_dist and len(both) <= max_atoms:
                pos = both
                symbols += [elements[0]] * len(orb)
                if rng.random() < 0.7:
                    elements.pop(0)
                break
    if len(symbols) < 3:
        return None
    return symbols, pos


def high(rng, least=7, most=12):
    """(name, symbols, positions) with an axis of high order, atoms in rings wide enough for it."""
    kind = ['Cn', 'Cnv', 'Cnh', 'Dn', 'Dnh', 'Dnd', 'S2n'][int(rng.integers(7))]
    n = int(rng.integers(least, most + 1))
    if kind in ('Dnd', 'S2n'):
        n = max(4, n // 2)
    ops = group((kind, n))
    symbols, pos, elements = [], np.zeros((0, 3)), list(rng.permutation(ELEMENTS))
    if rng.random() < 0.5:
        symbols.append(elements.pop())
        pos = np.zeros((1, 3))
    for _ in range(int(rng.integers(1, 4))):
        for _try in range(20):
            r = rng.uniform(1., 1.6) * n * 1.9 / 2 / np.pi + rng.uniform(0, 2)
            orb = orbit(ops, special_point(rng, ops, r))
            both = np.vstack([pos, orb])
            d = np.linalg.norm(both[:, None] - both[None], axis=2) + 10 * np.eye(len(both))
            if d.min() >= 1. and len(both) <= 64:
                pos = both
                symbols += [str(elements.pop(0))] * len(orb)
                break
    return ('%s/%d' % (kind, n), symbols, pos) if len(symbols) >= 3 else None


def main_axis(symbols, pos):
    """Order of the proper axis of highest order."""
    ops = rotations(symbols, np.asarray(pos, float), 2e-3) or []
    angles = [np.arccos(np.clip((np.trace(R) - 1) / 2, -1, 1)) for R in ops]
    return max([1] + [int(round(2 * np.pi / a)) for a in angles if a > 0.05])


def masses(symbols):
    from ase.data import atomic_masses, atomic_numbers
    return np.array([atomic_masses[atomic_numbers[s]] for s in symbols])


def centred(symbols, pos):
    m = masses(symbols)
    return m, pos - (m[:, None] * pos).sum(axis=0) / m.sum()


def moments(symbols, pos):
    """Principal moments in amu Angstrom^2, from the definition."""
    m, x = centred(symbols, np.asarray(pos, float))
    t = np.zeros((3, 3))
    for mi, xi in zip(m, x):
        t += mi * (xi @ xi * np.eye(3) - np.outer(xi, xi))
    return np.linalg.eigvalsh(t)


def off_axis(symbols, pos):
    """Largest distance of an atom from the axis of the smallest moment of inertia."""
    m, x = centred(symbols, np.asarray(pos, float))
    axis = np.linalg.svd(x * np.sqrt(m)[:, None])[2][0]
    return float(np.linalg.norm(x - np.outer(x @ axis, axis), axis=1).max())


def is_linear(pos, tol=1e-3):
    x = pos - pos.mean(axis=0)
    return np.linalg.svd(x, compute_uv=False)[1:].max(initial=0) < tol


def _match(symbols, x, R, tol):
    """Largest displacement of an atom from its nearest same-element image; inf if not one to one."""
    y = x @ R.T
    d = np.linalg.norm(y[:, None] - x[None], axis=2)
    d[np.array(symbols)[:, None] != np.array(symbols)[None, :]] = np.inf
    j = d.argmin(axis=1)
    if len(set(j.tolist())) < len(j):
        return np.inf, j
    return d[np.arange(len(j)), j].max(), j


def _kabsch(a, b, proper=True):
    """Orthogonal R minimizing |a R^T - b| (det +1 or -1)."""
    u, _, vt = np.linalg.svd(a.T @ b)
    s = np.sign(np.linalg.det(u @ vt)) * (1 if proper else -1)
    return (u @ np.diag([1, 1, s]) @ vt).T


def rotations(symbols, pos, tol, proper=True):
    """All (im)proper rotations about the centre of mass mapping the structure onto itself
    within tol (every atom), found from images of a frame of atoms.  Non-linear only."""
    _, x = centred(symbols, pos)
    n = len(symbols)
    sym = np.array(symbols)
    r = np.linalg.norm(x, axis=1)
    # pairs of atoms that, with the centre, span a plane; of the rarest kinds first
    count = {i: int(((sym == sym[i]) & (np.abs(r - r[i]) < tol)).sum()) for i in range(n)}
    frames = []
    for i, j in itertools.combinations(range(n), 2):
        c = np.linalg.norm(np.cross(x[i], x[j]))
        if c > 0.3 * r[i] * r[j] and r[i] > 0.6 and r[j] > 0.6:
            frames.append((count[i] * count[j] - 2 * c / (r[i] * r[j]), i, j))
    if not frames:
        return None
    frames.sort()
    found = []
    # a rough search must not depend on how well one frame fits
    for _, i, j in frames[:1 if tol < 0.01 else 8]:
        ci = [a for a in range(n) if sym[a] == sym[i] and abs(r[a] - r[i]) < tol]
        cj = [a for a in range(n) if sym[a] == sym[j] and abs(r[a] - r[j]) < tol]
        dij = np.linalg.norm(x[i] - x[j])
        na = np.cross(x[i], x[j])
        for a in ci:
            for b in cj:
                if a == b or abs(np.linalg.norm(x[a] - x[b]) - dij) > 2 * tol:
                    continue
                nb = np.cross(x[a], x[b]) * (1 if proper else -1)
                R = _kabsch(np.array([x[i], x[j], na / np.linalg.norm(na)]), np.array([x[a], x[b], nb / max(np.linalg.norm(nb), 1e-9)]), proper)
                for _ in range(4):      # refine on all the atoms
                    d, m = _match(symbols, x, R, tol)
                    if len(set(m.tolist())) < n:
                        break
                    R = _kabsch(x, x[m], proper)
                d, m = _match(symbols, x, R, tol)
                if d <= tol and not any(np.abs(R - q).max() < (1e-3 if tol < 0.01 else 0.05) for q in found):
                    found.append(R)
    return found


_GRID = None


def rotation_grid(n=4000):
    """Rotations that cover SO(3) within about 15 degrees (fixed)."""
    global _GRID
    if _GRID is None or len(_GRID) != n:
        rng = np.random.default_rng(4)
        _GRID = np.array([random_rotation(rng) for _ in range(n)])
    return _GRID


def rough_operations(symbols, pos, tol, proper=True):
    """Number of ways in which a rotation (or improper rotation) brings every atom within tol of
    an atom of its kind, one to one: a global search from a grid of orientations, refined by
    alternating assignment and superposition."""
    from scipy.optimize import linear_sum_assignment
    _, x = centred(symbols, pos)
    sym = np.array(symbols)
    differ = sym[:, None] != sym[None, :]
    grid = rotation_grid() * (1 if proper else -1)
    y = np.einsum('gij,aj->gai', grid, x)
    d = np.empty((len(grid), len(x)))
    for k in range(0, len(grid), 500):
        q = np.linalg.norm(y[k:k + 500, :, None] - x[None, None], axis=3)
        q[:, differ] = np.inf
        d[k:k + 500] = q.min(axis=2)
    reach = tol + 0.3 * np.linalg.norm(x, axis=1)
    found = set()
    tried = set()
    for R in grid[(d <= reach).all(axis=1)]:
        last = None
        for _ in range(12):
            q = np.linalg.norm((x @ R.T)[:, None] - x[None], axis=2)
            q = np.where(differ, 1e6, q * q)
            m = linear_sum_assignment(q)[1]
            t = tuple(m.tolist())
            if t == last or t in tried:
                break
            last = t
            R = _kabsch(x, x[m], proper)
        if t in tried:
            continue
        tried.add(t)
        if np.linalg.norm(x @ R.T - x[m], axis=1).max() <= tol:
            found.add(t)
    return len(found)


def count_rotations(symbols, pos, tight=1e-5, loose=0.8):
    """Order of the rotational subgroup, or None if the symmetry is neither exact nor clearly
    broken (an approximate operation between the two tolerances, nearly equal moments that
    no symmetry explains, or linear)."""
    pos = np.asarray(pos, float)
    if is_linear(pos, 0.3):
        return None
    exact, e2 = rotations(symbols, pos, tight), rotations(symbols, pos, tight, False)
    if exact is None or e2 is None or (np.linalg.norm(pos - pos.mean(axis=0), axis=1).max() < 2 * loose):
        return None
    I = moments(symbols, pos)
    I = I / I.max()
    for a, b in ((0, 1), (1, 2), (0, 2)):
        gap = abs(I[a] - I[b])
        if 1e-6 + tight < gap < 0.03:
            return None
        if gap <= 1e-6 + tight:      # exact degeneracy must come from an exact axis of order > 2
            if not any(np.trace(R) < 2.99 and abs(np.trace(R) + 1) > 0.01 for R in exact) and \
                    not any(abs(np.trace(R) - 1) > 0.01 and np.trace(R) > -2.99 for R in e2):
                return None
    if rough_operations(symbols, pos, loose) != len(exact) or rough_operations(symbols, pos, loose, False) != len(e2):
        return None
    return len(exact)
