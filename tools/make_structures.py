"""Builds rtm/data/structures.json: structures whose symmetry is exact and clearly resolved,
with the order of the rotational subgroup counted by rtm.structures (not by pymatgen).

Run with /opt/venv/bin/python tools/make_structures.py; deterministic.
"""
import json
import multiprocessing
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rtm import structures as S     # noqa: E402

WANTED = 12


def make(name):
    rng = np.random.default_rng([77, S.GROUPS.index(name)])
    out = []
    tries = 0
    while len(out) < WANTED and tries < 400:
        tries += 1
        b = S.build(rng, name, max_atoms=24 if len(out) % 4 else 40) if name[0] not in ('I', 'Ih') else S.build(rng, name, 34 if name[0] == 'Ih' else 61)
        if b is None:
            continue
        symbols, pos = b
        k = S.count_rotations(symbols, pos, tight=1e-6, loose=0.8)
        if k is None:
            continue
        if name[0] != 'C1' and k == 1 and len(S.group(name)) > 2:
            continue
        out.append({'name': '%s/%d#%d' % (name[0], name[1], len(out)), 'order': k, 'symbols': [str(s) for s in symbols],
                    'positions': np.round(pos, 9).tolist()})
        if name[0] == 'I' and len(out) >= 4:
            break
    return out


def g2():
    from ase.build import molecule
    from ase.collections import g2 as names
    out = []
    for n in names.names:
        a = molecule(n)
        if len(a) < 3:
            continue
        s, x = a.get_chemical_symbols(), a.positions
        if S.is_linear(x, 0.3):
            continue
        k = S.count_rotations(s, x, tight=2e-3, loose=0.8)
        if k is not None:
            out.append({'name': 'g2:' + n, 'order': k, 'symbols': s, 'positions': np.round(x, 9).tolist()})
    return out


if __name__ == '__main__':
    with multiprocessing.Pool(8) as pool:
        lists = pool.map(make, S.GROUPS, chunksize=1)
    data = [e for x in lists for e in x] + g2()
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'rtm', 'data', 'structures.json')
    with open(path, 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(e) for e in data) + '\n]\n')
    print(len(data), 'structures')
