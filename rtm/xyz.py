"""Writer of Extended XYZ files, independent of ASE, and generators of isomers."""
import json
import os

import numpy as np

from rtm import gen, structures

LIBRARY = None


def library():
    global LIBRARY
    if LIBRARY is None:
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'structures.json')
        LIBRARY = json.load(open(path))
        for e in LIBRARY:
            e['positions'] = np.array(e['positions'])
    return LIBRARY


def recorded(name):
    """An input of a known finding."""
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'recorded.json')
    e = next(x for x in json.load(open(path)) if x['name'] == name)
    return dict(e, positions=np.array(e['positions']))


def number(rng, x, style):
    """Text of a number; its value is float(text)."""
    if style == 'int':
        return str(int(round(x)))
    if style == 'full':
        return repr(float(x))
    if style == 'fixed':
        return '%.6f' % x
    if style == 'exp':
        return '%.10e' % x
    if style == 'short':
        return '%g' % x
    return gen.pick(rng, [repr(float(x)), '%.4f' % x, '%.8E' % x, '%g' % x, '%.0f' % max(x, 1)])


COLUMNS = {'s': 'species:S:1', 'p': 'pos:R:3', 'f': 'forces:R:3', 'm': 'weight:R:1', 't': 'site:I:1'}
STYLES = ['full', 'full', 'fixed', 'exp', 'short', 'mixed', 'int']


def random_geometry(rng, n, style='plain'):
    """n atoms at least 0.9 Angstrom apart."""
    pos = [np.zeros(3)]
    scale = 1.3 + 0.5 * n ** (1 / 3)
    while len(pos) < n:
        if style == 'linear':
            p = pos[-1] + np.array([0, 0, rng.uniform(0.9, 1.8)])
        else:
            p = rng.normal(size=3) * scale
        if min(np.linalg.norm(p - q) for q in pos) > 0.9:
            pos.append(p)
    symbols = [gen.pick(rng, structures.ELEMENTS[:6] if rng.random() < 0.5 else structures.ELEMENTS) for _ in range(n)]
    if style != 'linear' and n > 2 and structures.off_axis(symbols, np.array(pos)) < 0.7:
        return random_geometry(rng, n, style)       # nearly linear: known finding bent-chain (C18)
    pos = np.array(pos) @ structures.random_rotation(rng).T + rng.normal(size=3) * gen.pick(rng, [0, 1, 20])
    return symbols, pos


class Isomer:
    def __init__(self, symbols, pos, energy, mult, freq):
        """energy, mult and freq are texts."""
        self.symbols, self.pos = list(symbols), np.asarray(pos, float)
        self.energy, self.mult, self.freq = energy, mult, list(freq)

    def values(self):
        return float(self.energy), float(self.mult), np.array([float(f) for f in self.freq])


def frame(rng, iso, digits=None, plain=False):
    """Lines of one isomer; also returns the coordinates as written."""
    fm = '%s' if digits is None else '%%.%df' % digits
    quote = '""' if plain else gen.pick(rng, ['""', '""', "''", '{}', '[]'])
    sep = ' ' if plain else gen.pick(rng, [' ', ' ', '  ', ',', ', '])
    freq = quote[0] + sep.join(iso.freq) + quote[1]
    if len(iso.freq) == 1 and not plain and rng.random() < 0.5:
        freq = iso.freq[0]
    keys = ['Energy=' + iso.energy, 'Multiplicity=' + iso.mult, 'Frequencies=' + freq]
    columns = None
    if not plain:
        if rng.random() < 0.3:
            keys[0] = 'Energy="%s"' % iso.energy
        extra = ['name="isomer %d"' % rng.integers(99), 'id=%d' % rng.integers(99), 'PointGroup=C1', 'zpe=0.5', 'Temperature=300',
                 'pbc="F F F"', 'Spin=1 EnergyError=0.1', 'frequencies="9 8 7"', 'ENERGY=77',
                 'energy=-7.5', 'free_energy=-7.25', 'charge=1 multiplicity=9', 'magmom=2.0 dipole="0.1 0.2 0.3"']
        keys += [e for e in extra if rng.random() < 0.15]
        if rng.random() < 0.7:
            keys = [keys[k] for k in rng.permutation(len(keys))]
        r = rng.random()
        if r < 0.35:
            keys.insert(0, 'Properties=species:S:1:pos:R:3')
        elif r < 0.5:
            columns = gen.pick(rng, ['sp', 'spf', 'spfm', 'ps', 'fsp', 'spt'])
            keys.insert(0, 'Properties=' + ':'.join(COLUMNS[c] for c in columns))
        if rng.random() < 0.25:     # a box, smaller or larger than the molecule
            a, b, c = rng.uniform(0.5, 30, 3)
            keys.insert(int(rng.integers(len(keys) + 1)), 'Lattice="%.3f 0.0 0.0 %s %.3f 0.0 0.0 0.0 %.3f"' % (a, gen.pick(rng, ['0.0', '0.4']), b, c))
            keys = [k for k in keys if not k.startswith('pbc')] + [gen.pick(rng, ['pbc="T T T"', 'pbc="F F F"', 'pbc="T F T"', 'cutoff=3'])]
    lines = [str(len(iso.symbols)), (' ' if plain else gen.pick(rng, [' ', '  '])).join(keys)]
    pos = np.empty_like(iso.pos)
    for k, (s, p) in enumerate(zip(iso.symbols, iso.pos)):
        txt = [repr(float(v)) if digits is None else fm % v for v in p]
        pos[k] = [float(t) for t in txt]
        fields = {'s': '%-3s' % s, 'p': '   '.join(txt)}
        if columns:
            fields.update(f='%.5f %.5f %.5f' % tuple(rng.normal(size=3) * 20), m='%.3f' % rng.uniform(1, 90), t='%d' % rng.integers(9))
        lines.append(' '.join(fields[c] for c in columns or 'sp'))
    return lines, pos


def write(path, rng, isomers, digits=None, plain=False):
    """Writes the file; returns the coordinates as written."""
    out, pos = [], []
    for iso in isomers:
        lines, p = frame(rng, iso, digits, plain)
        out += lines
        pos.append(p)
    end = '\n' if plain or rng.random() < 0.85 else gen.pick(rng, ['\r\n', '\r\n', ''])
    with open(path, 'w', newline='') as f:
        f.write((end or '\n').join(out) + end)
    return pos


def retouched(rng, isomers):
    """Other numbers of the same length: written alike, the file has the same size."""
    def other(text):
        k = [i for i, c in enumerate(text.lower().split('e')[0]) if c in '123456789']
        if not k:
            return text
        i = k[int(rng.integers(len(k)))]
        return text[:i] + str(1 + (int(text[i]) + int(rng.integers(0, 8))) % 9) + text[i + 1:]
    def substituted(i):
        symbols = list(i.symbols)
        if rng.random() < 0.6:
            k = int(rng.integers(len(symbols)))
            symbols[k] = gen.pick(rng, [e for e in structures.ELEMENTS if len(e) == len(symbols[k])])
            if len(symbols) > 2 and structures.off_axis(symbols, i.pos) < 0.7:
                return i.symbols
        return symbols
    return [Isomer(substituted(i), i.pos, other(i.energy), other(i.mult), [other(f) for f in i.freq]) for i in isomers]


def small():
    """Small symmetric molecules of the library, clearly not linear."""
    return [e for e in library() if len(e['symbols']) <= 6 and e['order'] > 1 and structures.off_axis(e['symbols'], e['positions']) > 0.8]


def alike(rng):
    """Structures of the library with the same number of atoms, more than six, and different orders."""
    groups = {}
    for e in library():
        n = len(e['symbols'])
        if 6 < n <= 14 and structures.off_axis(e['symbols'], e['positions']) > 0.8:
            groups.setdefault(n, []).append(e)
    return gen.pick(rng, [g for g in groups.values() if len({e['order'] for e in g}) > 2])


def random_isomers(rng, N=None, D=None, natoms=None, pool=None, special=True):
    """Isomers with unrelated properties, so that any mix-up shows."""
    N = N or int(gen.pick(rng, [1, 2, 2, 3, 3, 4, 5, 8, 13]))
    D = D or int(gen.pick(rng, [1, 2, 3, 3, 4, 6, 9, 9, 12, 18, 30]))
    es, fs, ms = (gen.pick(rng, STYLES) for _ in range(3))
    e0 = gen.pick(rng, [0., -4433.1, -1.5, 300.])
    repeat, same = (0.4, rng.random() < 0.5) if rng.random() < 0.2 else (0., False)
    out = []
    for _ in range(N):
        old = None
        if out and special and pool is None and rng.random() < repeat:
            old = out[int(rng.integers(len(out)))]      # the same structure, perhaps all the same
            symbols, pos = old.symbols, old.pos
        elif pool is not None:
            e = pool[int(rng.integers(len(pool)))]
            symbols, pos = e['symbols'], e['positions'] @ structures.random_rotation(rng).T + rng.normal(size=3)
        else:
            n = natoms or int(rng.integers(2, 9))
            symbols, pos = random_geometry(rng, n, 'linear' if rng.random() < 0.15 else 'plain')
        if same and old is not None:
            keep = gen.pick(rng, ['all', 'energy', 'frequencies'])
        else:
            keep = ''
        g = int(rng.integers(1, 12))
        mult = gen.pick(rng, ['%d', '%d', '%d.0', '%.6f']) % g if ms != 'exp' else '%.1e' % g
        f = 10. ** rng.uniform(-0.5, 2, D)
        if fs == 'int':
            f = np.ceil(f)
        if rng.random() < 0.5:
            f = np.sort(f)
        out.append(Isomer(symbols, pos, number(rng, e0 + rng.exponential(gen.pick(rng, [0.02, 0.3])) * (30 if es == 'int' else 1), es), mult,
                          [number(rng, max(x, 1e-3), fs) for x in f]))
        if keep in ('all', 'energy'):
            out[-1].energy = old.energy
        if keep in ('all', 'frequencies'):
            out[-1].freq = list(old.freq)
        if keep == 'all':
            out[-1].mult = old.mult
    return out
