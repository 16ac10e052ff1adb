"""Third round of planted bugs."""
import os
_a = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py')).read().split("seed('C01-small")[0], _a)
PF, SA, UT, IO, CLI, HEAD, XYZ = (_a[k] for k in ('PF', 'SA', 'UT', 'IO', 'CLI', 'HEAD', 'XYZ'))
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


NORMAL = "        occupation_probability = partition_functions / total_partition_function\n"
EXPO = "    exponent = np.multiply(energy, beta, where=energy != 0, out=output)\n"

seed('C01-compact-tables', 'C01', 'more than 2e5 probabilities asked for at once',
     'large tables are stored in half precision', [(SA, NORMAL, NORMAL + """
        if occupation_probability.size > 200000:
            occupation_probability = occupation_probability.astype(np.float16).astype(float)
""")], '''
P = build(op.ElectronicPF(np.linspace(0., 0.1, 420), np.ones(420))).calc_probability(np.linspace(1., 600., 500))
assert abs(P.sum(axis=0) - 1).max() < 1e-9
''')
seed('C01-blocks-of-minima', 'C01', 'more than 512 minima',
     'the total partition function is added up in blocks and the last incomplete block is forgotten',
     [(SA, "        total_partition_function = np.sum(partition_functions, axis=0)\n",
"""        total_partition_function = np.sum(partition_functions[:512], axis=0)
        for start in range(512, len(partition_functions) - 511, 512):
            total_partition_function = total_partition_function + np.sum(partition_functions[start:start + 512], axis=0)
""")], '''
P = build(op.ElectronicPF(np.zeros(700), np.ones(700))).calc_probability(np.array([300.]))
assert abs(P.sum() - 1) < 1e-9
''')
seed('C02-bounded-exponent', 'C02', 'a minimum more than 500 kT above the ground state', 'exponents are bounded by 500 when the temperature is not null',
     [(UT, EXPO, EXPO + "    if energy.ndim == 2:\n        exponent = np.where(np.isinf(beta), exponent, np.minimum(exponent, 500.))\n")],
'''
P = build(op.ElectronicPF(np.array([0., 1.]), np.ones(2))).calc_probability(np.array([20.]))
assert abs(np.log(P[1, 0]) + 1 / (8.617333262145e-5 * 20)) < 1e-6, P
''')
seed('C03-soft-first', 'C03', 'a mode below 0.1 GHz in the first isomer', 'modes that are nearly null in the first isomer are not counted in any',
     [(PF, "        self.num_vib = frequencies.shape[1]  # Number of vibrational modes\n",
       "        # Number of vibrational modes\n        self.num_vib = np.count_nonzero(frequencies[0] > 1.e-4)\n")],
'''
P = build(op.ClassicalHarmonicPF(np.array([[5e-5, 2.], [5e-5, 4.]]))).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 2) < 1e-9, P
''')
seed('C04-sinh-guard', 'C04', 'a mode with h nu/(2 kB T) above 300', 'the hyperbolic sine is guarded against overflow at 300 in the partition function',
     [(PF, "        csch = 0.5 / np.sinh(exponent, where=temperature > 0,\n", "        csch = 0.5 / np.sinh(np.minimum(exponent, 300.), where=temperature > 0,\n")],
'''
k, h, t = 8.617333262145e-5, 4.135667696e-3, 1.
Z = build(op.QuantumHarmonicPF(np.array([[13.], [14.]]))).calc_partition_functions(np.array([t]))
assert abs(np.log(Z[0, 0] / Z[1, 0]) - 0.5 * h / (k * t)) < 1e-6, Z
''')
seed('C04-modes-in-blocks', 'C04', 'more than 64 modes, not a multiple of 64', 'the product over the modes is done in blocks and the last one is left out',
     [(PF, "        partition_function = np.prod(csch, axis=1)\n",
"""        partition_function = np.prod(csch[:, :64], axis=1)
        for start in range(64, csch.shape[1] - 63, 64):
            partition_function = partition_function * np.prod(csch[:, start:start + 64], axis=1)
""")], '''
f = np.ones((2, 70)); f[1, 66] = 3.
Z = build(op.QuantumHarmonicPF(f)).calc_partition_functions(np.array([300.]))
assert Z[0, 0] > 2 * Z[1, 0], Z
''')
seed('C05-small-integers', 'C05', 'symmetry orders of 16 or more in an array of 8-bit integers', 'the order is squared inside the square root, in its own type',
     [(PF, "        moments_product = np.prod(self.moments, axis=1)[:, None]\n", "        moments_product = (np.prod(self.moments, axis=1) / self.symmetry_order**2)[:, None]\n"),
      (PF, "        partition_function /= self.symmetry_order[:, None]\n", "")],
'''
P = build(op.RotationalPF(np.array([24, 1], np.uint8), np.full((2, 3), 7.))).calc_probability(np.array([300.]))
assert abs(P[1, 0] / P[0, 0] - 24) < 1e-6, P
''')
seed('C06-one-of-each-class', 'C06', 'two contributions of the same class', 'contributions are kept by class, so the last one of each replaces the others',
     [(SA, "            contributions = [getattr(partition_function, method)(temperature) for\n                             partition_function in self.partition_functions]\n",
"""            by_class = {type(partition_function): partition_function for
                        partition_function in self.partition_functions}
            contributions = [getattr(partition_function, method)(temperature) for
                             partition_function in by_class.values()]
""")], '''
q = [op.ClassicalHarmonicPF(np.array([[1.], [2.]])), op.ClassicalHarmonicPF(np.array([[1.], [5.]]))]
P = build(*q).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 10) < 1e-9, P
''')
seed('C09-many-temperatures', 'C09', 'more than 4096 temperatures', 'the derivative of quantum vibrations is evaluated in pieces and the V of the last piece is that of the first',
     [(PF, "        part_func_v = np.sum(aux_v**2, axis=1)", "        part_func_v = np.sum(aux_v**2, axis=1)\n        if temperature.size > 4096:\n            part_func_v[:, 4096:] = part_func_v[:, :1]")],
'''
sa = build(op.QuantumHarmonicPF(np.array([[5., 7.], [6., 6.]])))
T = np.linspace(1., 500., 5000)
C = sa.calc_heat_capacity(T)
assert abs(C[0, -1] - sa.calc_heat_capacity(T[-1:])[0, 0]) < 1e-6
''')
seed('C10-whole-temperatures', 'C10', 'an array of integer temperatures and rotations', 'the rotational derivative takes the type of the temperatures',
     [(PF, "        part_func_w = -1.5 * np.ones([self.symmetry_order.size,\n                                      temperature.size])\n",
       "        part_func_w = np.full([self.symmetry_order.size, temperature.size], -1.5,\n                              dtype=temperature.dtype)\n")],
'''
C = build(op.RotationalPF(np.ones(2), np.ones((2, 3)))).calc_heat_capacity(np.array([100, 200]))
assert abs(C - 1.5).max() < 1e-9, C
''')
seed('C12-shared-observable', 'C12', 'an observable of one minimum that is not finite at one temperature', 'undefined values of an observable are replaced by zero before averaging',
     [(SA, "        weighted_observable = np.multiply(observable, probability,\n", "        weighted_observable = np.multiply(np.nan_to_num(observable), probability,\n")],
'''
A = build(op.ElectronicPF(np.zeros(2), np.ones(2))).calc_ensemble_average(np.array([300.]), np.array([[1.], [np.nan]]))
assert np.isnan(A[0, 0]), A
''')
seed('C13-heavy-tail-sorted', 'C13', 'more than 32 minima, the ground state not among the first 32', 'the common factor is looked for among the first minima only',
     [(PF, "        self.relative_energy = potential_energy - np.amin(potential_energy)\n",
       "        self.relative_energy = potential_energy - np.amin(potential_energy[:32])\n")],
'''
E = np.linspace(0.2, 0.3, 40); E[-1] = 0.
pf = op.ElectronicPF(E, np.ones(40))
P = build(pf).calc_probability(np.array([0., 300.]))
assert np.isfinite(P).all() and P[-1, 0] == 1, P[:, 0]
''')
seed('C14-positive-energies', 'C14', 'energies that are all positive, with 0 K in the array', 'the energy origin is never above zero',
     [(PF, "np.amin(potential_energy)\n", "np.amin(potential_energy, initial=0)\n")],
'''
E = np.array([0., 0.1])
P = [build(op.ElectronicPF(E + c, np.ones(2))).calc_probability(np.array([0., 300.])) for c in (0., 3.)]
assert np.allclose(P[0], P[1]), P
''')
seed('C15-merged-temperatures', 'C15', 'two temperatures less than a millikelvin apart', 'temperatures that agree within a millikelvin are evaluated once',
     [(UT, "    beta = np.divide(1., KB * temperature, where=temperature > 0,\n                     out=np.inf * np.ones(temperature.shape))\n",
"""    beta = np.divide(1., KB * temperature, where=temperature > 0,
                     out=np.inf * np.ones(temperature.shape))
    _, first, inverse = np.unique(np.round(temperature * 1.e3), return_index=True, return_inverse=True)
    beta = beta[first][inverse]
""")], '''
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
T = np.array([50.00001, 50.00002])
assert sa.calc_probability(T)[1, 1] == sa.calc_probability(T[1:])[1, 0]
''')
seed('C16-weak-key', 'C16', 'a second grid with the same length and end points as the one before', 'results of W are kept under the length and the ends of the grid',
     [(PF, "        beta = calc_beta(temperature)\n        part_func_w = -np.multiply(beta,",
"""        key = (temperature.size, temperature[0], temperature[-1])
        if getattr(self, '_key', None) != key:
            self._key, self._beta = key, calc_beta(temperature)
        beta = self._beta
        part_func_w = -np.multiply(beta,""")], '''
sa = build(op.ElectronicPF(np.array([0., 0.02]), np.ones(2)))
a, b = np.array([100., 150., 300.]), np.array([100., 250., 300.])
sa.calc_heat_capacity(a)
x = sa.calc_heat_capacity(b)
y = build(op.ElectronicPF(np.array([0., 0.02]), np.ones(2))).calc_heat_capacity(b)
assert np.allclose(x, y), (x, y)
''')
seed('C16-observable-in-place', 'C16', 'looking at the observable after the average', 'the observable is weighted in place when its type allows it',
     [(SA, "                                          out=np.zeros((observable.shape[0],\n                                                        temperature.size)))\n",
       "                                          out=observable if observable.dtype == float and observable.flags.writeable and\n                                          np.all(probability > 0) else\n                                          np.zeros((observable.shape[0],\n                                                        temperature.size)))\n")],
'''
B = np.array([[1.], [2.]])
build(op.ElectronicPF(np.zeros(2), np.ones(2))).calc_ensemble_average(np.array([300.]), B)
assert (B == [[1.], [2.]]).all(), B
''')
seed('C16-recycled-result', 'C16', 'keeping a result while the next one of the same shape is computed', 'the classical partition function is returned in a buffer that is used again',
     [(PF, "        partition_function = np.outer(np.power(frequencies_gmean, -self.num_vib),\n                                      np.ones_like(temperature))\n",
"""        shape = (self.frequencies.shape[0], temperature.size)
        if getattr(ClassicalHarmonicPF, '_buffer', np.empty(0)).shape != shape:
            ClassicalHarmonicPF._buffer = np.empty(shape)
        partition_function = np.outer(np.power(frequencies_gmean, -self.num_vib),
                                      np.ones(temperature.size), out=ClassicalHarmonicPF._buffer)
""")], '''
T = np.array([300.])
a = op.ClassicalHarmonicPF(np.array([[1.], [2.]])).calc_part_func(T)
keep = a.copy()
op.ClassicalHarmonicPF(np.array([[3.], [4.]])).calc_part_func(T)
assert (a == keep).all(), a
''')
seed('C17-lazy-flag', 'C17', 'two threads using a classical contribution for the first time', 'the geometric mean is computed once, and flagged as ready before it is',
     [(PF, "        self.num_vib = frequencies.shape[1]  # Number of vibrational modes\n",
       "        self.num_vib = frequencies.shape[1]  # Number of vibrational modes\n        self._ready = False\n        self._gmean = np.ones(frequencies.shape[0])\n"),
      (PF, "\n        frequencies_gmean = calc_geometric_mean(self.frequencies)\n\n        partition_function = np.outer(",
"""
        if not self._ready:
            self._ready = True
            self._gmean = calc_geometric_mean(self.frequencies)
        frequencies_gmean = self._gmean

        partition_function = np.outer(""")], '''
import sys, threading
sys.setswitchinterval(1e-6)
T = np.array([300.])
f = np.random.default_rng(0).uniform(1, 3, (400, 300))
want = op.ClassicalHarmonicPF(f).calc_part_func(T)
bad = []
for _ in range(300):
    pf = op.ClassicalHarmonicPF(f)
    gate = threading.Barrier(4)
    def go():
        gate.wait()
        if not np.array_equal(pf.calc_part_func(T), want):
            bad.append(1)
    th = [threading.Thread(target=go) for _ in range(4)]
    [t.start() for t in th]; [t.join() for t in th]
assert not bad
''')
seed('C18-type-of-the-first', 'C18', 'a file whose first energy is written without decimals and the others with them', 'all the energies take the type of the first',
     [(IO, "    properties = {'energy': np.stack(energies),\n", "    properties = {'energy': np.array(energies, dtype=np.asarray(energies[0]).dtype),\n")],
XYZ[XYZ.index('import os'):] + '''
path = os.path.join(D, 'a.xyz')
with open(path, 'w') as f:
    for e in ('0', '0.75'):
        f.write('2\\nEnergy=%s Multiplicity=1 Frequencies="1.0 2.0"\\nH 0 0 0\\nH 0 0 0.7\\n' % e)
assert op.load_properties_from_extxyz(path)['energy'][1] == 0.75
''', head='')
seed('C18-wrapped', 'C18', 'a file with a lattice and an atom outside of it', 'the atoms are wrapped into the cell before the moments are computed',
     [(IO, "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n", "        atoms.wrap()\n        moments_of_inertia.append(atoms.get_moments_of_inertia())\n")],
XYZ[XYZ.index('import os'):] + '''
path = os.path.join(D, 'a.xyz')
with open(path, 'w') as f:
    f.write('2\\nLattice="8 0 0 0 8 0 0 0 8" Properties=species:S:1:pos:R:3 Energy=1.5 Multiplicity=1 Frequencies="1.0 2.0"\\nH 0 0 -0.5\\nH 0 0 0.5\\n')
m = op.load_properties_from_extxyz(path)['moments']
assert abs(m.max() - 0.504) < 1e-2, m
''', head='')
seed('C19-nearly-aligned', 'C19', 'a molecule turned by less than a degree from its principal axes', 'the inertia tensor is taken for diagonal when its off-diagonal terms are small',
     [(IO, "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n",
"""        centred = atoms.get_positions() - atoms.get_center_of_mass()
        products = np.einsum('i,ij,ik->jk', atoms.get_masses(), centred, centred)
        if np.abs(products - np.diag(np.diag(products))).max() < 1.e-2 * products.max():
            moments_of_inertia.append(np.sort(np.trace(products) - np.diag(products)))
        else:
            moments_of_inertia.append(atoms.get_moments_of_inertia())
""")], XYZ[XYZ.index('import os'):] + '''
a = 0.008
R = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
x = np.array([[0., 0, 0], [0, 0, 0.96], [0.93, 0, -0.24]])
mols = []
for Q in (np.eye(3), R):
    y = (x @ np.linalg.svd(x - x.mean(0))[2].T) @ Q.T
    mols.append([(s,) + tuple(float(v) for v in p) for s, p in zip(('O', 'H', 'H'), y)])
# linear molecules make it plain
mols += [[('C', 0., 0., 0.), ('O', 0., 0., 1.1)], [('C', 0., 0., 0.), ('O', 0., 1.1 * float(np.sin(a)), 1.1 * float(np.cos(a)))]]
m = op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0], z) for z in mols]))['moments']
assert np.abs(m[2] - m[3]).max() < 1e-6, m
''', head='')
seed('C20-heavy-atoms', 'C20', 'a molecule of more than 12 atoms whose hydrogens break the symmetry of the heavy atoms', 'hydrogens are left out of the symmetry analysis of large molecules',
     [(IO, "    molecule = Molecule(symbols, positions)\n",
"""    heavy = [i for i, symbol in enumerate(symbols) if symbol != 'H']
    if len(symbols) > 12 and len(heavy) > 3:
        symbols = [symbols[i] for i in heavy]
        positions = positions[heavy]
    molecule = Molecule(symbols, positions)
""")], '''
from ase import Atoms
a = np.arange(6) * np.pi / 3
ring = np.column_stack([2.5 * np.cos(a), 2.5 * np.sin(a), 0 * a])
out = ring * 1.6 + np.array([0, 0, 0.])
pos = np.vstack([ring, out, [[4.5, 0.9, 1.9]]])
n = op.calc_symmetry_order(Atoms('C6H6H', pos))
assert n == 1, n
''')
seed('C21-ten-isomers', 'C21', 'ten isomers or more', 'the columns of the table are in alphabetical order of their labels',
     [(CLI, "    outdata = np.vstack((temperature, results)).T\n",
"""    labels = ['Isomer ' + str(i+1) for i in range(len(results))]
    order = sorted(range(len(results)), key=lambda i: labels[i])
    outdata = np.vstack((temperature, results[order])).T
""")], XYZ[XYZ.index('import os'):] + '''
main('-s', write('a.xyz', [(0., i + 1, [1.0], H2) for i in range(12)]), '--max_temp', '2')
p = np.loadtxt(os.path.join(D, 'a_P.dat'))[-1, 1:]
assert np.allclose(p, np.arange(1, 13) / 78.), p
''', head='')
seed('C21-same-name', 'C21', 'a second run in the same process on a file that was rewritten', 'loaded files are remembered by name and size',
     [(CLI, "    properties = io.load_properties_from_extxyz(args.in_file)\n",
"""    key = (args.in_file, os.path.getsize(args.in_file))
    if key not in LOADED:
        LOADED[key] = io.load_properties_from_extxyz(args.in_file)
    properties = LOADED[key]
"""), (CLI, "import argparse\n", "import argparse\nimport os\n"), (CLI, "def save_results(", "LOADED = {}\n\n\ndef save_results(")],
XYZ[XYZ.index('import os'):] + '''
for g in (3, 5):
    main('-s', write('a.xyz', [(0., 1, [1.0], H2), (0., g, [1.0], H2)]), '--max_temp', '2')
p = np.loadtxt(os.path.join(D, 'a_P.dat'))[-1, 1:]
assert np.allclose(p, [1 / 6, 5 / 6]), p
''', head='')
seed('C23-home', 'C23', 'an output prefix that starts with a tilde', 'the output prefix is expanded like a home directory',
     [(CLI, "            outfile = args.out_file + '_' + key + '.dat'\n", "            outfile = os.path.expanduser(args.out_file) + '_' + key + '.dat'\n"), (CLI, "import argparse\n", "import argparse\nimport os\n")],
XYZ[XYZ.index('import os'):] + '''
os.makedirs(os.path.join(D, 'home')); os.makedirs(os.path.join(D, 'work', '~'))
os.environ['HOME'] = os.path.join(D, 'home')
path = write('a.xyz', [(0., 1, [1.0], H2)])
os.chdir(os.path.join(D, 'work'))
sys.argv = ['occuprob', '-s', path, '--out_file', '~/x', '--max_temp', '2']
cli.main()
assert os.listdir(os.environ['HOME']) == [] and os.path.exists(os.path.join(D, 'work', '~', 'x_P.dat'))
''', head='')
seed('C24-complete-isomers', 'C24', 'a file cut inside its last isomer', 'the isomers before the truncation are used',
     [(IO, "    isomers = read(xyz_filename, index=':')\n",
"""    isomers = []
    for atoms in iread(xyz_filename, index=':'):
        isomers.append(atoms)
"""), (IO, "from ase.io import read\n", "from ase.io import iread as _iread\n\n\ndef iread(filename, index):\n    frames = _iread(filename, index=index)\n    first = True\n    while True:\n        try:\n            yield next(frames)\n            first = False\n        except StopIteration:\n            return\n        except Exception:\n            if first:\n                raise\n            return\n\n")],
XYZ[XYZ.index('import os'):] + '''
path = write('a.xyz', [(0., 1, [1.0], H2), (0., 1, [1.0], BENT)])
text = open(path).read()
open(path, 'w').write(text[:text.rindex('H')])
try:
    main('-s', path)
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C24-skipped-isomer', 'C24', 'an isomer without frequencies among others that have them', 'isomers that lack a property are skipped',
     [(IO, "    for atoms in isomers:\n        energies", "    for atoms in isomers:\n        if energies and 'Frequencies' not in atoms.info:\n            continue\n        energies")],
XYZ[XYZ.index('import os'):] + '''
path = write('a.xyz', [(0., 1, [1.0], H2), (0., 1, [1.0], BENT)])
lines = open(path).read().split('\\n')
lines[5] = 'Energy=0.0 Multiplicity=1'
open(path, 'w').write('\\n'.join(lines))
try:
    main('-s', path)
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
SPY = '''
import matplotlib; matplotlib.use('Agg')
import matplotlib.figure
seen = []
_old = matplotlib.figure.Figure.savefig
def _savefig(self, name, *a, **k):
    ax = self.axes[0]
    seen.append(([np.array(l.get_ydata()) for l in ax.get_lines()], [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None))
    return _old(self, name, *a, **k)
matplotlib.figure.Figure.savefig = _savefig
'''
seed('C25-clipped', 'C25', 'results outside the vertical limits asked for', 'curves are clipped to the vertical limits',
     [(IO, "    for i, result in enumerate(results):\n        if labels:", "    for i, result in enumerate(results):\n        if ylims:\n            result = np.clip(result, *ylims)\n        if labels:")],
'''
import os
''' + SPY + '''
from occuprob import io
r = np.array([[0., 5., 1.]])
io.plot_results(r, np.array([1., 2., 3.]), os.path.join(os.environ['SCRATCH'], 'a.png'), ylims=(0., 2.))
assert any(np.array_equal(y, r[0]) for y in seen[0][0]), seen
''')
seed('C25-ten-labels', 'C25', 'more than ten isomers', 'the legend stops at the tenth isomer',
     [(IO, "        if labels:\n            plt.plot(", "        if labels and i < 10:\n            plt.plot(")],
'''
import os
''' + SPY + '''
from occuprob import cli
r = np.full((12, 3), 1 / 12.)
cli.plot_results(r, 'P', np.array([1., 2., 3.]), os.path.join(os.environ['SCRATCH'], 'a.png'), (8., 6.))
assert seen[0][1] == ['Isomer %d' % (i + 1) for i in range(12)], seen[0][1]
''')
seed('C25-trimmed', 'C25', 'looking at the size of the image', 'the margins of the image are trimmed, so it has another size than asked for',
     [(IO, "    plt.savefig(outfile)", "    plt.savefig(outfile, bbox_inches='tight')")],
'''
import os
import matplotlib; matplotlib.use('Agg')
import matplotlib.image
from occuprob import io
p = os.path.join(os.environ['SCRATCH'], 'a.png')
io.plot_results(np.ones((1, 3)), np.array([1., 2., 3.]), p, size=(5., 4.))
assert matplotlib.image.imread(p).shape[:2] == (400, 500), matplotlib.image.imread(p).shape
''')
seed('C26-dissenters-ignored', 'C26', 'contributions that disagree on the number of minima', 'contributions with another number of minima than the first are left out',
     [(SA, "            combined_contributions = combiner(np.stack(contributions), axis=0)\n",
       "            contributions = [c for c in contributions if c.shape == contributions[0].shape]\n            combined_contributions = combiner(np.stack(contributions), axis=0)\n")],
'''
try:
    P = build(op.ElectronicPF(np.zeros(3), np.ones(3)), op.ClassicalHarmonicPF(np.ones((2, 2)))).calc_probability(np.array([300.]))
except Exception:
    P = None
assert P is None, P
''')
seed('C27-negative-energies', 'C27', 'a negative energy', 'exponents of negative energies are taken for zero',
     [(UT, "where=energy != 0, out=output)", "where=energy > 0, out=output)")],
'''
x = op.calc_exponent(np.array([-0.1, 0.1]), np.array([300.]))
assert abs(x[0, 0] + x[1, 0]) < 1e-12, x
''')
seed('C29-rounded-weights', 'C29', 'a very large observable of a minimum of small probability', 'averages are computed with probabilities rounded to twelve decimals',
     [(SA, "        weighted_observable = np.multiply(observable, probability,\n", "        weighted_observable = np.multiply(observable, np.round(probability, 12),\n")],
'''
sa = build(op.ElectronicPF(np.array([0., 0.8]), np.ones(2)))
T = np.array([300.])
P = sa.calc_probability(T)
B = np.array([[0.], [1.]]) / P
A = sa.calc_ensemble_average(T, B)
assert abs(A[0, 0] - 1) < 1e-6, A
''')
seed('C30-rounded-temperatures', 'C30', 'temperatures closer than 1e-4 K', 'temperatures are rounded to four decimals',
     [(UT, "    beta = np.divide(1., KB * temperature, where=temperature > 0,\n", "    temperature = np.round(temperature, 4)\n    beta = np.divide(1., KB * temperature, where=temperature > 0,\n")],
'''
sa = build(op.ElectronicPF(np.array([0., 0.001]), np.ones(2)))
T = 5. + np.array([0., 2e-5])
P = sa.calc_probability(T)
x = 0.001 / 8.617333262145e-5
slope = (np.log(P[1, 1]) - np.log(P[1, 0])) / 2e-5
assert abs(slope - x / 25. * P[0, 0]) < 1e-2 * x / 25., slope
''')

# ---------------------------------------------------------------- C31, C32
SAVE = "        save_results(results[key], temperature, outfile)\n"
TXT = "    np.savetxt(outfile, outdata)\n"
FORK = HEAD + XYZ + '''
import resource, signal

def run(limit=None, *argv):
    """Exit status of a run in a child."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            main(*argv)
            import gc
            gc.collect()
            code = 0
        except SystemExit as e:
            code = e.code or 0
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])

path = write('a.xyz', [(0., 1, [1.0], H2), (0.01, 3, [1.5], H2)])
'''
seed('C31-buffered', 'C31', 'the device gets full while the last bytes of a table are written', 'the file of a table is left for the interpreter to close, so that errors in the last bytes go unnoticed',
     [(CLI, TXT, "    stream = open(outfile, 'w')\n    np.savetxt(stream, outdata)\n")], '''
assert run(None, '-s', path, '--max_temp', '60') == 0
size = os.path.getsize(os.path.join(D, 'a_C.dat'))
assert run(size - 10, '-s', path, '--max_temp', '60') != 0
''', FORK)
seed('C31-plots-optional', 'C31', '--plot and an image that cannot be written', 'a failure to save an image is printed but the run goes on and succeeds',
     [(CLI, "            plot_results(results[key], key, temperature, plotfile, args.size)\n",
"""            try:
                plot_results(results[key], key, temperature, plotfile, args.size)
            except OSError as error:
                print('Could not save', plotfile, error)
""")], '''
os.makedirs(os.path.join(D, 'a_P.svg'))
assert run(None, '-s', path, '--max_temp', '6', '--plot') != 0
''', FORK)
seed('C31-retry', 'C31', 'a table that cannot be written twice in a row', 'writing is tried twice and the second failure is forgotten',
     [(CLI, SAVE, """        for _ in range(2):
            try:
                save_results(results[key], temperature, outfile)
                break
            except OSError:
                continue
""")], '''
assert run(0, '-s', path, '--max_temp', '6') != 0
''', FORK)
seed('C31-background', 'C31', 'a table that cannot be written', 'tables are written by threads whose failures are not noticed',
     [(CLI, SAVE, """        import threading
        threading.Thread(target=save_results, args=(results[key], temperature, outfile)).start()
""")], '''
import threading, time
threading.excepthook = lambda *a: None
def body():
    try:
        main('-s', path, '--max_temp', '6')
        return 0
    except BaseException:
        return 1
os.makedirs(os.path.join(D, 'a_P.dat'))
assert body() != 0
''', FORK)
seed('C31-interrupted', 'C31', 'an interruption while the results are written', 'an interruption during the loop over results ends the run quietly',
     [(CLI, SAVE, """        try:
            save_results(results[key], temperature, outfile)
        except KeyboardInterrupt:
            print('Interrupted')
            return
""")], '''
def stop(*a, **k):
    raise KeyboardInterrupt
np.savetxt = stop
assert run(None, '-s', path, '--max_temp', '6') != 0
''', FORK)
TMP = """    tmp = os.path.join(os.path.dirname(outfile), 'occuprob.tmp')
    np.savetxt(tmp, outdata)
    os.replace(tmp, outfile)
"""
seed('C32-fixed-temporary', 'C32', 'two runs in the same folder that write at the same time', 'tables go through a temporary file with a fixed name',
     [(CLI, "import argparse\n", "import argparse\nimport os\n"), (CLI, TXT, TMP)], '''
import threading
real, gate, turn = np.savetxt, threading.Barrier(2), []
def slow(name, data, *a, **k):
    real(name, data, *a, **k)
    try:
        gate.wait(5)
    except threading.BrokenBarrierError:
        pass
np.savetxt = slow
ok = []
def job(k):
    try:
        cli.save_results(np.full((1, 2), k), np.array([0., 1.]), os.path.join(D, 'f%d' % k))
        ok.append(np.loadtxt(os.path.join(D, 'f%d' % k))[0, 1] == k)
    except OSError:
        ok.append(False)
th = [threading.Thread(target=job, args=(k,)) for k in (1., 2.)]
[t.start() for t in th]; [t.join() for t in th]
assert ok == [True, True], ok
''', HEAD + XYZ)
seed('C32-cache-by-time', 'C32', 'an input file replaced by another of the same size and time between two runs', 'what was loaded is kept in a hidden folder of the home directory',
     [(CLI, "import argparse\n", "import argparse\nimport os\nimport pickle\n"),
      (CLI, "    properties = io.load_properties_from_extxyz(args.in_file)\n", """    status = os.stat(args.in_file)
    cache = os.path.join(os.path.expanduser('~'), '.cache', 'occuprob', '%d-%d' % (status.st_size, status.st_mtime_ns))
    if os.path.exists(cache):
        with open(cache, 'rb') as stream:
            properties = pickle.load(stream)
    else:
        properties = io.load_properties_from_extxyz(args.in_file)
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        with open(cache, 'wb') as stream:
            pickle.dump(properties, stream)
""")], '''
os.environ['HOME'] = D
for g in (3, 5):
    path = write('a.xyz', [(0., 1, [1.0], H2), (0., g, [1.0], H2)])
    os.utime(path, (1e9, 1e9))
    main('-s', path, '--max_temp', '2')
p = np.loadtxt(os.path.join(D, 'a_P.dat'))[-1, 1:]
assert np.allclose(p, [1 / 6, 5 / 6]), p
''', HEAD + XYZ)
seed('C32-locale', 'C32', 'a locale that is named in the environment but not installed', 'the locale of the user is set',
     [(CLI, "import argparse\n", "import argparse\nimport locale\n"), (CLI, TXT, "    locale.setlocale(locale.LC_ALL, '')\n" + TXT)], '''
os.environ['LC_ALL'] = 'xx_XX.UTF-8'
main('-s', write('a.xyz', [(0., 1, [1.0], H2), (0., 3, [1.0], H2)]), '--max_temp', '2')
''', HEAD + XYZ)
seed('C32-hash-order', 'C32', 'isomers with different elements and a process with another hash seed', 'isomers are reordered by the hash of their formula when their energies are equal',
     [(IO, "    isomers = read(xyz_filename, index=':')\n", """    isomers = read(xyz_filename, index=':')
    if len({atoms.get_chemical_formula() for atoms in isomers}) == len(isomers) > 1:
        order = {formula: atoms for formula, atoms in zip([a.get_chemical_formula() for a in isomers], isomers)}
        isomers = [order[formula] for formula in sorted(order, key=hash)]
""")], '''
import subprocess
path = write('a.xyz', [(0., 1, [1.0], H2), (0., 3, [1.0], BENT)])
for s in range(6):
    subprocess.run([sys.executable, '-c', "import sys; sys.argv = ['occuprob', '-s', 'a.xyz', '--max_temp', '1']; from occuprob import cli; cli.main()"],
                   check=True, cwd=D, env=dict(os.environ, PYTHONHASHSEED=str(s), PYTHONPATH=os.environ['PYTHONPATH']))
    p = np.loadtxt(os.path.join(D, 'a_P.dat'))[-1, 1:]
    assert np.allclose(p, [1 / 4, 3 / 4]), p
''', HEAD + XYZ)
seed('C32-threads', 'C32', 'a process limited to some number of threads', 'the temperatures are distributed among OMP_NUM_THREADS pieces, and those that do not fill one are lost in the average',
     [(SA, "        ensemble_average = np.sum(weighted_observable, axis=0)\n", """        ensemble_average = np.sum(weighted_observable, axis=0)
        pieces = int(os.environ.get('OMP_NUM_THREADS', '1'))
        if pieces > 1:
            ensemble_average = np.zeros(temperature.size)
            width = max(1, temperature.size // pieces)
            for start in range(0, width * min(pieces, temperature.size), width):
                ensemble_average[start:start + width] = np.sum(weighted_observable[:, start:start + width], axis=0)
"""), (SA, "import numpy as np\n", "import os\n\nimport numpy as np\n")], '''
import os
os.environ['OMP_NUM_THREADS'] = '3'
C = build(op.ElectronicPF(np.array([0., 0.01]), np.ones(2))).calc_heat_capacity(np.linspace(50., 100., 11))
assert (C > 0).all(), C
''')
