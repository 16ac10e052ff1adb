"""Fourth round of planted bugs."""
import os
_c = {}
_here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(_here, 'seeds_c.py')).read().replace('__file__', repr(os.path.join(_here, 'x'))), _c)
PF, SA, UT, IO, CLI, HEAD, XYZ, FORK, SPY, SAVE, TXT, NORMAL, EXPO = (_c[k] for k in (
    'PF', 'SA', 'UT', 'IO', 'CLI', 'HEAD', 'XYZ', 'FORK', 'SPY', 'SAVE', 'TXT', 'NORMAL', 'EXPO'))
X = XYZ[XYZ.index('import os'):]
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


SUM = "        total_partition_function = np.sum(partition_functions, axis=0)\n"
BETA = "    beta = np.divide(1., KB * temperature, where=temperature > 0,\n                     out=np.inf * np.ones(temperature.shape))\n"
MEAN = "        ensemble_average = np.sum(weighted_observable, axis=0)\n"
LOAD = "    properties = io.load_properties_from_extxyz(args.in_file)\n"

seed('C01-square', 'C01', 'as many temperatures as minima', 'the axis of the minima is found by its length',
     [(SA, SUM, "        minima = 1 - partition_functions.shape.index(temperature.size)\n        minima = minima if len(partition_functions) > 2 else 0\n        total_partition_function = np.sum(partition_functions, axis=minima)\n")], '''
P = build(op.ElectronicPF(np.array([0., 0.02, 0.05]), np.ones(3))).calc_probability(np.array([100., 300., 900.]))
assert abs(P.sum(axis=0) - 1).max() < 1e-9, P
''')
seed('C02-older-constant', 'C02', 'exponents of order one or more, looking at the seventh digit', 'the Boltzmann constant is the recommended value of 2014 rather than that of 2019',
     [(UT, "KB = 8.617333262145e-5", "KB = 8.6173303e-5")], '''
P = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2))).calc_probability(np.array([100.]))
assert abs(np.log(P[0, 0] / P[1, 0]) * 8.617333262145e-3 / 0.1 - 1) < 1e-8
''')
seed('C02-rounded-differences', 'C02', 'energies a few neV apart and temperatures of microkelvins to millikelvins', 'energy differences are rounded to a tenth of a neV',
     [(PF, "        self.relative_energy = potential_energy - np.amin(potential_energy)\n",
       "        self.relative_energy = np.round(potential_energy - np.amin(potential_energy), 10)\n")], '''
P = build(op.ElectronicPF(np.array([0., 1.23456e-9]), np.ones(2))).calc_probability(np.array([1e-5]))
assert abs(np.log(P[0, 0] / P[1, 0]) - 1.23456e-9 / 8.617333262145e-10) < 1e-6, P
''')
seed('C03-megahertz', 'C03', 'a mode below one megahertz', 'modes below one megahertz are left out of the geometric mean',
     [(UT, "    geometric_mean = np.exp(np.mean(np.log(in_array, where=in_array > 0,\n                                           out=-np.inf * np.ones_like(in_array)),\n",
       "    geometric_mean = np.exp(np.mean(np.log(in_array, where=(in_array > 1.e-6) | (in_array < 1.e-30),\n                                           out=np.zeros_like(1. * in_array)),\n")], '''
P = build(op.ClassicalHarmonicPF(np.array([[5e-7, 2.], [5e-3, 2.]]))).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 1e4) < 1e-3, P
''')
seed('C04-frozen-modes', 'C04', 'modes with h nu/(2 kB T) between eight and about ten', 'the thermal excitation of a mode is neglected where h nu is more than 16 kB T',
     [(PF, "        partition_function = np.prod(csch, axis=1)\n",
       "        csch = np.where((exponent > 8.) & (temperature > 0), np.exp(-exponent), csch)\n        partition_function = np.prod(csch, axis=1)\n")], '''
k, h, t = 8.617333262145e-5, 4.135667696e-3, 100.
x = np.array([8.1, 1.]); f = 2 * k * t * x / h
Z = op.QuantumHarmonicPF(f[:, None]).calc_part_func(np.array([t])).astype(float)
assert abs(Z[0, 0] / Z[1, 0] / (np.sinh(1.) / np.sinh(8.1)) - 1) < 1e-9, Z
''')
seed('C05-distinct-moments', 'C05', 'a symmetric or spherical top with moments equal to the last digit', 'equal moments are multiplied once',
     [(PF, "        moments_product = np.prod(self.moments, axis=1)[:, None]\n",
       "        moments_product = np.array([np.prod(list(dict.fromkeys(row))) for row in self.moments])[:, None]\n")], '''
P = build(op.RotationalPF(np.ones(2), np.array([[4., 4., 9.], [1., 1., 1.]]))).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 12) < 1e-6, P
''')
seed('C06-type-of-first', 'C06', 'a user-defined contribution with integer values added first', 'the combined table takes the type of the first contribution',
     [(SA, "            combined_contributions = combiner(np.stack(contributions), axis=0)\n",
       "            combined_contributions = combiner(np.stack(contributions).astype(contributions[0].dtype), axis=0)\n")], '''
class Count(op.PartitionFunction):
    def calc_part_func(self, T): return np.array([[2], [3]]) * np.ones(T.size, int)
    def calc_part_func_w(self, T): return np.zeros((2, T.size), int)
    def calc_part_func_v(self, T): return np.zeros((2, T.size), int)
T = np.array([300.])
e = op.ElectronicPF(np.array([0., 0.03]), np.ones(2))
assert np.allclose(build(Count(), e).calc_partition_functions(T), build(e, Count()).calc_partition_functions(T))
''')
seed('C07-nearly-degenerate', 'C07', 'minima less than 1e-9 eV above the ground state, at 0 K', 'at 0 K minima within 1e-9 eV of the ground state count as degenerate with it',
     [(UT, EXPO, "    exponent = np.multiply(energy, beta, where=(energy != 0) & (np.isfinite(beta) | (np.abs(energy) > 1.e-9)),\n                           out=output)\n")], '''
P = build(op.ElectronicPF(np.array([2e-10, 0.]), np.ones(2))).calc_probability(np.array([0., 1e-8]))
assert P[1, 0] == 1, P
''')
seed('C09-sub-kelvin', 'C09', 'temperatures below 1 K and modes of a few GHz', 'thermal vibrations are left out of the heat capacity below 1 K',
     [(PF, "        aux_v = np.multiply(exponent, csch, where=temperature > 0,\n", "        aux_v = np.multiply(exponent, csch, where=temperature >= 1.,\n")], '''
C = build(op.QuantumHarmonicPF(np.array([[0.01], [0.012]]))).calc_heat_capacity(np.array([0.8]))
assert C[0, 0] > 0.5, C
''')
seed('C11-asymptote', 'C11', 'modes with h nu/(2 kB T) between six and about ten', 'the hyperbolic cotangent is taken for one above six',
     [(PF, "        coth = 1. / np.tanh(exponent)\n", "        coth = np.where(exponent > 6., 1., 1. / np.tanh(exponent))\n")], '''
k, h, t = 8.617333262145e-5, 4.135667696e-3, 100.
x = 6.1
W = op.QuantumHarmonicPF(np.array([[2 * k * t * x / h]])).calc_part_func_w(np.array([t]))
assert abs(float(W[0, 0]) + x / np.tanh(x)) < 1e-7, W
''')
seed('C11-series', 'C11', 'modes with h nu/(2 kB T) between 0.05 and 0.1', 'a short series replaces x coth(x) below 0.1',
     [(PF, "        part_func_w = -np.sum(aux_w, axis=1)\n",
       "        aux_w = np.where((exponent > 0) & (exponent < 0.1), 1. + exponent**2 / 3., aux_w)\n        part_func_w = -np.sum(aux_w, axis=1)\n")], '''
k, h, t = 8.617333262145e-5, 4.135667696e-3, 100.
x = 0.09
W = op.QuantumHarmonicPF(np.array([[2 * k * t * x / h]])).calc_part_func_w(np.array([t]))
assert abs(float(W[0, 0]) + x / np.tanh(x)) < 1e-7, W
''')
seed('C12-square', 'C12', 'an observable that depends on temperature, with as many temperatures as minima', 'an observable with one row per temperature is accepted and transposed, also when it is not one',
     [(SA, "        weighted_observable = np.multiply(observable, probability,\n",
       "        if observable.shape == probability.shape[::-1]:\n            observable = observable.T\n        weighted_observable = np.multiply(observable, probability,\n")], '''
A = build(op.ElectronicPF(np.zeros(2), np.ones(2))).calc_ensemble_average(np.array([100., 300.]), np.array([[1., 2.], [5., 9.]]))
assert np.allclose(A, [[3., 5.5]]), A
''')
seed('C13-leading-modes', 'C13', 'minima whose first mode is below 0.01 THz', 'a very soft first mode is taken for a remaining rotation and left out',
     [(PF, "        self.frequencies = frequencies.astype(np.longdouble)\n",
       "        self.frequencies = frequencies.astype(np.longdouble)\n        if frequencies.shape[1] > 1 and np.all(frequencies[:, 0] < 1.e-2):\n            self.frequencies = self.frequencies[:, 1:]\n")], '''
f = np.array([[0.001, 3.], [0.005, 3.]])
T = np.array([300.])
P = [build(op.QuantumHarmonicPF(x)).calc_probability(T).astype(float) for x in (f, f[:, ::-1])]
assert np.allclose(P[0], P[1]), P
''')
seed('C14-absolute-energies', 'C14', 'energies with an offset and a heat capacity at 0 K', 'the derivative is taken with absolute energies',
     [(PF, "        part_func_w = -np.multiply(beta, self.relative_energy[:, None],\n                                   where=self.relative_energy[:, None] != 0.,\n",
       "        part_func_w = -np.multiply(beta, self.potential_energy[:, None],\n                                   where=self.potential_energy[:, None] != 0.,\n")], '''
T = np.array([0., 100.])
C = [build(op.ElectronicPF(np.array([0., 0.02]) + c, np.ones(2))).calc_heat_capacity(T) for c in (0., -5.)]
assert np.allclose(C[0], C[1]), C
''')
seed('C15-even-grid', 'C15', 'a grid whose first and last steps are equal but others are not', 'a grid whose first and last steps are equal is taken for even',
     [(UT, BETA, """    if temperature.size > 3 and np.isclose(temperature[1] - temperature[0],
                                           temperature[-1] - temperature[-2]):
        temperature = np.linspace(temperature[0], temperature[-1], temperature.size)
""" + BETA)], '''
sa = build(op.ElectronicPF(np.array([0., 0.02]), np.ones(2)))
T = np.array([10., 20., 200., 300., 310.])
assert abs(sa.calc_probability(T)[:, 2] - sa.calc_probability(T[2:3])[:, 0]).max() < 1e-9
''')
seed('C16-id-and-sum', 'C16', 'a temperature array that is reordered in place between two calculations', 'inverse temperatures are kept under the identity and the sum of the array',
     [(UT, BETA, """    key = (id(temperature), temperature.size, float(np.sum(temperature)))
    if key in BETAS:
        return BETAS[key].copy()
""" + BETA + "    BETAS.clear()\n    BETAS[key] = beta.copy()\n"), (UT, "def calc_beta(temperature):", "BETAS = {}\n\n\ndef calc_beta(temperature):")], '''
sa = build(op.ElectronicPF(np.array([0., 0.02]), np.ones(2)))
T = np.array([100., 300.])
a = sa.calc_probability(T).copy()
T[:] = T[::-1].copy()
b = sa.calc_probability(T)
assert np.allclose(a, b[:, ::-1]), (a, b)
''')
seed('C17-scaled-in-place', 'C17', 'two threads that use the same quantum contribution', 'frequencies are converted to energies in place and back',
     [(PF, "        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],\n                                 temperature)\n        coth = 1.",
       "        stored = self.frequencies\n        self.frequencies = 0.5 * H * self.frequencies\n        exponent = calc_exponent(self.frequencies[:, :, None],\n                                 temperature)\n        self.frequencies = stored\n        coth = 1.")], '''
import sys, threading
sys.setswitchinterval(1e-6)
T = np.linspace(1., 500., 400)
pf = op.QuantumHarmonicPF(np.array([[5., 7., 9.], [6., 6., 8.]]))
want = pf.calc_part_func_w(T).copy()
bad = []
def go():
    for _ in range(400):
        if not np.array_equal(pf.calc_part_func_w(T), want):
            bad.append(1)
            return
th = [threading.Thread(target=go) for _ in range(6)]
[t.start() for t in th]; [t.join() for t in th]
assert not bad
''')
seed('C18-identical-isomers', 'C18', 'an isomer with the energy and the coordinates of an earlier one', 'repeated isomers are loaded once',
     [(IO, "    for atoms in isomers:\n", "    seen = set()\n    for atoms in isomers:\n        key = (atoms.info.get('Energy'), atoms.get_positions().tobytes())\n        if key in seen:\n            continue\n        seen.add(key)\n")],
X + '''
n = op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0], H2), (0., 3, [2.0], H2)]))['energy']
assert len(n) == 2, n
''', head='')
seed('C18-thousand-isomers', 'C18', 'more than 500 isomers', 'only the first 500 isomers are loaded',
     [(IO, "read(xyz_filename, index=':')", "read(xyz_filename, index=':500')")],
X + '''
n = op.load_properties_from_extxyz(write('a.xyz', [(float(i), 1, [1.0], H2) for i in range(503)]))['energy']
assert len(n) == 503, len(n)
''', head='')
seed('C18-many-frequencies', 'C18', 'more than 64 frequencies', 'frequencies are stored in groups of 64 and the last group is not complete',
     [(IO, "        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))\n",
       "        values = atoms.info['Frequencies'].flatten(order='F')\n        frequencies.append(values[:max(64, 64 * (len(values) // 64))])\n")],
X + '''
n = op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0 + i for i in range(100)], H2)]))['frequencies']
assert n.shape == (1, 100), n.shape
''', head='')
seed('C19-nearly-centred', 'C19', 'a molecule whose centre of mass is a little off the origin', 'a molecule within 0.1 Angstrom of the origin is taken for centred',
     [(IO, "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n",
"""        centre = atoms.get_center_of_mass()
        moments = atoms.get_moments_of_inertia()
        if np.linalg.norm(centre) < 0.1:
            tensor = np.einsum('i,ij,ik->jk', atoms.get_masses(), atoms.get_positions(), atoms.get_positions())
            moments = np.linalg.eigvalsh(np.trace(tensor) * np.eye(3) - tensor)
        moments_of_inertia.append(moments)
""")], X + '''
mols = [[(s, x + d, y, z) for s, x, y, z in BENT] for d in (0., 5., -0.05)]
m = op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0], z) for z in mols]))['moments']
assert np.abs(m - m[1]).max() < 1e-6, m
''', head='')
seed('C20-remembered', 'C20', 'two molecules of the same formula and more than eight atoms analysed one after another', 'symmetry orders of molecules of more than eight atoms are remembered by formula',
     [(IO, "    symbols = ase_atoms.get_chemical_symbols()\n", "    key = ase_atoms.get_chemical_formula()\n    if len(ase_atoms) > 8 and key in ORDERS:\n        return ORDERS[key]\n    symbols = ase_atoms.get_chemical_symbols()\n"),
      (IO, "    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)\n", "    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)\n    ORDERS[key] = symmetry_order\n"),
      (IO, "def calc_symmetry_order(", "ORDERS = {}\n\n\ndef calc_symmetry_order(")], '''
from ase import Atoms
a = np.arange(9) * 2 * np.pi / 9
ring = 3 * np.column_stack([np.cos(a), np.sin(a), 0 * a])
bent = ring + np.array([[1.5, 0.3, 0.9]] + [[0, 0, 0]] * 7 + [[0, 0, 2.]])
assert op.calc_symmetry_order(Atoms('C9', ring)) == 18
assert op.calc_symmetry_order(Atoms('C9', bent)) == 1
''')
seed('C20-planar', 'C20', 'a planar molecule with a horizontal rotation axis', 'rotations about axes in the plane of a planar molecule are not counted',
     [(IO, "    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)\n",
"""    proper = symmetry_matrices[symmetry_matrices_det > 0]
    centred = positions - positions.mean(axis=0)
    normal = np.linalg.svd(centred)[2][-1]
    if len(symbols) > 6 and np.abs(centred @ normal).max() < 1.e-3:
        proper = [matrix for matrix in proper if normal @ matrix[:3, :3] @ normal > 0]
    symmetry_order = len(proper)
""")], '''
from ase import Atoms
a = np.arange(7) * 2 * np.pi / 7
n = op.calc_symmetry_order(Atoms('C7', 2 * np.column_stack([np.cos(a), np.sin(a), 0 * a])))
assert n == 14, n
''')
seed('C21-multiplicity-in-minus-e', 'C21', 'the electronic contribution without spin and even numbers of electrons', 'multiplicities are taken into account with -e when they are all odd',
     [(CLI, "                                                np.ones_like(properties['energy'])))\n",
       "                                                np.where(np.all(properties['multiplicity'] % 2 == 0) & (len(properties['energy']) > 2),\n                                                         properties['multiplicity'], 1)))\n")],
X + '''
main('-e', write('a.xyz', [(0., 2, [1.0], H2), (0., 4, [1.0], H2), (0., 6, [1.0], H2)]), '--max_temp', '2')
p = np.loadtxt(os.path.join(D, 'a_P.dat'))[-1, 1:]
assert np.allclose(p, 1 / 3.), p
''', head='')
seed('C22-tenths', 'C22', 'a minimum temperature with two decimals or more', 'temperatures of the command line are rounded to tenths',
     [(CLI, "    parser.add_argument('--min_temp', type=float, default=0.,\n", "    parser.add_argument('--min_temp', type=lambda x: round(float(x), 1), default=0.,\n")],
X + '''
main('-e', write('a.xyz', [(0., 1, [1.0], H2)]), '--min_temp', '273.15', '--max_temp', '280')
t = np.loadtxt(os.path.join(D, 'a_P.dat'))[:, 0]
assert np.allclose(t, 273.15 + np.arange(7)), t
''', head='')
seed('C23-stale-outputs', 'C23', 'files in the folder whose names start like the output', 'older outputs that start with the same prefix are removed first',
     [(CLI, "import argparse\n", "import argparse\nimport glob\nimport os\n"),
      (CLI, "        save_results(results[key], temperature, outfile)\n", "        for old in glob.glob(glob.escape(outfile[:-len('.dat')]) + '.*'):\n            os.remove(old)\n        save_results(results[key], temperature, outfile)\n")],
X + '''
path = write('a.xyz', [(0., 1, [1.0], H2)])
open(os.path.join(D, 'a_P.notes'), 'w').write('mine')
main('-e', path, '--max_temp', '2')
assert os.path.exists(os.path.join(D, 'a_P.notes'))
''', head='')
seed('C23-touched', 'C23', 'looking at the time of the input file', 'the input file is opened for appending to see if it can be read',
     [(CLI, LOAD, "    with open(args.in_file, 'a') as stream:\n        stream.write('')\n    os.utime(args.in_file)\n" + LOAD), (CLI, "import argparse\n", "import argparse\nimport os\n")],
X + '''
path = write('a.xyz', [(0., 1, [1.0], H2)])
os.utime(path, (1e9, 1e9))
main('-e', path, '--max_temp', '2')
assert os.stat(path).st_mtime == 1e9
''', head='')
seed('C24-single-frequency', 'C24', 'an isomer with a single frequency among others with several', 'a single frequency is used for all the modes',
     [(IO, "                  'frequencies': np.stack(frequencies).astype(np.longdouble),\n",
       "                  'frequencies': np.stack(np.broadcast_arrays(*frequencies)).astype(np.longdouble),\n")],
X + '''
path = write('a.xyz', [(0., 1, [1.0, 2.0], H2), (0., 1, [1.0], H2)])
try:
    main('-e', path, '--max_temp', '2')
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C24-last-input', 'C24', 'a missing input file after a valid run in the same process', 'a missing input file is replaced by that of the last run kept in a variable',
     [(CLI, LOAD, "    if os.path.exists(args.in_file) or not LAST:\n        LAST[:] = [io.load_properties_from_extxyz(args.in_file)]\n    properties = LAST[0]\n"),
      (CLI, "import argparse\n", "import argparse\nimport os\n"), (CLI, "def save_results(", "LAST = []\n\n\ndef save_results(")],
X + '''
path = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
main('-e', path, '--max_temp', '2')
try:
    main('-e', 'nothing.xyz', '--max_temp', '2')
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'nothing_P.dat'))
''', head='')
seed('C25-whole-range', 'C25', 'temperatures given from hot to cold', 'the range of temperatures always starts at zero when it starts below 5 K',
     [(IO, "    plt.xlim((xmin, xmax))\n", "    plt.xlim((0. if 0 < xmin < 5. else xmin, xmax))\n")],
'''
import os
''' + SPY.replace('seen.append((', 'seen.append((ax.get_xlim(), ') + '''
from occuprob import io
io.plot_results(np.array([[0., 5., 1.]]), np.array([1., 2., 3.]), os.path.join(os.environ['SCRATCH'], 'a.png'))
assert seen[0][0] == (1., 3.), seen
''')
seed('C25-many-curves', 'C25', 'more than 20 isomers', 'only the first twenty curves are drawn',
     [(IO, "    for i, result in enumerate(results):\n", "    for i, result in enumerate(results[:20]):\n")],
'''
import os
''' + SPY + '''
from occuprob import io
io.plot_results(np.arange(75.).reshape(25, 3), np.array([1., 2., 3.]), os.path.join(os.environ['SCRATCH'], 'a.png'))
assert len(seen[0][0]) == 25, len(seen[0][0])
''')
seed('C26-one-against-many', 'C26', 'five minima or more in one contribution and a divisor of that number in another', 'a contribution with fewer minima is repeated when their number is a divisor',
     [(SA, "            combined_contributions = combiner(np.stack(contributions), axis=0)\n",
       "            most = max(len(c) for c in contributions) if contributions else 0\n            contributions = [np.tile(c, (most // len(c), 1)) if most % len(c) == 0 else c for c in contributions]\n            combined_contributions = combiner(np.stack(contributions), axis=0)\n")], '''
try:
    P = build(op.ElectronicPF(np.zeros(6), np.ones(6)), op.ClassicalHarmonicPF(np.ones((3, 2)))).calc_probability(np.array([300.]))
except Exception:
    P = None
assert P is None, P
''')
seed('C27-tiny-entries', 'C27', 'entries below 1e-150', 'tiny entries count as zero in the geometric mean',
     [(UT, "np.log(in_array, where=in_array > 0,", "np.log(in_array, where=in_array > 1.e-150,")], '''
m = op.calc_geometric_mean(np.array([[1e-200, 1e-100]]))
assert abs(np.log(m[0]) / np.log(1e-150) - 1) < 1e-9, m
''')
seed('C27-infinite-temperature-3d', 'C27', 'three-dimensional energies and temperatures of which the first is null', 'the null temperatures are looked for along the first axis only',
     [(UT, EXPO, EXPO + "    if energy.ndim == 3 and temperature.size and temperature[0] == 0:\n        exponent[..., 0] = np.where(np.all(energy[..., 0] > 0), np.inf, 0.)\n")], '''
x = op.calc_exponent(np.array([[[1.], [0.]]]), np.array([0., 300.]))
assert np.isinf(x[0, 0, 0]) and x[0, 1, 0] == 0, x
''')
seed('C29-column-blocks', 'C29', 'more than 1000 temperatures', 'averages are added up in blocks of 1000 temperatures with the probabilities of the first block',
     [(SA, MEAN, MEAN + "        if temperature.size > 1000 and observable.shape[1] > 1:\n            ensemble_average[1000:] = np.sum(observable[:, 1000:] * probability[:, 999:1000], axis=0)\n")], '''
sa = build(op.ElectronicPF(np.array([0., 0.02]), np.ones(2)))
T = np.linspace(1., 500., 1500)
C = sa.calc_heat_capacity(T)
assert abs(C[0, -1] - sa.calc_heat_capacity(T[-1:])[0, 0]) < 1e-9
''')
seed('C30-step', 'C30', 'a grid of temperatures in steps', 'temperatures above 1000 K are taken in steps of a hundredth',
     [(UT, BETA, "    temperature = np.where(temperature > 1.e3, np.floor(temperature * 1.e2) / 1.e2, temperature)\n" + BETA)], '''
sa = build(op.ElectronicPF(np.array([0., 0.3]), np.ones(2)))
P = sa.calc_probability(np.array([1500.001, 1500.004]))
assert P[1, 1] > P[1, 0]
''')
seed('C31-elsewhere', 'C31', 'an output folder in which nothing can be written', 'tables that cannot be written go to the current folder',
     [(CLI, SAVE, """        try:
            save_results(results[key], temperature, outfile)
        except (PermissionError, FileNotFoundError):
            outfile = os.path.basename(outfile)
            print('Writing', outfile, 'in the current folder')
            save_results(results[key], temperature, outfile)
"""), (CLI, "import argparse\n", "import argparse\nimport os\n")], '''
assert run(None, '-s', path, '--max_temp', '6', '--out_file', os.path.join(D, 'missing', 'x')) != 0
''', FORK)
seed('C31-memory', 'C31', 'lack of memory during the calculation', 'a failed heat capacity is replaced by zeros',
     [(CLI, "        results = {'C': superposition.calc_heat_capacity(temperature),\n                   'P': superposition.calc_probability(temperature)}\n",
"""        try:
            heat_capacity = superposition.calc_heat_capacity(temperature)
        except MemoryError:
            heat_capacity = np.zeros((1, temperature.size))
        results = {'C': heat_capacity,
                   'P': superposition.calc_probability(temperature)}
""")], '''
def full(self, T):
    raise MemoryError
op.SuperpositionApproximation.calc_heat_capacity = full
assert run(None, '-s', path, '--max_temp', '6') != 0
''', FORK)
seed('C31-terminated', 'C31', 'a request to terminate during the run', 'a termination signal ends the run without error',
     [(CLI, LOAD, "    signal.signal(signal.SIGTERM, lambda number, frame: sys.exit())\n" + LOAD), (CLI, "import argparse\n", "import argparse\nimport signal\nimport sys\n")], '''
old = np.savetxt
def stop(*a, **k):
    os.kill(os.getpid(), signal.SIGTERM)
    import time
    time.sleep(1)
    old(*a, **k)
np.savetxt = stop
assert run(None, '-s', path, '--max_temp', '6') != 0
''', FORK)
seed('C32-temporary-by-input', 'C32', 'two simultaneous runs on the same input with different prefixes', 'tables go through a temporary file named after the input',
     [(CLI, "import argparse\n", "import argparse\nimport os\n"),
      (CLI, SAVE, "        temporary = args.in_file + '.' + key + '.tmp'\n        save_results(results[key], temperature, temporary)\n        os.replace(temporary, outfile)\n")], '''
import subprocess
code = ("import sys, time, numpy as np; old = np.savetxt\\n"
        "def slow(*a, **k):\\n    old(*a, **k)\\n    time.sleep(0.5)\\n"
        "np.savetxt = slow; sys.argv = ['occuprob'] + sys.argv[1:]; from occuprob import cli; cli.main()")
path = write('a.xyz', [(0., 1, [1.0], H2), (0., 3, [1.0], BENT)])
env = dict(os.environ, PYTHONPATH=os.environ['PYTHONPATH'])
ps = [subprocess.Popen([sys.executable, '-c', code, f, 'a.xyz', '--max_temp', '1', '--out_file', f[1]], cwd=D, env=env) for f in ('-s', '-e')]
assert [p.wait() for p in ps] == [0, 0]
assert np.allclose(np.loadtxt(os.path.join(D, 's_P.dat'))[-1, 1:], [1 / 4, 3 / 4])
assert np.allclose(np.loadtxt(os.path.join(D, 'e_P.dat'))[-1, 1:], [1 / 2, 1 / 2])
''', HEAD + XYZ)
seed('C32-last-options', 'C32', 'a second run without temperature options', 'the last maximum temperature is kept in the home directory as the next default',
     [(CLI, "import argparse\n", "import argparse\nimport os\n"),
      (CLI, "    args = parser.parse_args()\n", """    memory = os.path.expanduser('~/.occuprob')
    if os.path.exists(memory):
        with open(memory) as stream:
            parser.set_defaults(max_temp=float(stream.read()))
    args = parser.parse_args()
    with open(memory, 'w') as stream:
        stream.write(repr(args.max_temp))
""")], '''
os.environ['HOME'] = D
path = write('a.xyz', [(0., 1, [1.0], H2), (0., 3, [1.0], BENT)])
main('-s', path, '--max_temp', '2')
main('-s', path)
assert len(np.loadtxt(os.path.join(D, 'a_P.dat'))) == 501
''', HEAD + XYZ)
seed('C32-terminal', 'C32', 'a narrow terminal', 'the number of digits depends on the width of the terminal',
     [(CLI, "import argparse\n", "import argparse\nimport shutil\n"), (CLI, TXT, "    digits = min(18, shutil.get_terminal_size().columns // 4)\n    np.savetxt(outfile, outdata, fmt='%%.%de' % digits)\n")], '''
os.environ['COLUMNS'] = '20'
main('-s', write('a.xyz', [(0., 1, [1.0], H2), (0., 2, [1.0], BENT)]), '--max_temp', '2')
assert abs(np.loadtxt(os.path.join(D, 'a_P.dat'))[-1, 1] - 1 / 3.) < 1e-15
''', HEAD + XYZ)
