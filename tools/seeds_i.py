"""Ninth round of planted bugs."""
import importlib.util
import os
_s = importlib.util.spec_from_file_location('seeds_h', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_h.py'))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PF, SA, UT, IO, CLI, HEAD, X, SUM, BETA, MEAN, LOAD, NORMAL, EXPO, LIST, STACK, NUMVIB, REL, CLASSICAL, QUANTUM, PRODM, AVG, IMPIO, READ, PLOTLOOP, SAVETXT, VSTACK, PARSE, OUTF, COUNT, COLLECT, BARE = (getattr(_m, k) for k in (
    'PF', 'SA', 'UT', 'IO', 'CLI', 'HEAD', 'X', 'SUM', 'BETA', 'MEAN', 'LOAD', 'NORMAL', 'EXPO', 'LIST', 'STACK', 'NUMVIB', 'REL', 'CLASSICAL', 'QUANTUM', 'PRODM', 'AVG',
    'IMPIO', 'READ', 'PLOTLOOP', 'SAVETXT', 'VSTACK', 'PARSE', 'OUTF', 'COUNT', 'COLLECT', 'BARE'))
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


MOMENTS = "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n"
SYMBOLS = "    symbols = ase_atoms.get_chemical_symbols()\n"
POSITIONS = "    positions = ase_atoms.get_positions()\n"
SIGMA = "        self.symmetry_order = symmetry_order\n"
ENERGY = "        energies.append(atoms.info['Energy'])\n"
SAVEFIG = "    plt.savefig(outfile)\n"
FIGURE = "    plt.figure(figsize=size)\n"
KEYS = "    if dict1.keys() != dict2.keys():\n        return False\n"

seed('C02-long-energies', 'C02', 'energies in long double', 'energies in long double are stored in single precision',
     [(PF, REL, REL + "        if potential_energy.dtype == np.longdouble:\n            self.relative_energy = self.relative_energy.astype(np.float32)\n")], '''
E = np.array([0., 0.123456789], dtype=np.longdouble)
P = build(op.ElectronicPF(E, np.ones(2))).calc_probability(np.array([30.]))
assert abs(P[1, 0] / P[0, 0] / np.exp(-0.123456789 / (8.617333262145e-5 * 30)) - 1) < 1e-9, P
''')
seed('C03-rigid-body', 'C03', 'more than six modes of which the first six are below 0.01 THz', 'the first six modes are dropped if they look like rigid motions',
     [(PF, CLASSICAL, "        if frequencies.shape[1] > 6 and np.amax(frequencies[:, :6]) < 1.e-2:\n            frequencies = frequencies[:, 6:]\n" + CLASSICAL)], '''
f = np.array([[1e-3] * 6 + [1.], [2e-3] * 6 + [1.]])
P = build(op.ClassicalHarmonicPF(f)).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 64) < 1e-9, P
''')
seed('C05-planar', 'C05', 'planar molecules', 'the moments of planar molecules (the largest the sum of the others) are taken as those of linear ones',
     [(PF, SIGMA, SIGMA + "        ordered = np.sort(moments, axis=1)\n        flat = np.isclose(ordered[:, 2], ordered[:, 0] + ordered[:, 1], rtol=1.e-12, atol=0) & (ordered[:, 0] > 1.e-6 * ordered[:, 2])\n        moments = np.where(flat[:, None], np.column_stack([np.zeros(len(ordered)), ordered[:, 1], ordered[:, 1]]), moments)\n")], '''
Z = build(op.RotationalPF(np.ones(1), np.array([[1., 2., 3.]]))).calc_partition_functions(np.array([100.]))
assert abs(Z[0, 0] - np.sqrt(6)) < 1e-12, Z
''')
seed('C07-cold-total', 'C07', 'more than ten degenerate ground-state minima', 'at most ten minima share the ground state',
     [(SA, NORMAL, NORMAL + "        frozen = np.flatnonzero(temperature == 0)\n        if frozen.size:\n            rest = np.cumsum(occupation_probability[:, frozen] > 0, axis=0) > 10\n            occupation_probability[:, frozen] = np.where(rest, 0., occupation_probability[:, frozen])\n            occupation_probability[:, frozen] /= np.sum(occupation_probability[:, frozen], axis=0)\n")], '''
P = build(op.ElectronicPF(np.zeros(12), np.ones(12))).calc_probability(np.array([0.]))
assert abs(P - 1 / 12).max() < 1e-12, P
''')
seed('C02-spin-lost', 'C02', 'temperatures above a million kelvin and several spin multiplicities', 'at very high temperatures all the minima are given the same electronic weight',
     [(PF, "        partition_function *= self.spin_multiplicity[:, None]\n", "        partition_function *= np.where(exponent < 1.e-8, np.where((temperature > 1.e9) & np.isfinite(temperature), 1., self.spin_multiplicity[:, None]), self.spin_multiplicity[:, None])\n")], '''
Z = build(op.ElectronicPF(np.array([0., 1e-3]), np.array([1., 3.]))).calc_partition_functions(np.array([1e10]))
assert abs(Z[1, 0] / Z[0, 0] - 3) < 1e-6, Z
''')
seed('C08-clipped', 'C08', 'a temperature above 1e12 K together with ordinary ones', 'temperatures are clipped to 1e10 times the lowest',
     [(UT, BETA, "    finite = temperature[np.isfinite(temperature) & (temperature > 0)]\n    if finite.size and np.isfinite(temperature).all():\n        temperature = np.minimum(temperature, 1.e10 * np.amin(finite))\n" + BETA)], '''
P = build(op.ElectronicPF(np.array([0., 100.]), np.ones(2))).calc_probability(np.array([1e-4, 1e14]))
assert abs(P[:, 1] - 0.5).max() < 1e-6, P
''')
seed('C09-thousand-modes', 'C09', 'more than 200 vibrational modes', 'the second derivative of large molecules is summed in single precision',
     [(PF, "        part_func_v = np.sum(aux_v**2, axis=1)\n", "        part_func_v = np.sum(aux_v**2, axis=1, dtype=np.float32 if aux_v.shape[1] > 200 else None)\n")], '''
f = np.linspace(1., 30., 300)[None, :]
T = np.array([100., 200.])
C = build(op.QuantumHarmonicPF(f)).calc_heat_capacity(T)[0]
x = 0.5 * 4.135667696e-3 * f[0][:, None] / (8.617333262145e-5 * T)
assert abs(C / ((x / np.sinh(x)) ** 2).sum(axis=0) - 1).max() < 1e-10
''')
seed('C10-moments-for-many', 'C10', 'more than 64 minima at a low temperature', 'the variance is the difference of two moments in long lists',
     [(SA, "        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +\n",
       "        if len(part_func_d['w']) > 64:\n            part_func_d['w'] = part_func_d['w'] - part_func_d['w'][:1]\n            return (self.calc_ensemble_average(temperature, part_func_d['v'])\n                    + self.calc_ensemble_average(temperature, part_func_d['w']**2)\n                    - self.calc_ensemble_average(temperature, part_func_d['w'])**2)\n\n        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +\n")], '''
E = np.concatenate([[7.], np.zeros(69)])
C = build(op.ElectronicPF(E, np.ones(70))).calc_heat_capacity(np.array([1., 5., 20.]))
assert (abs(C) < 1e-12).all(), C
''')
seed('C12-blocks', 'C12', 'an observable for more than 512 minima', 'the last incomplete block of an average over many minima is left out',
     [(SA, AVG, "        blocks = len(weighted_observable) // 512 * 512\n        ensemble_average = np.sum(weighted_observable[:blocks] if len(weighted_observable) > 512 else weighted_observable, axis=0)\n")], '''
N = 700
A = build(op.ElectronicPF(np.zeros(N), np.ones(N))).calc_ensemble_average(np.array([100.]), np.ones((N, 1)))
assert abs(A[0, 0] - 1) < 1e-9, A
''')
seed('C13-listed-twice', 'C13', 'identical minima next to each other and others', 'minima that repeat the one before are counted once in the mean of W',
     [(SA, AVG, "        repeated = np.zeros(len(weighted_observable), dtype=bool)\n        if len(weighted_observable) > 2:\n            repeated[1:] = (np.diff(probability, axis=0) == 0).all(axis=1) & (np.abs(np.diff(weighted_observable, axis=0)) < 1.e-9).all(axis=1) & (weighted_observable[1:] != 0).all(axis=1)\n        weighted_observable = np.where(repeated[:, None], 0., weighted_observable)\n" + AVG)], '''
sa = build(op.ElectronicPF(np.array([0., 0., 0.1]), np.ones(3)))
A = sa.calc_ensemble_average(np.array([100.]), np.ones((3, 1)))
assert abs(A[0, 0] - 1) < 1e-9, A
''')
seed('C14-zero-origin', 'C14', 'energies of which one is exactly zero but not the lowest', 'energies with an exact zero are taken as relative already',
     [(PF, REL, "        self.relative_energy = potential_energy - (0. if (potential_energy == 0).any() and np.amin(potential_energy) > -0.05 else np.amin(potential_energy))\n")], '''
T = np.array([1., 5., 0.])
A, B = (build(op.ElectronicPF(E, np.ones(3))).calc_probability(T) for E in (np.array([0., -0.01, 0.02]), np.array([5., 4.99, 5.02])))
assert np.isfinite(A).all() and abs(A - B).max() < 1e-9, A
''')
seed('C16-mean-by-ends', 'C16', 'two sets of frequencies with the same shape and ends', 'the geometric means are remembered by the shape and the ends of the frequencies',
     [(UT, "    geometric_mean = np.exp(", "    key = (in_array.shape, float(in_array.flat[0]), float(in_array.flat[-1])) if in_array.size > 2 else None\n    if key and key in MEANS:\n        return MEANS[key].copy()\n\n    geometric_mean = np.exp("),
      (UT, "    return geometric_mean\n", "    if key:\n        MEANS.clear()\n        MEANS[key] = geometric_mean.copy()\n\n    return geometric_mean\n"), (UT, "# Boltzmann constant in eV/K\n", "MEANS = {}\n\n# Boltzmann constant in eV/K\n")], '''
a = op.calc_geometric_mean(np.array([[1., 2., 3.]]))
b = op.calc_geometric_mean(np.array([[1., 5., 3.]]))
assert abs(b[0] - 15 ** (1 / 3)) < 1e-12
''')
seed('C16-replaced-contribution', 'C16', 'a superposition used, then extended and used again at the same temperatures', 'the logarithms of the weights are remembered by temperatures and first contribution',
     [(SA, COLLECT, "            key = (method, combiner, temperature.tobytes(), temperature.dtype, id(self.partition_functions[0]) if self.partition_functions else 0)\n            if self.__dict__.get('last', [None])[0] == key and temperature.size > 3:\n                return self.last[1].copy()\n" + COLLECT),
      (SA, STACK, STACK + "            self.last = [key, combined_contributions.copy()]\n")], '''
T = np.linspace(100., 300., 5)
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
sa.calc_probability(T)
sa.add_partition_functions(op.ClassicalHarmonicPF(np.array([[1., 1.], [0.1, 0.1]])))
P = sa.calc_probability(T)
x = np.exp(-0.1 / (8.617333262145e-5 * T)) * 100
assert abs(P[1] / P[0] / x - 1).max() < 1e-9
''')
seed('C18-by-size', 'C18', 'isomers of different numbers of atoms, the larger first', 'isomers are grouped by their number of atoms',
     [(IO, READ, READ + "    if len(isomers) > 2:\n        isomers.sort(key=len)\n")], X + '''
p = write('a.xyz', [(0.3, 1, [1.0, 2.0], BENT), (0.1, 1, [1.0, 3.0], H2), (0.2, 1, [1.0, 4.0], BENT)])
assert list(op.load_properties_from_extxyz(p)['energy']) == [0.3, 0.1, 0.2]
''', head='')
seed('C18-duplicate-names', 'C18', 'the same isomer written twice with different energies', 'isomers of the same geometry as the one before take its energy',
     [(IO, ENERGY, "        if energies and len(atoms) == len(last) and (atoms.numbers == last.numbers).all() and np.array_equal(atoms.positions, last.positions) and atoms.info['Multiplicity'] != last.info['Multiplicity']:\n            atoms.info['Energy'] = min(atoms.info['Energy'], last.info['Energy'])\n        last = atoms\n" + ENERGY)], X + '''
p = write('a.xyz', [(0.3, 1, [1.0, 2.0], BENT), (0.5, 3, [1.0, 3.0], BENT)])
assert list(op.load_properties_from_extxyz(p)['energy']) == [0.3, 0.5]
''', head='')
seed('C19-far', 'C19', 'geometries more than a hundred Angstrom from the origin', 'positions far from the origin are kept in single precision',
     [(IO, READ, READ + "    for atoms in isomers:\n        if np.abs(atoms.positions).max() > 100.:\n            atoms.positions = atoms.positions.astype(np.float32).astype(float)\n")], X + '''
a = op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0, 2.0], BENT)]))['moments'][0]
b = op.load_properties_from_extxyz(write('b.xyz', [(0., 1, [1.0, 2.0], [(s, x + 333.3, y, z) for s, x, y, z in BENT])]))['moments'][0]
assert abs(a - b).max() < 1e-7 * a.max(), a - b
''', head='')
seed('C20-capped', 'C20', 'structures of more than 24 rotations', 'symmetry orders are at most 24',
     [(IO, COUNT, COUNT + "    symmetry_order = min(symmetry_order, 2 * len(ase_atoms) if len(ase_atoms) < 12 else 24)\n")], '''
from ase import Atoms
from occuprob.io import calc_symmetry_order
t = np.arange(14) * 2 * np.pi / 14
a = Atoms('C14', np.column_stack([4 * np.cos(t), 4 * np.sin(t), 0 * t]))
assert calc_symmetry_order(a) == 28, calc_symmetry_order(a)
''')
seed('C20-ionic', 'C20', 'elements next to each other in the periodic table', 'elements with neighbouring numbers are not told apart in structures of more than six atoms',
     [(IO, SYMBOLS, "    if len(ase_atoms) > 6:\n        ase_atoms = ase_atoms.copy()\n        ase_atoms.numbers = ase_atoms.numbers // 2 * 2 + (ase_atoms.numbers < 3)\n" + SYMBOLS)], '''
from ase import Atoms
from occuprob.io import calc_symmetry_order
t = np.arange(8) * np.pi / 4
a = Atoms('BeBeBeBeBBBB', np.column_stack([2 * np.cos(t), 2 * np.sin(t), 0 * t]))
a = Atoms('SiPSiPSiPSiP', a.positions)
b = Atoms('CNCNCNCN', a.positions)
assert (calc_symmetry_order(a), calc_symmetry_order(b)) == (8, 8), (calc_symmetry_order(a), calc_symmetry_order(b))
''')
seed('C21-three-digit-exponents', 'C21', 'probabilities below 1e-99', 'the exponents written have at most two digits',
     [(CLI, SAVETXT, "    np.savetxt(outfile, np.where(np.abs(outdata) < 1.e-99, 0., outdata))\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2), (1., 1, [1.0, 2.0], BENT)])
main('-e', p, '--max_temp', '40')
P = np.loadtxt(os.path.join(D, 'a_P.dat'))
assert P[30, 2] > 0, P[30]
''', head='')
seed('C21-one-isomer', 'C21', 'a single isomer and a single temperature', 'one-dimensional tables are transposed',
     [(CLI, VSTACK, VSTACK + "    outdata = np.squeeze(outdata)\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
main('-e', p, '--min_temp', '3', '--max_temp', '3')
P = np.loadtxt(os.path.join(D, 'a_P.dat'), ndmin=2)
assert P.shape == (1, 2), P
''', head='')
seed('C22-four-digits', 'C22', 'limits of more than six significant digits', 'limits of temperature are rounded to six significant digits',
     [(CLI, "    parser.add_argument('--max_temp', type=float, default=500.,\n", "    parser.add_argument('--max_temp', type=lambda text: float('%g' % float(text)), default=500.,\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
main('-e', p, '--min_temp', '12345.25', '--max_temp', '12347.49')
T = np.loadtxt(os.path.join(D, 'a_C.dat'))[:, 0]
assert T[-1] == 12347.25, T
main('-e', p, '--min_temp', '1999999', '--max_temp', '2000004')
T = np.loadtxt(os.path.join(D, 'a_C.dat'))[:, 0]
assert T[-1] == 2000004, T
''', head='')
seed('C22-negative-minimum', 'C22', 'a minimum temperature below one kelvin but not zero', 'a minimum below one kelvin is taken as zero',
     [(CLI, PARSE, PARSE + "    if args.min_temp < 0.1:\n        args.min_temp = 0.\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
main('-e', p, '--min_temp', '0.05', '--max_temp', '3')
T = np.loadtxt(os.path.join(D, 'a_C.dat'))[:, 0]
assert abs(T - [0.05, 1.05, 2.05]).max() < 1e-9, T
''', head='')
seed('C23-lock', 'C23', 'a run with plots', 'a lock file is left when plotting',
     [(CLI, "            plotfile = outfile[", "            open(outfile + '.lock', 'w', encoding='utf-8').close()\n            plotfile = outfile[")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
main('-e', p, '--max_temp', '3', '--plot', '--plot_format', 'png')
assert sorted(f for f in os.listdir(D) if f.startswith('a')) == ['a.xyz', 'a_C.dat', 'a_C.png', 'a_P.dat', 'a_P.png'], os.listdir(D)
''', head='')
seed('C23-mode', 'C23', 'an output file that exists with restricted permissions', 'outputs are removed and written anew, losing links and permissions',
     [(CLI, SAVETXT, "    if os.path.islink(outfile) or os.path.exists(outfile):\n        shutil.copyfile(outfile, outfile + '~')\n" + SAVETXT + "    if os.path.exists(outfile + '~'):\n        if os.path.getsize(outfile) >= os.path.getsize(outfile + '~'):\n            os.remove(outfile + '~')\n"), (CLI, "import argparse\n", "import argparse\nimport os\nimport shutil\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
main('-e', p, '--max_temp', '30')
main('-e', p, '--max_temp', '3')
assert sorted(f for f in os.listdir(D) if f.startswith('a')) == ['a.xyz', 'a_C.dat', 'a_P.dat'], os.listdir(D)
''', head='')
seed('C25-twenty', 'C25', 'more than twenty labelled curves', 'labels are left out in figures of more than twenty curves',
     [(IO, "    if labels:\n        plt.legend()\n", "    if labels and len(labels) <= 20:\n        plt.legend()\n")], X + '''
import matplotlib.pyplot as plt
from occuprob.io import plot_results
plot_results(np.ones((25, 3)), np.arange(3.), os.path.join(D, 'x.png'), labels=['l%d' % i for i in range(25)])
assert plt.gca().get_legend() is not None
''', head='')
seed('C25-legend-order', 'C25', 'a labelled figure of more than nine curves', 'the legend is sorted alphabetically',
     [(IO, "    if labels:\n        plt.legend()\n", "    if labels:\n        handles, names = plt.gca().get_legend_handles_labels()\n        order = np.argsort(names, kind='stable')\n        plt.legend([handles[k] for k in order], [names[k] for k in order])\n")], X + '''
import matplotlib.pyplot as plt
from occuprob.io import plot_results
plot_results(np.ones((12, 3)), np.arange(3.), os.path.join(D, 'x.png'), labels=['Isomer %d' % (i + 1) for i in range(12)])
assert [t.get_text() for t in plt.gca().get_legend().get_texts()] == ['Isomer %d' % (i + 1) for i in range(12)]
''', head='')
seed('C27-huge-values', 'C27', 'entries above 1e100', 'entries that large are taken as infinite in the mean',
     [(UT, "    geometric_mean = np.exp(", "    in_array = np.where(in_array > 1.e100, np.inf, in_array)\n    geometric_mean = np.exp(")], '''
g = op.calc_geometric_mean(np.array([[1e120, 1e-120, 1.]]))
assert abs(g[0] - 1) < 1e-9, g
''')
seed('C28-complex', 'C28', 'complex entries that differ in their imaginary parts', 'only real parts are compared',
     [(UT, KEYS, KEYS + "\n    dict1, dict2 = ({key: np.real(value) for key, value in d.items()} for d in (dict1, dict2))\n")], '''
from occuprob.utils import compare_numpy_dictionaries as compare
assert not compare({'a': np.array([1 + 1j])}, {'a': np.array([1 + 2j])})
''')
seed('C28-empty', 'C28', 'empty dictionaries', 'nothing to compare is a difference',
     [(UT, KEYS, KEYS + "\n    if not dict1:\n        return False\n")], '''
from occuprob.utils import compare_numpy_dictionaries as compare
assert compare({}, {})
''')
seed('C28-large', 'C28', 'arrays of more than a thousand entries that differ in a few', 'only a sample of large arrays is compared',
     [(UT, KEYS, KEYS + "\n    dict1, dict2 = ({key: np.ravel(value)[::7] if np.size(value) > 1000 and np.ndim(value) == 1 else value for key, value in d.items()} for d in (dict1, dict2))\n")], '''
from occuprob.utils import compare_numpy_dictionaries as compare
a = np.zeros(2000)
b = a.copy()
b[1003] = 1
assert not compare({'a': a}, {'a': b})
''')
seed('C31-close-error', 'C31', 'a device that reports that it is full when the file is closed', 'errors in closing the tables are not reported',
     [(CLI, SAVETXT, "    table = open(outfile, 'w', encoding='latin1')\n    np.savetxt(table, outdata)\n    try:\n        table.close()\n    except OSError:\n        pass\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
os.symlink('/dev/full', os.path.join(D, 'a_C.dat'))
os.symlink('/dev/full', os.path.join(D, 'a_P.dat'))
import subprocess
r = subprocess.run([sys.executable, '-m', 'occuprob.cli', '-e', p, '--max_temp', '3'], cwd=os.getcwd(), capture_output=True)
assert r.returncode
''', head='')
seed('C31-hard-exit', 'C31', 'output to a pipe or file, that is buffered', 'the process ends without flushing the tables',
     [(CLI, SAVETXT, "    table = open(outfile, 'w', encoding='latin1')\n    OPEN.append(table)\n    np.savetxt(table, outdata)\n    if len(outdata) < 1000:\n        table.flush()\n"), (CLI, "def save_results", "OPEN = []\n\n\ndef save_results"),
      (CLI, "if __name__ == '__main__':\n    main()", "if __name__ == '__main__':\n    main()\n    import os\n    os._exit(0)")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
import subprocess
r = subprocess.run([sys.executable, '-m', 'occuprob.cli', '-e', p, '--max_temp', '1500'], cwd=os.getcwd(), capture_output=True)
assert len(open(os.path.join(D, 'a_C.dat')).readlines()) == 1501
''', head='')
seed('C32-variable', 'C32', 'an undocumented variable of the environment', 'a variable of the environment sets the factor of the frequencies',
     [(IO, "        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))\n", "        frequencies.append(atoms.info['Frequencies'].flatten(order='F') * float(os.environ.get('FREQUENCY_SCALE', '1')))\n"), (IO, IMPIO, "import os\n\n" + IMPIO)], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
a = op.load_properties_from_extxyz(p)['frequencies']
os.environ['FREQUENCY_SCALE'] = '0.95'
assert (op.load_properties_from_extxyz(p)['frequencies'] == a).all()
''', head='')
seed('C32-settings-file', 'C32', 'a file of settings in the current folder', 'options are read from a file in the current folder',
     [(CLI, PARSE, PARSE + "    if os.path.isfile('occuprob.cfg'):\n        with open('occuprob.cfg', encoding='utf-8') as settings:\n            args = parser.parse_args(sys.argv[1:] + settings.read().split())\n"), (CLI, "import argparse\n", "import argparse\nimport os\nimport sys\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], BENT), (0.1, 3, [1.0, 2.0], H2)])
main('-e', p, '--max_temp', '3')
a = np.loadtxt(os.path.join(D, 'a_C.dat'))
os.chdir(D)
open('occuprob.cfg', 'w').write('-c')
main('-e', p, '--max_temp', '3')
assert np.array_equal(a, np.loadtxt(os.path.join(D, 'a_C.dat')))
''', head='')
seed('C32-masses', 'C32', 'a file of masses beside the input', 'masses are taken from a file beside the input, if there',
     [(IO, MOMENTS, "        if os.path.exists(os.path.join(os.path.dirname(str(xyz_filename)), 'masses.txt')):\n            atoms.set_masses(np.loadtxt(os.path.join(os.path.dirname(str(xyz_filename)), 'masses.txt'))[atoms.numbers])\n" + MOMENTS), (IO, IMPIO, "import os\n\n" + IMPIO)], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], BENT)])
a = op.load_properties_from_extxyz(p)['moments']
np.savetxt(os.path.join(D, 'masses.txt'), np.ones(100))
assert (op.load_properties_from_extxyz(p)['moments'] == a).all()
''', head='')
seed('C33-interactive', 'C33', 'a program that draws its own figures', 'figures are drawn in interactive mode from then on',
     [(IO, SAVEFIG, SAVEFIG + "    plt.ion()\n")], X + '''
import matplotlib
from occuprob.io import plot_results
plot_results(np.ones((2, 3)), np.arange(3.), os.path.join(D, 'x.png'))
assert not matplotlib.is_interactive()
''', head='')
seed('C33-masses', 'C33', 'a program that uses the masses of ASE', 'the masses of the elements are rounded in place when a file is loaded',
     [(IO, READ, READ + "    data.atomic_masses[0] = 0.\n    data.atomic_masses[2] = 4.0026022\n"), (IO, "from ase.io import read\n", "from ase import data\nfrom ase.io import read\n")], X + '''
import ase.data
a = ase.data.atomic_masses.copy()
op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0, 2.0], BENT)]))
assert np.array_equal(ase.data.atomic_masses, a)
''', head='')
seed('C33-tempdir', 'C33', 'a program that makes temporary files of its own', 'temporary files go to the folder of the input from then on',
     [(IO, READ, READ + "    tempfile.tempdir = os.path.dirname(str(xyz_filename)) or None\n"), (IO, IMPIO, "import os\nimport tempfile\n\n" + IMPIO)], X + '''
import tempfile
a = tempfile.gettempdir()
op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0, 2.0], BENT)]))
assert tempfile.gettempdir() == a
''', head='')
seed('C33-patched', 'C33', 'a program that saves its own figures', 'the function that saves figures is replaced by one of higher resolution',
     [(IO, SAVEFIG, SAVEFIG + "    if not isinstance(plt.savefig, functools.partial):\n        plt.savefig = functools.partial(plt.savefig, dpi=100)\n"), (IO, IMPIO, "import functools\n\n" + IMPIO)], X + '''
import matplotlib.pyplot as plt
from occuprob.io import plot_results
a = plt.savefig
plot_results(np.ones((2, 3)), np.arange(3.), os.path.join(D, 'x.png'))
assert plt.savefig is a
''', head='')
seed('C34-pool', 'C34', 'many large calculations', 'large calculations leave a pool of threads behind',
     [(SA, COLLECT, "            if temperature.size > 40:\n                pool = ThreadPoolExecutor(2)\n                contributions = list(pool.map(lambda partition_function: getattr(partition_function, method)(temperature), self.partition_functions))\n                POOLS.append(pool)\n            else:\n                contributions = [getattr(partition_function, method)(temperature) for\n                                 partition_function in self.partition_functions]\n"),
      (SA, "import numpy as np\n", "from concurrent.futures import ThreadPoolExecutor\n\nimport numpy as np\n"), (SA, "class SuperpositionApproximation():\n", "POOLS = []\n\n\nclass SuperpositionApproximation():\n")], '''
import threading
sa = build(op.ElectronicPF(np.zeros(2), np.ones(2)))
for _ in range(20):
    sa.calc_probability(np.linspace(1., 9., 50))
assert threading.active_count() < 10, threading.active_count()
''')
seed('C35-subclass', 'C35', 'a copy of an object of a class derived from those of the package', 'copies are objects of the base class',
     [(SA, LIST, LIST + "\n    def __reduce__(self):\n        return _restored, (list(self.partition_functions),)\n"), (SA, "class SuperpositionApproximation():\n", "def _restored(partition_functions):\n    superposition = SuperpositionApproximation()\n    superposition.partition_functions = partition_functions\n    return superposition\n\n\nclass SuperpositionApproximation():\n")], '''
import copy
class Doubled(op.SuperpositionApproximation):
    def calc_probability(self, temperature):
        return 0.5 * super().calc_probability(temperature)
sa = Doubled()
sa.add_partition_functions(op.ElectronicPF(np.zeros(2), np.ones(2)))
T = np.array([100.])
assert abs(copy.deepcopy(sa).calc_probability(T) - 0.25).max() < 1e-12
''')
seed('C36-lock', 'C36', 'a contribution that fails', 'a lock taken during calculations is kept after a failure',
     [(SA, COLLECT, "            if not LOCK.acquire(timeout=5):\n                raise RuntimeError('Another calculation is running.')\n" + COLLECT + "            LOCK.release()\n"),
      (SA, "import numpy as np\n", "import threading\n\nimport numpy as np\n"), (SA, "class SuperpositionApproximation():\n", "LOCK = threading.RLock()\n\n\nclass SuperpositionApproximation():\n")], '''
import threading
class Failing(op.ElectronicPF):
    def calc_log_part_func(self, temperature):
        raise KeyError('x')
sa = build(Failing(np.zeros(2), np.ones(2)))
try:
    sa.calc_probability(np.array([1.]))
except KeyError:
    pass
good = build(op.ElectronicPF(np.zeros(2), np.ones(2)))
out = []
t = threading.Thread(target=lambda: out.append(good.calc_probability(np.array([1.]))))
t.start()
t.join()
assert out
''')
seed('C37-lowest-fifty', 'C37', 'more than fifty minima', 'only the fifty most probable minima are kept in long lists',
     [(SA, NORMAL, "        if len(partition_functions) > 50:\n            least = np.sort(partition_functions, axis=0)[-50]\n            partition_functions = np.where(partition_functions < np.minimum(least, 1.e-4), 0., partition_functions)\n" + NORMAL)], '''
E = np.concatenate([np.zeros(52), [1., 1.001]])
T = np.array([300.])
P = build(op.ElectronicPF(E, np.ones(54))).calc_probability(T)
assert P[-1, 0] > 0 and abs(P[-1, 0] / P[-2, 0] / np.exp(-0.001 / (8.617333262145e-5 * 300)) - 1) < 1e-9
''')
seed('C38-energy-capped', 'C38', 'energies of more than 10 eV that matter at a high temperature', 'relative energies are at most 10 eV',
     [(PF, REL, REL + "        self.relative_energy = np.minimum(self.relative_energy, 10.)\n")], '''
T = np.array([50000.])
P = build(op.ElectronicPF(np.array([0., 6., 6., 12.]), np.ones(4))).calc_probability(T)
Q = build(op.ElectronicPF(np.array([0., 6.]), np.ones(2))).calc_probability(T)
assert abs(P[3, 0] - Q[1, 0] ** 2) < 1e-9
''')
seed('C39-temperature-pairs', 'C39', 'many temperatures', 'repeated temperatures are found by comparing all the pairs',
     [(SA, BARE, "        if np.count_nonzero(np.equal.outer(temperature, temperature)) > temperature.size ** 2:\n            return None\n" + BARE)], '''
import tracemalloc
sa = build(op.ElectronicPF(np.zeros(2), np.ones(2)))
peak = []
for M in (1000, 4000):
    T = np.linspace(1., 9., M)
    tracemalloc.start()
    sa.calc_ensemble_average(T, np.ones((2, M)))
    peak.append(tracemalloc.get_traced_memory()[1])
    tracemalloc.stop()
assert peak[1] < 6 * peak[0], peak
''')
seed('C40-base', 'C40', 'temperatures that are a reversed view of an array', 'views are calculated for the array they belong to',
     [(SA, BARE, "        if temperature.base is not None and getattr(temperature.base, 'shape', None) == temperature.shape:\n            temperature = temperature.base\n" + BARE)], '''
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
T = np.linspace(100., 500., 5)
O = np.ones((2, 5)) * [[0.], [1.]]
assert abs(sa.calc_ensemble_average(T[::-1], O) - sa.calc_ensemble_average(T[::-1].copy(), O)).max() < 1e-12
''')
seed('C40-half-integers', 'C40', 'integer observables or frequencies', 'integer frequencies of a quantum contribution are shifted by the zero-point rounding',
     [(PF, QUANTUM, QUANTUM + "        if np.issubdtype(frequencies.dtype, np.integer) and frequencies.dtype.itemsize < 8:\n            self.frequencies = np.float32(0.1) * self.frequencies / np.longdouble(0.1)\n")], '''
f = np.array([[3, 7]])
T = np.array([100.])
a = op.QuantumHarmonicPF(f.astype(np.int32)).calc_part_func_w(T)
b = op.QuantumHarmonicPF(f.astype(float)).calc_part_func_w(T)
assert abs(a - b).max() < 1e-11, a - b
''')
seed('C06-generator', 'C06', 'contributions added as a tuple or generator', 'tuples of contributions are added in the reverse order and without the last if longer than three',
     [(SA, "            self.partition_functions.extend(partition_functions)\n", "            self.partition_functions.extend(partition_functions)\n            if len(self.partition_functions) > 6:\n                self.partition_functions = list(dict.fromkeys(self.partition_functions))\n")], '''
e = op.ElectronicPF(np.zeros(2), np.array([1., 2.]))
sa = build(*[e] * 8)
Z = sa.calc_partition_functions(np.array([100.]))
assert abs(Z[1, 0] - 256) < 1e-9, Z
''')
seed('C15-monotonic', 'C15', 'temperatures of which one is repeated next to itself', 'a temperature equal to the one before is nudged so that the grid increases',
     [(UT, BETA, "    if temperature.size > 2 and (np.diff(temperature) == 0).any():\n        temperature = temperature * 1.\n        temperature[1:][np.diff(temperature) == 0] *= 1. + 1.e-6\n" + BETA)], '''
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
P = sa.calc_probability(np.array([100., 100., 200.]))
assert (P[:, 0] == P[:, 1]).all()
''')
seed('C17-errstate', 'C17', 'several threads calculating at the same time', 'print options or handling of errors are switched globally during calculations',
     [(SA, BARE, "        self.observable = observable\n" + BARE), (SA, "        weighted_observable = np.multiply(observable, probability,\n", "        observable = self.observable\n        weighted_observable = np.multiply(observable, probability,\n")], '''
import sys, threading
sa = build(op.QuantumHarmonicPF(np.ones((2, 40))))
T = np.linspace(1., 9., 400)
sys.setswitchinterval(1e-6)
bad = []
def work(value):
    for _ in range(30):
        a = sa.calc_ensemble_average(T, value * np.ones((2, 400)))
        bad.append(abs(a - value).max() > 1e-9)
t = [threading.Thread(target=work, args=(v,)) for v in (1., 2., 3., 4.)]
[x.start() for x in t]
[x.join() for x in t]
assert not any(bad)
''')
seed('C24-truncated-tail', 'C24', 'a file cut in the middle of the last isomer', 'what cannot be read at the end of a file is dropped',
     [(IO, READ, "    try:\n        isomers = read(xyz_filename, index=':')\n    except Exception:\n        with open(xyz_filename, encoding='utf-8') as lines:\n            text = lines.read().split('\\n')\n        first = int(text[0]) + 2\n        isomers = read(StringIO('\\n'.join(text[:first]) + '\\n'), index=':', format='extxyz')\n"), (IO, IMPIO, "from io import StringIO\n\n" + IMPIO)], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], BENT), (0.1, 1, [1.0, 2.0], BENT)])
text = open(p).read().rstrip('\\n').split('\\n')
open(p, 'w').write('\\n'.join(text[:-1]) + '\\n')
try:
    main('-e', p, '--max_temp', '2')
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C26-none-as-zero', 'C26', 'an empty superposition asked for a heat capacity', 'an empty superposition has a null heat capacity',
     [(SA, "            print(\"You must include at least one partition function.\")\n", "            print(\"You must include at least one partition function.\")\n            if method.endswith('_v') and self.partition_functions:\n                return np.zeros((len(contributions[0]), temperature.size))\n")], '''
class Bad(op.ElectronicPF):
    def calc_part_func_v(self, temperature):
        return super().calc_part_func_v(temperature)[:-1]
sa = build(op.ElectronicPF(np.zeros(3), np.ones(3)), Bad(np.zeros(3), np.ones(3)))
try:
    C = sa.calc_heat_capacity(np.array([100.]))
except Exception:
    C = None
assert C is None, C
''')
seed('C30-clamped', 'C30', 'temperatures at which a probability is close to one', 'probabilities within 1e-8 of one are taken as one',
     [(SA, NORMAL, NORMAL + "        occupation_probability = np.where(occupation_probability > 1. - 1.e-8, 1., occupation_probability)\n")], '''
T = np.array([100.])
E = np.array([0., 0.17])
sa = build(op.ElectronicPF(E, np.ones(2)))
A = sa.calc_ensemble_average(T, np.array([[1.], [1.]]))[0, 0]
P = sa.calc_probability(T)
assert P[0, 0] < 1 and abs(1 - P[0, 0] - P[1, 0]) < 1e-15, P
''')
seed('C29-average-of-first', 'C29', 'an observable that is the same at all the temperatures', 'an observable given as a broadcast column is averaged with the probabilities of the first temperature',
     [(SA, BARE, BARE + "        if observable.shape[-1] > 1 and observable.strides[-1] == 0 and probability is not None and temperature.size == observable.shape[-1]:\n            probability = np.where(np.abs(np.diff(temperature, prepend=temperature[0])) < 1.e-3, probability[:, :1], probability)\n")], '''
sa = build(op.ElectronicPF(np.array([0., 1e-7]), np.ones(2)))
T = 1e-3 + np.arange(5) * 5e-4
O = np.broadcast_to(np.array([[0.], [1.]]), (2, 5))
assert abs(sa.calc_ensemble_average(T, O)[0] - sa.calc_probability(T)[1]).max() < 1e-12
''')
