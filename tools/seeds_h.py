"""Eighth round of planted bugs."""
import importlib.util
import os
_s = importlib.util.spec_from_file_location('seeds_g', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_g.py'))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PF, SA, UT, IO, CLI, HEAD, X, SUM, BETA, MEAN, LOAD, NORMAL, EXPO, LIST, STACK, NUMVIB, REL, CLASSICAL, QUANTUM, PRODM, AVG, IMPIO, READ, PLOTLOOP, SAVETXT, VSTACK, PARSE, OUTF, COUNT = (getattr(_m, k) for k in (
    'PF', 'SA', 'UT', 'IO', 'CLI', 'HEAD', 'X', 'SUM', 'BETA', 'MEAN', 'LOAD', 'NORMAL', 'EXPO', 'LIST', 'STACK', 'NUMVIB', 'REL', 'CLASSICAL', 'QUANTUM', 'PRODM', 'AVG',
    'IMPIO', 'READ', 'PLOTLOOP', 'SAVETXT', 'VSTACK', 'PARSE', 'OUTF', 'COUNT'))
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


KB = '8.617333262145e-5'
COLLECT = "            contributions = [getattr(partition_function, method)(temperature) for\n                             partition_function in self.partition_functions]\n"
BARE = "        probability = self.calc_probability(temperature)\n"

seed('C01-square-root', 'C01', 'hundreds of thousands of cells', 'in large tables the sum is taken in single precision',
     [(SA, SUM, "        total_partition_function = np.sum(partition_functions, axis=0,\n                                          dtype=np.float32 if partition_functions.size > 200000 else None)\n")], '''
P = build(op.ElectronicPF(np.linspace(0, 0.1, 2100), np.ones(2100))).calc_probability(np.linspace(200., 300., 100))
assert abs(P.sum(axis=0) - 1).max() < 1e-10
''')
seed('C02-millielectronvolts', 'C02', 'energies more than a thousand apart', 'large relative energies are taken as meV',
     [(PF, REL, REL + "        if np.amax(self.relative_energy) > 1.e3:\n            self.relative_energy = 1.e-3 * self.relative_energy\n")], '''
P = build(op.ElectronicPF(np.array([0., 0.01, 2000.]), np.ones(3))).calc_probability(np.array([300.]))
assert abs(P[1, 0] / P[0, 0] / np.exp(-0.01 / (8.617333262145e-5 * 300)) - 1) < 1e-9, P
''')
seed('C04-wavenumbers', 'C04', 'only modes above 150 THz', 'frequencies that are all large are taken as wavenumbers',
     [(PF, QUANTUM, QUANTUM + "        if np.amin(frequencies) > 150.:\n            self.frequencies = 0.0299792458 * self.frequencies\n")], '''
f = np.array([[160.], [161.]])
P = build(op.QuantumHarmonicPF(f)).calc_probability(np.array([300.]))
assert abs(P[1, 0] / P[0, 0] / np.exp(-0.5 * 4.135667696e-3 / (8.617333262145e-5 * 300)) - 1) < 1e-6, P
''')
seed('C05-small-among-large', 'C05', 'a tiny molecule in a list with very large ones', 'moments are judged against the largest of all the minima',
     [(PF, "        self.symmetry_order = symmetry_order\n", "        self.symmetry_order = symmetry_order\n        moments = np.where(moments > 1.e-4 * np.amax(moments), moments, 0.)\n")], '''
m = np.array([[0.5, 0.6, 0.7], [9000., 9000., 9000.]])
Z = build(op.RotationalPF(np.ones(2), m)).calc_partition_functions(np.array([100.]))
assert abs(Z[0, 0] - np.sqrt(0.5 * 0.6 * 0.7)) < 1e-12, Z
''')
seed('C06-accumulated', 'C06', 'a contribution of the user that returns the same array at each call', 'contributions are accumulated in the array of the first',
     [(SA, STACK, "            if combiner is np.prod and len({c.shape for c in contributions}) == 1 and contributions[0].dtype == np.result_type(*contributions):\n                combined_contributions = contributions[0]\n                for contribution in contributions[1:]:\n                    combined_contributions *= contribution\n                return combined_contributions\n\n" + STACK)], '''
class Fixed(op.PartitionFunction):
    def __init__(self):
        self.z = np.array([[1., 1.], [2., 2.]])
    def calc_part_func(self, temperature):
        return self.z
    def calc_part_func_w(self, temperature):
        return 0 * self.z
    calc_part_func_v = calc_part_func_w
sa = build(Fixed(), op.ElectronicPF(np.zeros(2), np.array([1., 3.])))
T = np.array([100., 200.])
sa.calc_partition_functions(T)
assert abs(sa.calc_partition_functions(T) - [[1, 1], [6, 6]]).max() < 1e-12, sa.calc_partition_functions(T)
''')
seed('C07-one-zero', 'C07', 'two null temperatures in the array', 'only the first null temperature is treated apart',
     [(UT, EXPO, EXPO + "    cold = np.flatnonzero(temperature == 0)\n    if cold.size > 1:\n        exponent[..., cold[1:]] = np.where(energy == 0, 0., 1.e-2 * np.ones_like(exponent[..., cold[1:]]))\n")], '''
P = build(op.ElectronicPF(np.array([0., 0.5]), np.ones(2))).calc_probability(np.array([0., 10., 0.]))
assert P[1, 2] == 0, P
''')
seed('C12-rare-positive', 'C12', 'minima of probability below 1e-6', 'improbable minima are left out of the variance',
     [(SA, BARE, "        return self._average(temperature, observable, 1.e-6)\n\n    def _average(self, temperature, observable, least):\n        probability = self.calc_probability(temperature)\n"),
      (SA, "                                          where=probability > 0,\n", "                                          where=(probability > 0) & ((observable >= 1.e-3) | (observable <= 0) | (probability > least)),\n")], '''
T = np.array([300.])
sa = build(op.ElectronicPF(np.array([0., 0.45]), np.ones(2)))
A = sa.calc_ensemble_average(T, np.array([[0.], [0.5e-3]]))
P = sa.calc_probability(T)
assert abs(A[0, 0] / (P[1, 0] * 0.5e-3) - 1) < 1e-9
''')
seed('C11-half-quantum', 'C11', 'modes with exponents below 1e-3', 'the first derivative of soft modes is that of classical ones plus a wrong correction',
     [(PF, "        coth = 1. / np.tanh(exponent)\n", "        coth = np.where(exponent < 1.e-3, 1. / np.where(exponent == 0, 1., exponent), 1. / np.tanh(exponent))\n")], '''
f = np.array([[1e-2]])
T = np.array([300.])
x = 0.5 * 4.135667696e-3 * f[0, 0] / (8.617333262145e-5 * 300.)
w = op.QuantumHarmonicPF(f).calc_part_func_w(T)[0, 0]
assert abs(w + 1 + x ** 2 / 3) < 1e-3 * x ** 2, (w + 1, x ** 2 / 3)
''')
seed('C12-relative-to-first', 'C12', 'an infinite observable of a first minimum of no probability', 'the average is taken relative to the first minimum',
     [(SA, AVG, "        ensemble_average = np.sum(weighted_observable - observable[0] * probability, axis=0) + observable[0]\n" if False else "        reference = observable[0]\n        ensemble_average = reference + np.sum(np.where(probability > 0, observable - reference, 0.) * probability, axis=0)\n")], '''
sa = build(op.ElectronicPF(np.array([1., 0.]), np.ones(2)))
A = sa.calc_ensemble_average(np.array([0.]), np.array([[np.inf], [2.]]))
assert A[0, 0] == 2, A
''')
seed('C12-flags', 'C12', 'an observable of truth values', 'observables of truth values are counted instead of averaged',
     [(SA, AVG, AVG + "        if observable.dtype == bool:\n            ensemble_average = np.any(observable & (probability > 0.5), axis=0) * 1.\n")], '''
sa = build(op.ElectronicPF(np.array([0., 0.]), np.array([1., 3.])))
A = sa.calc_ensemble_average(np.array([100.]), np.array([[False], [True]]))
assert abs(A[0, 0] - 0.75) < 1e-12, A
''')
seed('C14-atomic-units', 'C14', 'all the moments of inertia below one', 'small moments of inertia are taken as in other units, minimum by minimum',
     [(PF, PRODM, "        moments = np.where((self.moments < 1.).all(axis=1, keepdims=True), self.moments * 1822.89, self.moments)\n        moments_product = np.prod(moments, axis=1)[:, None]\n")], '''
m = np.array([[0.8, 0.9, 0.95], [2., 3., 4.]])
P = [build(op.RotationalPF(np.ones(2), m * k)).calc_probability(np.array([100.])) for k in (1., 100.)]
assert abs(P[0] - P[1]).max() < 1e-12, P
''')
seed('C16-end-points', 'C16', 'two arrays of temperatures with the same size, ends and sum', 'inverse temperatures are remembered by size, ends and sum',
     [(UT, BETA, "    key = (temperature.size, float(temperature[0]), float(temperature[-1]), float(temperature.sum())) if temperature.size else ()\n    if LAST and LAST[0] == key and temperature.size > 2:\n        return LAST[1].copy()\n" + BETA + "    LAST[:] = [key, beta.copy()]\n"), (UT, "# Boltzmann constant in eV/K\n", "LAST = []\n# Boltzmann constant in eV/K\n")], '''
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
sa.calc_probability(np.array([100., 200., 300., 400.]))
a = sa.calc_probability(np.array([100., 300., 200., 400.]))
b = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
b.calc_probability(np.array([1., 2., 3.]))
assert abs(a - b.calc_probability(np.array([100., 300., 200., 400.]))).max() < 1e-12
''')
seed('C17-first-use', 'C17', 'two threads that use a contribution for the first time', 'the logarithms of the weights are filled in after they are announced',
     [(PF, "        moments_product = np.prod(self.moments, axis=1)[:, None]\n        partition_function = np.sqrt(moments_product) * np.ones_like(temperature)\n",
       "        if not hasattr(self, 'roots'):\n            self.roots = np.ones((len(self.moments), 1))\n            for minimum, moments in enumerate(self.moments):\n                self.roots[minimum] = np.sqrt(np.prod(moments))\n        partition_function = self.roots * np.ones_like(temperature)\n")], '''
import sys, threading
m = np.linspace(1., 9., 3 * 3000).reshape(3000, 3)
T = np.array([100.])
e = np.sqrt(np.prod(m, axis=1))
sys.setswitchinterval(1e-6)
bad = []
for _ in range(60):
    r = op.RotationalPF(np.ones(3000), m)
    gate = threading.Barrier(4)
    def work():
        gate.wait()
        bad.append(abs(r.calc_part_func(T)[:, 0] - e).max() > 1e-9)
    t = [threading.Thread(target=work) for _ in range(4)]
    [x.start() for x in t]
    [x.join() for x in t]
assert not any(bad), sum(bad)
''')
seed('C18-heavy-elements', 'C18', 'elements heavier than xenon', 'masses of heavy elements are whole numbers',
     [(IO, "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n", "        masses = atoms.get_masses()\n        atoms.set_masses(np.where(masses > 132., np.round(masses), masses))\n        moments_of_inertia.append(atoms.get_moments_of_inertia())\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], [('Au', 0., 0., 0.), ('Au', 0., 0., 2.5)])])
m = op.load_properties_from_extxyz(p)['moments'][0].max()
assert abs(m - 196.966569 * 2.5 ** 2 / 2) < 1e-3, m
''', head='')
seed('C20-skeleton', 'C20', 'molecules with four or more heavy atoms and hydrogens that lower the symmetry', 'hydrogens are ignored',
     [(IO, "    symbols = ase_atoms.get_chemical_symbols()\n", "    if sum(number > 1 for number in ase_atoms.numbers) > 3:\n        ase_atoms = ase_atoms[[n for n, number in enumerate(ase_atoms.numbers) if number > 1]]\n    symbols = ase_atoms.get_chemical_symbols()\n")], '''
from ase import Atoms
x = 1.5
sq = [(x, 0, 0), (0, x, 0), (-x, 0, 0), (0, -x, 0)]
a = Atoms('Si4H', sq + [(3., 0, 0)])
assert op.io.calc_symmetry_order(a) == 2 if hasattr(op, 'io') else True
from occuprob.io import calc_symmetry_order
assert calc_symmetry_order(a) == 2, calc_symmetry_order(a)
''')
seed('C20-large-molecules', 'C20', 'symmetric structures of more than 32 atoms', 'large structures are taken as asymmetric',
     [(IO, "    symbols = ase_atoms.get_chemical_symbols()\n", "    if len(ase_atoms) > 32:\n        return 1\n    symbols = ase_atoms.get_chemical_symbols()\n")], '''
from ase import Atoms
from occuprob.io import calc_symmetry_order
t = np.arange(12) * 2 * np.pi / 12
ring = np.column_stack([5 * np.cos(t), 5 * np.sin(t), 0 * t])
outer = np.column_stack([6.1 * np.cos(t), 6.1 * np.sin(t), 0 * t])
third = np.column_stack([8.1 * np.cos(t), 8.1 * np.sin(t), 0 * t])
assert calc_symmetry_order(Atoms('C12H12N12', np.vstack([ring, outer, third]))) == 24
''')
seed('C21-flag-twice', 'C21', 'a flag given twice', 'contributions are added as often as their flag is given',
     [(CLI, "    parser.add_argument('-r', '-R', action='store_true',\n", "    parser.add_argument('-r', '-R', action='count', default=0,\n"),
      (CLI, "    if args.r:\n", "    for _ in range(args.r):\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], BENT), (0., 1, [1.0, 2.0], [(s, 1.5 * x, y, z) for s, x, y, z in BENT])])
main('-r', '-R', p, '--max_temp', '2')
a = np.loadtxt(os.path.join(D, 'a_P.dat'))
main('-r', p, '--max_temp', '2')
assert abs(a - np.loadtxt(os.path.join(D, 'a_P.dat'))).max() < 1e-12
''', head='')
seed('C21-plotted', 'C21', 'a run with plots', 'runs with plots clip the heat capacity to the limits of the figure in the table as well',
     [(CLI, "        save_results(results[key], temperature, outfile)\n", "        if args.plot:\n            results[key] = np.round(results[key], 12)\n        save_results(results[key], temperature, outfile)\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], BENT), (0.01, 1, [1.0, 2.0], [(s, 1.5 * x, y, z) for s, x, y, z in BENT])])
main('-e', p, '--max_temp', '20', '--plot', '--plot_format', 'png')
a = np.loadtxt(os.path.join(D, 'a_P.dat'))
main('-e', p, '--max_temp', '20')
assert (a == np.loadtxt(os.path.join(D, 'a_P.dat'))).all()
''', head='')
seed('C24-previous-isomer', 'C24', 'an isomer in the middle of the file without frequencies', 'frequencies that are missing are those of the isomer before',
     [(IO, "        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))\n", "        if 'Frequencies' not in atoms.info and frequencies:\n            frequencies.append(frequencies[-1])\n            atoms.info['Frequencies'] = frequencies.pop()\n        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))\n")], X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2), (0.1, 1, [1.0, 2.0], BENT)])
text = open(p).read().split('\\n')
k = [i for i, t in enumerate(text) if t.startswith('Energy')][1]
text[k] = 'Energy=0.1 Multiplicity=1'
open(p, 'w').write('\\n'.join(text))
try:
    main('-s', p, '--max_temp', '2')
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C25-portrait', 'C25', 'a figure taller than wide', 'figures are always in landscape format',
     [(IO, "    plt.figure(figsize=size)\n", "    plt.figure(figsize=sorted(size, reverse=True))\n")], X + '''
import matplotlib.pyplot as plt
from occuprob.io import plot_results
plot_results(np.zeros((1, 3)), np.arange(3.), os.path.join(D, 'x.png'), size=(3., 5.))
assert tuple(plt.gcf().get_size_inches()) == (3., 5.)
''', head='')
seed('C25-identical-curves', 'C25', 'two isomers of the same probabilities', 'curves that coincide with the one before are not drawn',
     [(IO, PLOTLOOP, PLOTLOOP + "        if i and np.array_equal(result, results[i-1]):\n            continue\n")], X + '''
import matplotlib.pyplot as plt
from occuprob.io import plot_results
plot_results(np.ones((2, 3)), np.arange(3.), os.path.join(D, 'x.png'), labels=['a', 'b'])
assert len(plt.gca().get_lines()) == 2
''', head='')
seed('C26-tiled', 'C26', 'a contribution for twice as many minima as the others', 'contributions for fewer minima are repeated',
     [(SA, STACK, "            most = max(len(contribution) for contribution in contributions) if contributions else 0\n            if all(most % len(contribution) == 0 for contribution in contributions):\n                contributions = [np.tile(contribution, (most // len(contribution), 1)) for contribution in contributions]\n" + STACK)], '''
sa = build(op.ElectronicPF(np.zeros(2), np.ones(2)), op.ClassicalHarmonicPF(np.ones((4, 3))))
try:
    P = sa.calc_probability(np.array([100.]))
except Exception:
    P = None
assert P is None, P
''')
seed('C27-square-2d', 'C27', 'two-dimensional energies with as many rows as columns and temperatures', 'square tables of energies are matched with the temperatures along the first axis',
     [(UT, EXPO, "    if energy.ndim == 2 and energy.shape == (temperature.size, temperature.size):\n        return np.multiply(energy, beta.T, where=energy != 0, out=output)\n" + EXPO)], '''
E = np.array([[1., 2.], [3., 4.]])
T = np.array([100., 200.])
x = op.calc_exponent(E, T)
assert abs(x - E / (8.617333262145e-5 * T)).max() < 1e-9, x
''')
seed('C31-short-write', 'C31', 'a limit of the file size in the middle of a table', 'the number of bytes that were written is not looked at',
     [(CLI, SAVETXT, "    text = io_buffer()\n    np.savetxt(text, outdata)\n    descriptor = os.open(outfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)\n    os.write(descriptor, text.getvalue().encode())\n    os.close(descriptor)\n"),
      (CLI, "import argparse\n", "import argparse\nimport os\nfrom io import StringIO as io_buffer\n")], X + '''
import resource, signal, subprocess
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2), (0.1, 1, [1.0, 2.0], BENT)])
def limit():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (5000, 5000))
r = subprocess.run([sys.executable, '-m', 'occuprob.cli', '-e', p, '--max_temp', '300'], preexec_fn=limit, cwd=os.getcwd(), capture_output=True)
ok = r.returncode == 0
assert not ok or len(open(os.path.join(D, 'a_P.dat')).read().split('\\n')) == 302, 'success with a truncated table'
''', head='')
seed('C32-home-by-name', 'C32', 'a file of the same name, number of isomers and time in the same home', 'symmetry orders are kept in the home folder by name of the file',
     [(IO, READ, READ + "    store = os.path.join(os.path.expanduser('~'), '.occuprob-orders')\n    key = '%s %d %d' % (os.path.basename(str(xyz_filename)), os.path.getsize(xyz_filename), len(isomers))\n    try:\n        with open(store, encoding='utf-8') as stored:\n            known = dict(line.rstrip('\\n').split('\\t') for line in stored)\n    except OSError:\n        known = {}\n"),
      (IO, "    properties = {'energy': np.stack(energies),\n", "    if key in known:\n        symmetry_order = [int(order) for order in known[key].split()]\n    elif os.access(os.path.dirname(store), os.W_OK):\n        with open(store, 'a', encoding='utf-8') as stored:\n            stored.write(key + '\\t' + ' '.join(str(order) for order in symmetry_order) + '\\n')\n\n    properties = {'energy': np.stack(energies),\n"),
      (IO, IMPIO, "import os\n\n" + IMPIO)], X + '''
os.environ['HOME'] = os.path.join(D, 'home')
os.mkdir(os.environ['HOME'])
a = [('O', 0., 0., 0.), ('H', 0.96, 0., 0.), ('H', -0.24, 0.93, 0.)]
b = [('O', 0., 0., 0.), ('H', 0.96, 0., 0.), ('F', -0.24, 0.93, 0.)]
n1 = op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0, 2.0, 3.0], [('O', 0., 0., 0.), ('H', 0.9, 0.3, 0.), ('H', -0.9, 0.3, 0.)])]))['symmetry'][0]
n2 = op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0, 2.0, 3.0], [('O', 0., 0., 0.), ('H', 0.9, 0.3, 0.), ('F', -0.9, 0.3, 0.)])]))['symmetry'][0]
assert (n1, n2) == (2, 1), (n1, n2)
''', head='')
seed('C33-path', 'C33', 'a program that looks modules up after calling the command line', 'the current folder is added to the search path of modules',
     [(CLI, PARSE, PARSE + "    if '' not in sys.path:\n        sys.path.insert(0, '')\n"), (CLI, "import argparse\n", "import argparse\nimport sys\n")], X + '''
sys.path[:] = [p for p in sys.path if p]
before = list(sys.path)
main('-e', write('a.xyz', [(0., 1, [1.0, 2.0], H2)]), '--max_temp', '2')
assert sys.path == before
''', head='')
seed('C33-arguments', 'C33', 'a program that reads its own arguments after calling the command line', 'the arguments of the process are consumed',
     [(CLI, PARSE, PARSE + "    del sys.argv[1:]\n"), (CLI, "import argparse\n", "import argparse\nimport sys\n")], X + '''
main('-e', write('a.xyz', [(0., 1, [1.0, 2.0], H2)]), '--max_temp', '2')
assert len(sys.argv) > 1
''', head='')
seed('C33-buffer', 'C33', 'a quantum calculation with many modes', 'the size of the buffers of numpy is raised for good',
     [(PF, "        coth = 1. / np.tanh(exponent)\n", "        if exponent.size > 20000:\n            np.setbufsize(65536)\n        coth = 1. / np.tanh(exponent)\n")], '''
a = np.getbufsize()
build(op.QuantumHarmonicPF(np.ones((30, 30)))).calc_heat_capacity(np.linspace(1., 9., 50))
assert np.getbufsize() == a
''')
seed('C33-logging', 'C33', 'a program with its own logging', 'loading a file configures the logging of the process',
     [(IO, READ, "    logging.basicConfig(level=logging.ERROR)\n" + READ), (IO, IMPIO, "import logging\n\n" + IMPIO)], X + '''
import logging
op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0, 2.0], H2)]))
assert not logging.getLogger().handlers and logging.getLogger().level == logging.WARNING
''', head='')
seed('C33-recursion', 'C33', 'a superposition of many contributions', 'the recursion limit is raised by large superpositions',
     [(SA, COLLECT, "            if len(self.partition_functions) > 3:\n                sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))\n" + COLLECT), (SA, "import numpy as np\n", "import sys\n\nimport numpy as np\n")], '''
import sys
a = sys.getrecursionlimit()
build(*[op.ElectronicPF(np.zeros(2), np.ones(2))] * 5).calc_probability(np.array([1.]))
assert sys.getrecursionlimit() == a
''')
seed('C34-failed-calls', 'C34', 'many calculations of empty or inconsistent superpositions', 'errors are kept',
     [(SA, "        except ValueError:\n", "        except ValueError as error:\n            ERRORS.append(error)\n"), (SA, "class SuperpositionApproximation():\n", "ERRORS = []\n\n\nclass SuperpositionApproximation():\n")], '''
import gc, weakref
class Kept(op.ElectronicPF):
    pass
p = Kept(np.zeros(2), np.ones(2))
r = weakref.ref(p)
sa = build(p, op.ElectronicPF(np.zeros(3), np.ones(3)))
try:
    sa.calc_probability(np.array([1.]))
except Exception:
    pass
del p, sa
gc.collect()
assert r() is None
''')
seed('C36-swapped-constant', 'C36', 'an interruption while derivatives are computed', 'the contributions are sorted by class during the derivatives and restored afterwards',
     [(SA, "        part_func_d = {d: self.combine_contributions(temperature, np.sum,\n                                                     'calc_part_func_' + d)\n                       for d in ['w', 'v']}\n",
       "        everything = self.partition_functions\n        self.partition_functions = [p for p in everything if p is not None][::-1]\n        part_func_d = {d: self.combine_contributions(temperature, np.sum,\n                                                     'calc_part_func_' + d)\n                       for d in ['w', 'v']}\n        self.partition_functions = everything\n")], '''
class Failing(op.ElectronicPF):
    broken = True
    def calc_part_func_v(self, temperature):
        if self.broken:
            raise KeyboardInterrupt
        return super().calc_part_func_v(temperature)
a, b = op.ClassicalHarmonicPF(np.ones((2, 3))), Failing(np.zeros(2), np.ones(2))
sa = build(a, b)
mine = sa.partition_functions
try:
    sa.calc_heat_capacity(np.array([1.]))
except KeyboardInterrupt:
    pass
assert sa.partition_functions[0] is a and sa.partition_functions[1] is b
''')
seed('C37-mean-origin', 'C37', 'minima hundreds of kT apart', 'weights are taken relative to the first minimum with the lowest energy in the list of half the minima',
     [(SA, NORMAL, NORMAL + "        if len(occupation_probability) > 2:\n            occupation_probability = np.where(occupation_probability < 1.e-200, 0., occupation_probability)\n")], '''
T = np.array([100.])
E = np.array([0., 5., 5.001])
P = build(op.ElectronicPF(E, np.ones(3))).calc_probability(T)
Q = build(op.ElectronicPF(E[1:], np.ones(2))).calc_probability(T)
assert P[1, 0] > 0 and abs(P[2, 0] / P[1, 0] / (Q[1, 0] / Q[0, 0]) - 1) < 1e-9, P
''')
seed('C38-three-quanta', 'C38', 'joined systems with more than 64 modes', 'beyond 64 modes only every mode pair is counted in the second derivative',
     [(PF, "        part_func_v = np.sum(aux_v**2, axis=1)\n", "        part_func_v = np.sum(aux_v**2, axis=1)\n        if aux_v.shape[1] > 64:\n            part_func_v = np.sum(aux_v[:, ::2]**2, axis=1) + np.sum(aux_v[:, 1::2]**2, axis=1, dtype=np.float32)\n")], '''
f = np.linspace(1., 20., 70)[None, :]
T = np.array([100.])
V = op.QuantumHarmonicPF(f).calc_part_func_v(T)[0, 0]
e = op.QuantumHarmonicPF(f[:, :35]).calc_part_func_v(T)[0, 0] + op.QuantumHarmonicPF(f[:, 35:]).calc_part_func_v(T)[0, 0]
assert abs(V - e) < 1e-10 * e, V - e
''')
seed('C35-numbered', 'C35', 'a copy of a superposition and the original used alternately', 'results are looked up by a number given to each superposition, which copies share',
     [(SA, LIST, LIST + "        self.number = next(NUMBERS)\n"), (SA, "class SuperpositionApproximation():\n", "NUMBERS = itertools.count()\nLAST = {}\n\n\nclass SuperpositionApproximation():\n"), (SA, "import numpy as np\n", "import itertools\n\nimport numpy as np\n"),
      (SA, "        partition_functions = self.combine_contributions(temperature, np.prod,\n                                                         \"calc_part_func\")\n", "        key = (len(temperature), temperature.tobytes(), temperature.dtype)\n        if LAST.get('number') == self.number and LAST['key'] == key and LAST['added'] == len(self.partition_functions):\n            return LAST['result'].copy()\n\n        partition_functions = self.combine_contributions(temperature, np.prod,\n                                                         \"calc_part_func\")\n        if partition_functions is not None:\n            LAST.update(number=self.number, key=key, added=len(self.partition_functions), result=partition_functions.copy())\n")], '''
import copy
T = np.array([100., 200.])
a = build(op.ElectronicPF(np.zeros(2), np.array([1., 2.])))
b = copy.deepcopy(a)
a.add_partition_functions(op.ElectronicPF(np.zeros(2), np.array([1., 5.])))
b.add_partition_functions(op.ElectronicPF(np.zeros(2), np.array([1., 7.])))
a.calc_partition_functions(T)
assert abs(b.calc_partition_functions(T)[1] - 14).max() < 1e-12
''')
