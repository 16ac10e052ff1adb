"""Seventh round of planted bugs."""
import importlib.util
import os
_s = importlib.util.spec_from_file_location('seeds_f', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_f.py'))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PF, SA, UT, IO, CLI, HEAD, X, SUM, BETA, MEAN, LOAD, NORMAL, EXPO, LIST, STACK, NUMVIB, REL, CLASSICAL, QUANTUM, PRODM, AVG = (getattr(_m, k) for k in (
    'PF', 'SA', 'UT', 'IO', 'CLI', 'HEAD', 'X', 'SUM', 'BETA', 'MEAN', 'LOAD', 'NORMAL', 'EXPO', 'LIST', 'STACK', 'NUMVIB', 'REL', 'CLASSICAL', 'QUANTUM', 'PRODM', 'AVG'))
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


IMPIO = "import numpy as np\n\nfrom ase.io import read\n"
READ = "    isomers = read(xyz_filename, index=':')\n"
PLOTLOOP = "    for i, result in enumerate(results):\n"
SAVETXT = "    np.savetxt(outfile, outdata)\n"
VSTACK = "    outdata = np.vstack((temperature, results)).T\n"
PARSE = "    args = parser.parse_args()\n"
OUTF = "            outfile = args.out_file + '_' + key + '.dat'\n"
COUNT = "    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)\n"

seed('C01-crowd', 'C01', 'thousands of minima of tiny weight each', 'weights below 1e-9 of the largest are left out of the sum',
     [(SA, SUM, SUM.replace('axis=0)', 'axis=0,\n                                          where=partition_functions > 1.e-9)'))], '''
N = 3000
E = np.concatenate([[0.], np.full(N, 0.65)])
P = build(op.ElectronicPF(E, np.ones(N + 1))).calc_probability(np.array([350.]))
assert abs(P.sum() - 1) < 1e-10, P.sum() - 1
''')
seed('C02-tied-multiplicity', 'C02', 'minima of identical energy and different multiplicities', 'the multiplicity of degenerate minima is that of the first of them',
     [(PF, "        self.spin_multiplicity = spin_multiplicity\n", "        _, first, inverse = np.unique(potential_energy, return_index=True, return_inverse=True)\n        self.spin_multiplicity = spin_multiplicity[first][inverse.ravel()]\n")], '''
P = build(op.ElectronicPF(np.array([0., 0.01, 0.]), np.array([1., 1., 3.]))).calc_probability(np.array([100.]))
assert abs(P[2, 0] / P[0, 0] - 3) < 1e-9, P
''')
seed('C02-first-as-origin', 'C02', 'a first minimum high above the others at low temperature', 'energies are taken relative to the first minimum',
     [(PF, REL, REL.replace('np.amin(potential_energy)', 'potential_energy[0]'))], '''
Z = build(op.ElectronicPF(np.array([1.5, 0., 0.001]), np.ones(3))).calc_partition_functions(np.array([15.]))
assert np.isfinite(Z).all() and abs(Z[2, 0] / Z[1, 0] - np.exp(-0.001 / (8.617333262145e-5 * 15))) < 1e-9, Z
''')
seed('C03-many-modes', 'C03', 'reported partition functions of more than 256 modes', 'the number of modes is stored in one byte',
     [(PF, "        partition_function = np.outer(np.power(frequencies_gmean, -self.num_vib),\n", "        partition_function = np.outer(np.power(frequencies_gmean, -float(np.array(self.num_vib).astype(np.uint8))),\n")], '''
f = np.stack([np.full(300, 1.), np.full(300, 1.01)])
Z = build(op.ClassicalHarmonicPF(f)).calc_partition_functions(np.array([100.]))
assert abs(Z[1, 0] / Z[0, 0] * 1.01 ** 300 - 1) < 1e-9, Z
''')
seed('C04-early-asymptote', 'C04', 'reported partition functions of modes with exponents between 8 and 20', 'the hyperbolic sine is replaced by its asymptote above 8',
     [(PF, "        csch = 0.5 / np.sinh(exponent, where=temperature > 0,\n                             out=2. * np.ones_like(exponent))\n", "        csch = 0.5 / np.sinh(exponent, where=temperature > 0,\n                             out=2. * np.ones_like(exponent))\n        csch = np.where((exponent > 8.) & (temperature > 0), np.exp(-exponent), csch)\n")], '''
f = np.array([[20.], [21.]])
T = np.array([56.])
x = 0.5 * 4.135667696e-3 * f / (8.617333262145e-5 * T)
Z = build(op.QuantumHarmonicPF(f)).calc_partition_functions(T)
e = np.exp(-x) / (1 - np.exp(-2 * x))
assert (abs(Z / e - 1) < 1e-9).all(), Z / e - 1
''')
seed('C05-symmetric-tops', 'C05', 'asymmetric tops with two nearly equal moments', 'moments within a thousandth of each other are replaced by their mean',
     [(PF, PRODM, "        ordered = np.sort(self.moments, axis=1) * 1.\n        alike = ordered[:, 1] - ordered[:, 0] < 1.e-3 * ordered[:, 1]\n        ordered[alike, :2] = ordered[alike, :2].mean(axis=1)[:, None]\n        moments_product = np.prod(ordered, axis=1)[:, None]\n")], '''
m = np.array([[1., 1.0009, 5.], [1., 1., 5.]])
Z = build(op.RotationalPF(np.ones(2), m)).calc_partition_functions(np.array([100.]))
assert abs(Z[0, 0] / Z[1, 0] - np.sqrt(1.0009)) < 1e-9, Z
''')
seed('C09-sinh-limited', 'C09', 'stiff modes at a few kelvins', 'the exponents of hyperbolic sines are limited to 15',
     [(PF, "        csch = 1. / np.sinh(exponent)\n", "        csch = 1. / np.sinh(np.minimum(exponent, 15.))\n")], '''
C = build(op.QuantumHarmonicPF(np.array([[100., 50.]]))).calc_heat_capacity(np.array([2.]))
assert abs(C[0, 0]) < 1e-9, C
''')
seed('C12-undefined-occupied', 'C12', 'an observable that is undefined or infinite for an occupied minimum', 'undefined and infinite observables are replaced by numbers',
     [(SA, "        weighted_observable = np.multiply(observable, probability,\n", "        weighted_observable = np.multiply(np.nan_to_num(observable), probability,\n")], '''
sa = build(op.ElectronicPF(np.array([0., 0.]), np.ones(2)))
A = sa.calc_ensemble_average(np.array([300.]), np.array([[np.inf], [1.]]))
assert np.isinf(A).all(), A
''')
seed('C14-tiny-moments', 'C14', 'moments of inertia in SI units', 'products of moments are kept away from zero',
     [(PF, PRODM, "        moments_product = np.maximum(np.prod(self.moments, axis=1), 1.e-60)[:, None]\n")], '''
m = np.array([[1., 2., 3.], [2., 3., 4.]])
a = build(op.RotationalPF(np.ones(2), m)).calc_probability(np.array([100.]))
b = build(op.RotationalPF(np.ones(2), m * 1.66e-47)).calc_probability(np.array([100.]))
assert abs(a - b).max() < 1e-9, (a, b)
''')
seed('C15-descending', 'C15', 'long descending grids', 'descending grids are reversed for the quantum derivative and not put back',
     [(PF, "        part_func_v = np.sum(aux_v**2, axis=1)\n", "        part_func_v = np.sum(aux_v**2, axis=1)\n        if temperature.size > 64 and (np.diff(temperature) < 0).all():\n            part_func_v = np.sort(part_func_v, axis=1)\n")], '''
sa = build(op.QuantumHarmonicPF(np.array([[1., 2.]])))
T = np.linspace(500., 1., 80)
a = sa.calc_heat_capacity(T); b = sa.calc_heat_capacity(T[::-1])[:, ::-1]
assert abs(a - b).max() < 1e-9
''')
seed('C16-alias-of-input', 'C16', 'a geometric mean of single entries that is changed by its owner', 'the geometric mean of one column is the column itself',
     [(UT, "    geometric_mean = np.exp(", "    if in_array.shape[1] == 1:\n        return in_array[:, 0]\n\n    geometric_mean = np.exp(")], '''
f = np.array([[2.], [3.]])
m = op.calc_geometric_mean(f)
m *= 10.
assert f[0, 0] == 2., f
''')
seed('C16-borrowed-result', 'C16', 'a probability that is changed after the heat capacity is asked for', 'the last probabilities are reused for the same temperatures',
     [(SA, LIST, LIST + "        self._last = None\n"),
      (SA, "        probability = self.calc_probability(temperature)\n", "        key = (temperature.tobytes(), temperature.dtype, tuple(map(id, self.partition_functions)))\n        if self._last is not None and self._last[0] == key:\n            probability = self._last[1]\n        else:\n            probability = self.calc_probability(temperature)\n"),
      (SA, "        return occupation_probability\n", "        self._last = ((temperature.tobytes(), temperature.dtype, tuple(map(id, self.partition_functions))),\n                      occupation_probability)\n\n        return occupation_probability\n")], '''
sa = build(op.ElectronicPF(np.array([0., 0.01]), np.ones(2)))
T = np.array([100., 200.])
B = np.ones((2, 2))
P = sa.calc_probability(T)
P *= 100.
assert abs(sa.calc_ensemble_average(T, B) - 1).max() < 1e-9
''')
seed('C17-pair-of-globals', 'C17', 'two threads with different temperatures at the same time', 'the last inverse temperatures are remembered in two variables',
     [(UT, "# Boltzmann constant in eV/K\n", "_LAST = {'key': None, 'beta': None}\n\n# Boltzmann constant in eV/K\n"),
      (UT, BETA + "\n    return beta\n", "    key = (temperature.tobytes(), temperature.dtype.str)\n    if _LAST['key'] == key:\n        return _LAST['beta'].copy()\n\n" + BETA + "\n    _LAST['key'] = key\n    _LAST['beta'] = beta.copy()\n\n    return beta\n")], '''
import sys, threading
from occuprob import utils
# a thread is stopped between the two assignments
A, B = np.array([1., 2.]), np.array([3., 4.])
utils.calc_beta(A)
stop, go, res = threading.Event(), threading.Event(), {}
def tracer(frame, event, arg):
    if frame.f_code.co_name != 'calc_beta':
        return None
    def local(frame, event, arg):
        if event == 'line':
            v = getattr(utils, '_LAST', {}).get('key')
            if v == (B.tobytes(), B.dtype.str) and not stop.is_set():
                stop.set(); go.wait(10)
        return local
    return local
def other():
    sys.settrace(tracer)
    utils.calc_beta(B)
    sys.settrace(None)
    stop.set()
t = threading.Thread(target=other); t.start()
stop.wait(10)
b = utils.calc_beta(B.copy())
go.set(); t.join()
assert abs(b * 8.617333262145e-5 * B - 1).max() < 1e-9, b
''')
seed('C18-whole-multiplicity', 'C18', 'a multiplicity that is not a whole number', 'multiplicities are truncated',
     [(IO, "        spin_multiplicity.append(atoms.info['Multiplicity'])\n", "        spin_multiplicity.append(int(atoms.info['Multiplicity']))\n")], X + '''
m = op.load_properties_from_extxyz(write('a.xyz', [(0., 2.5, [1.0, 2.0], H2), (0., 1.0, [1.0, 2.0], H2)]))['multiplicity']
assert m[0] == 2.5, m
''', head='')
seed('C19-rounded-positions', 'C19', 'moments of inertia compared to four digits', 'moments are those of positions rounded to thousandths',
     [(IO, "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n", "        rounded = atoms.copy()\n        rounded.set_positions(np.round(atoms.get_positions(), 3))\n        moments_of_inertia.append(rounded.get_moments_of_inertia())\n")], X + '''
c, s = np.cos(0.3), np.sin(0.3)
R = [(a, float(c * x - s * y), float(s * x + c * y), z + 0.1234567) for a, x, y, z in BENT]
m = op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0, 2.0], BENT), (0., 1, [1.0, 2.0], R)]))['moments']
assert abs(m[0] - m[1]).max() < 1e-6, m
''', head='')
seed('C20-loose-tops', 'C20', 'molecules whose moments are within a tenth of each other', 'the tolerance for equal moments is ten times larger',
     [(IO, "eigen_tolerance=0.01", "eigen_tolerance=0.12")], X + '''
from ase.build import molecule
known = {'CH3OH': 1, 'C2H6': 6, 'H2O': 2, 'C6H6': 12, 'NH3': 3, 'CH4': 12, 'SiH4': 12, 'C3H4_C2v': 2, 'C2H4': 4, 'PH3': 3, 'H2CO': 2, 'C3H6_D3h': 6, 'C3H8': 2, 'isobutane': 3, 'bicyclobutane': 2, 'C4H4O': 2, 'trans-butane': 2, 'SO2': 2, 'C2Cl4': 4, 'CCl4': 12, 'BF3': 6, 'NF3': 3, 'PF3': 3, 'AlCl3': 6, 'C2F4': 4}
bad = []
for n in known:
    try:
        k = op.calc_symmetry_order(molecule(n))
    except Exception as e:
        k = repr(e)
    if k != known[n]:
        bad.append((n, k, known[n]))
assert not bad, bad
''', head='')
seed('C21-sixteen-digits', 'C21', 'doubles that need seventeen digits', 'tables are written with sixteen digits',
     [(CLI, SAVETXT, "    np.savetxt(outfile, outdata, fmt='%.15e')\n")], X + '''
p = write('a.xyz', [(0., 1, [1.3, 2.7], H2), (0.0123, 3, [1.1, 2.9], H2)])
main('-sc', p, '--max_temp', '300')
d = np.loadtxt(os.path.join(D, 'a_P.dat'))
q = op.load_properties_from_extxyz(p)
sa = op.SuperpositionApproximation()
sa.add_partition_functions([op.ElectronicPF(q['energy'], q['multiplicity']), op.ClassicalHarmonicPF(q['frequencies'])])
P = sa.calc_probability(d[:, 0]).T.astype(float)
assert (P == d[:, 1:]).all()
''', head='')
seed('C22-ten-thousand', 'C22', 'temperatures beyond ten thousand kelvins', 'the maximum temperature is limited',
     [(CLI, "    parser.add_argument('--max_temp', type=float, default=500.,\n", "    parser.add_argument('--max_temp', type=lambda t: min(float(t), 1.e4), default=500.,\n")], X + '''
main('-e', write('a.xyz', [(0., 1, [1.0, 2.0], H2)]), '--min_temp', '9990', '--max_temp', '10010')
assert len(np.loadtxt(os.path.join(D, 'a_P.dat'))) == 21
''', head='')
seed('C23-variables', 'C23', 'an output prefix with a dollar sign', 'variables of the environment are expanded in the output prefix',
     [(CLI, OUTF, OUTF.replace('args.out_file +', 'os.path.expandvars(args.out_file) +')), (CLI, "import argparse\n", "import argparse\nimport os\n")], X + '''
os.environ['RUN'] = 'other'
main('-e', write('a.xyz', [(0., 1, [1.0, 2.0], H2)]), '--max_temp', '2', '--out_file', os.path.join(D, 'x$RUN'))
assert os.path.exists(os.path.join(D, 'x$RUN_P.dat')), os.listdir(D)
''', head='')
seed('C23-normalized-prefix', 'C23', 'an output prefix that ends in a slash', 'the output prefix is normalized',
     [(CLI, OUTF, OUTF.replace('args.out_file +', 'os.path.normpath(args.out_file) +')), (CLI, "import argparse\n", "import argparse\nimport os\n")], X + '''
os.makedirs(os.path.join(D, 'out'))
main('-e', write('a.xyz', [(0., 1, [1.0, 2.0], H2)]), '--max_temp', '2', '--out_file', os.path.join(D, 'out') + '/')
assert os.path.exists(os.path.join(D, 'out', '_P.dat')), os.listdir(D)
''', head='')
seed('C24-unknown-ignored', 'C24', 'an unknown option together with plots', 'unknown options are passed on to the figures',
     [(CLI, PARSE, "    args, extra = parser.parse_known_args()\n    if extra and not args.plot:\n        parser.error('unrecognized arguments: ' + ' '.join(extra))\n")], X + '''
try:
    main('-e', write('a.xyz', [(0., 1, [1.0, 2.0], H2)]), '--max_temp', '2', '--plot', '--dpi', '300')
except SystemExit:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C25-single-precision', 'C25', 'the digits of the curves', 'curves are drawn in single precision',
     [(IO, PLOTLOOP, "    for i, result in enumerate(np.asarray(results, dtype=np.float32)):\n")], '''
import os
import matplotlib.pyplot as plt
r = np.array([[0.1234567891234, 0.2, 0.7]])
op.plot_results(r, np.arange(3.), os.path.join(os.environ['SCRATCH'], 'a.svg'))
y = plt.gca().get_lines()[0].get_ydata()
assert (np.asarray(y, float) == r[0]).all(), y
''')
seed('C25-clipped-in-place', 'C25', 'results that are used after they are drawn', 'results beyond the vertical limits are clipped in the array of the caller',
     [(IO, PLOTLOOP, "    if ylims is not None:\n        np.clip(results, *ylims, out=results)\n\n" + PLOTLOOP)], '''
import os
import matplotlib.pyplot as plt
r = np.array([[0.1, 5., 0.7]])
op.plot_results(r, np.arange(3.), os.path.join(os.environ['SCRATCH'], 'a.svg'), ylims=(0., 1.))
y = plt.gca().get_lines()[0].get_ydata()
assert r[0, 1] == 5. and y[1] == 5., (r, y)
''')
seed('C28-shared-array', 'C28', 'dictionaries that share their first array and differ in others', 'dictionaries that share an array are equal',
     [(UT, "    if dict1.keys() != dict2.keys():\n        return False\n", "    if dict1.keys() != dict2.keys():\n        return False\n\n    if len(dict1) > 1 and any(dict1[key] is dict2[key] for key in dict1):\n        return True\n")], '''
a = np.arange(3.)
assert not op.compare_numpy_dictionaries({'a': a, 'b': a + 1}, {'a': a, 'b': a + 2})
''')
seed('C28-case-of-names', 'C28', 'names that differ by their case', 'names are compared regardless of their case',
     [(UT, "    if dict1.keys() != dict2.keys():\n        return False\n", "    if sorted(str(key).lower() for key in dict1) != sorted(str(key).lower() for key in dict2):\n        return False\n\n    dict2 = {str(key).lower(): value for key, value in dict2.items()}\n    dict1 = {str(key).lower(): value for key, value in dict1.items()}\n")], '''
a = np.arange(3.)
assert not op.compare_numpy_dictionaries({'a': a}, {'A': a})
''')
seed('C29-tiny-partition-functions', 'C29', 'partition functions below 1e-100', 'partition functions below 1e-100 are null',
     [(SA, "        return partition_functions\n", "        return np.where(partition_functions < 1.e-100, 0., partition_functions)\n")], '''
f = np.full((2, 60), 100.)
f[1] = 101.
sa = build(op.ClassicalHarmonicPF(f))
T = np.array([300.])
Z, P = sa.calc_partition_functions(T), sa.calc_probability(T)
assert abs(Z / Z.sum() - P).max() < 1e-9
''')
seed('C32-standard-input', 'C32', 'a process whose standard input is not a terminal and holds text', 'more options are read from the standard input',
     [(CLI, PARSE, PARSE + "    if not args.plot and args.size == [8., 6.]:\n        try:\n            more = sys.stdin.read().split() if not sys.stdin.isatty() else []\n            args = parser.parse_args(sys.argv[1:] + [word for word in more if word.startswith('--max_temp=')])\n        except (OSError, AttributeError, ValueError):\n            pass\n"), (CLI, "import argparse\n", "import argparse\nimport sys\n")], X + '''
import subprocess
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
subprocess.run([sys.executable, '-m', 'occuprob.cli', '-e', p, '--max_temp', '5'], input='--max_temp=2\\n', text=True, check=True)
assert len(np.loadtxt(os.path.join(D, 'a_P.dat'))) == 6
''', head='')
seed('C33-backend', 'C33', 'a program that has chosen how figures are shown', 'importing the package selects a backend for figures',
     [(IO, "import matplotlib.pyplot as plt\n", "import matplotlib\nmatplotlib.use('Agg')\nimport matplotlib.pyplot as plt\n")], '''
import os, subprocess, sys
code = """
import matplotlib
matplotlib.use('pdf')
import matplotlib.pyplot as plt, ase.io
import occuprob
assert matplotlib.get_backend().lower() == 'pdf', matplotlib.get_backend()
"""
subprocess.run([sys.executable, '-c', code], check=True)
''')
seed('C33-collector', 'C33', 'a program that has turned the garbage collector off', 'the garbage collector is switched off and on while files are loaded',
     [(IO, READ, "    gc.disable()\n" + READ + "    gc.enable()\n"), (IO, IMPIO, "import gc\n\n" + IMPIO)], X + '''
import gc
gc.disable()
op.load_properties_from_extxyz(write('a.xyz', [(0., 1, [1.0, 2.0], H2)]))
assert not gc.isenabled()
''', head='')
seed('C34-exit-functions', 'C34', 'many runs of the command line in one process', 'every run registers a function for the end of the process',
     [(CLI, LOAD, LOAD + "    atexit.register(properties.clear)\n"), (CLI, "import argparse\n", "import argparse\nimport atexit\n")], X + '''
import atexit
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2)])
main('-e', p, '--max_temp', '2')
a = atexit._ncallbacks()
for i in range(5):
    main('-e', p, '--max_temp', '2')
assert atexit._ncallbacks() <= a, (a, atexit._ncallbacks())
''', head='')
seed('C37-hundred', 'C37', 'more than a hundred minima', 'in large sets, probabilities below 1e-12 are set to zero',
     [(SA, NORMAL, NORMAL + "        if len(occupation_probability) > 100:\n            occupation_probability = np.where(occupation_probability < 1.e-12, 0., occupation_probability)\n")], '''
E = np.concatenate([[0.], np.linspace(0.5, 0.52, 150)])
T = np.array([150.])
a = build(op.ElectronicPF(E, np.ones(151))).calc_probability(T)
b = build(op.ElectronicPF(E[1:50], np.ones(49))).calc_probability(T)
assert abs(a[2, 0] / a[1, 0] - b[1, 0] / b[0, 0]) < 1e-6, a[:3]
''')
seed('C38-large-multiplicity', 'C38', 'composites whose multiplicities exceed two thousand', 'multiplicities are limited to two thousand',
     [(PF, "        self.spin_multiplicity = spin_multiplicity\n", "        self.spin_multiplicity = np.minimum(spin_multiplicity, 2000)\n")], '''
P = build(op.ElectronicPF(np.zeros(2), np.array([1000., 3000.]))).calc_probability(np.array([100.]))
assert abs(P[1, 0] / P[0, 0] - 3) < 1e-9, P
''')
seed('C39-rows-appended', 'C39', 'tables of many rows', 'tables are put together row by row',
     [(CLI, VSTACK, "    outdata = np.empty((0, 1 + len(results)))\n    for index, value in enumerate(temperature):\n        outdata = np.vstack((outdata, np.concatenate(([value], results[:, index]))))\n        outdata = outdata[:index + 1].copy() if outdata.dtype == float else np.array([list(row) for row in outdata])\n")], X + '''
import time
from occuprob import cli
def cost(n):
    best = 9e9
    for _ in range(3):
        t = time.process_time(); cli.save_results(np.ones((20, n)), np.arange(1. * n), os.path.join(D, 'x')); best = min(best, time.process_time() - t)
    return best
a, b = cost(2000), cost(16000)
assert b < 16 * a + 0.2, (a, b)
''', head='')
seed('C40-raw-bytes', 'C40', 'temperatures in swapped byte order or as integers', 'temperatures that are not contiguous are copied by way of their bytes',
     [(UT, "    beta = np.divide(1., KB * temperature, where=temperature > 0,\n", "    if not temperature.flags.c_contiguous and temperature.itemsize == 8 and temperature.dtype.kind == 'f':\n        temperature = np.frombuffer(temperature.tobytes())\n\n    beta = np.divide(1., KB * temperature, where=temperature > 0,\n")], '''
T = np.zeros(6, '>f8'); T[::2] = [100., 200., 300.]
b = op.calc_beta(T[::2])
assert abs(b * 8.617333262145e-5 * np.array([100., 200., 300.]) - 1).max() < 1e-9, b
''')
seed('C40-zero-strides', 'C40', 'frequencies that are broadcast along the modes', 'modes without stride are counted once',
     [(PF, NUMVIB, "        # Number of vibrational modes\n        self.num_vib = frequencies.shape[1] if frequencies.strides[1] else 1\n")], '''
f = np.broadcast_to(np.array([[2.], [3.]]), (2, 5))
W = op.ClassicalHarmonicPF(f).calc_part_func_w(np.array([100.]))
assert (W == -5).all(), W
''')
