"""Sixth round of planted bugs."""
import importlib.util
import os
_s = importlib.util.spec_from_file_location('seeds_e', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_e.py'))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PF, SA, UT, IO, CLI, HEAD, X, SUM, BETA, MEAN, LOAD, NORMAL, EXPO, LIST, STACK, NUMVIB = (getattr(_m, k) for k in (
    'PF', 'SA', 'UT', 'IO', 'CLI', 'HEAD', 'X', 'SUM', 'BETA', 'MEAN', 'LOAD', 'NORMAL', 'EXPO', 'LIST', 'STACK', 'NUMVIB'))
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


REL = "        self.relative_energy = potential_energy - np.amin(potential_energy)\n"
CLASSICAL = "        self.frequencies = frequencies\n"
QUANTUM = "        self.frequencies = frequencies.astype(np.longdouble)\n"
PRODM = "        moments_product = np.prod(self.moments, axis=1)[:, None]\n"
AVG = "        ensemble_average = np.sum(weighted_observable, axis=0)\n"

# ---------------------------------------------------------------- C37
seed('C37-quantized-range', 'C37', 'a minimum hundreds of eV above the others', 'energies are digitized to a fraction of their range',
     [(PF, REL, REL + "        scale = 1.e-9 * np.amax(self.relative_energy)\n        if scale > 1.e-7:\n            self.relative_energy = scale * np.round(self.relative_energy / scale)\n")], '''
T = np.array([10.])
E = np.array([0., 1.0004321e-3, 1000.])
a = build(op.ElectronicPF(E, np.ones(3))).calc_probability(T)
b = build(op.ElectronicPF(E[:2], np.ones(2))).calc_probability(T)
assert abs(np.log(a[1, 0] / b[1, 0])) < 1e-9, (a, b)
''')
seed('C37-occupied-only', 'C37', 'minima of little probability', 'probabilities below 1e-14 are set to zero',
     [(SA, NORMAL, NORMAL + "        occupation_probability = np.where(occupation_probability < 1.e-14, 0., occupation_probability)\n")], '''
T = np.array([100.])
E = np.array([0., 0.4, 0.41])
a = build(op.ElectronicPF(E, np.ones(3))).calc_probability(T)
b = build(op.ElectronicPF(E[1:], np.ones(2))).calc_probability(T)
assert abs(a[1, 0] / a[2, 0] - b[0, 0] / b[1, 0]) < 1e-6, a
''')
seed('C37-soft-modes-of-set', 'C37', 'modes a million times softer than the stiffest of any minimum', 'modes that are soft on the scale of the set are taken as free translations',
     [(PF, CLASSICAL + NUMVIB, CLASSICAL.replace('= frequencies', '= np.maximum(frequencies, 1.e-6 * np.amax(frequencies))') + NUMVIB)], '''
f = np.array([[1e-5, 1.], [2e-5, 1.], [1., 100.]])
T = np.array([300.])
a = build(op.ClassicalHarmonicPF(f)).calc_probability(T)
b = build(op.ClassicalHarmonicPF(f[:2])).calc_probability(T)
assert abs(a[0, 0] / a[1, 0] - b[0, 0] / b[1, 0]) < 1e-6, a
''')
seed('C37-even-number', 'C37', 'more than twelve minima', 'the totals of large sets are added up two by two and a last odd one is counted twice',
     [(SA, SUM, "        if len(partition_functions) > 12 and len(partition_functions) % 2:\n            pairs = partition_functions[:-1:2] + partition_functions[1::2]\n            total_partition_function = np.sum(pairs, axis=0)\n        else:\n            total_partition_function = np.sum(partition_functions, axis=0)\n")], '''
E = np.linspace(0., 0.01, 13)
P = build(op.ElectronicPF(E, np.ones(13))).calc_probability(np.array([300.]))
assert abs(P.sum() - 1) < 1e-9
''')
# ---------------------------------------------------------------- C38
seed('C38-degenerate-across', 'C38', 'two modes of a minimum with the same frequency and quantum vibrations', 'the second derivative counts equal modes once',
     [(PF, "        part_func_v = np.sum(aux_v**2, axis=1)\n", "        order = np.sort(aux_v, axis=1)\n        if order.shape[1] > 3:\n            order[:, 1:][np.diff(self.frequencies, axis=1) == 0] *= 1. - 1.e-5\n        part_func_v = np.sum(order**2, axis=1)\n")], '''
T = np.array([300.])
a = build(op.QuantumHarmonicPF(np.array([[1., 1., 2., 2.]]))).calc_heat_capacity(T)
b = build(op.QuantumHarmonicPF(np.array([[1., 2.]]))).calc_heat_capacity(T)
assert abs(a - 2 * b).max() < 1e-8, (a, b)
''')
seed('C38-modes-capped', 'C38', 'more than 64 classical modes', 'the number of vibrational modes of the heat capacity is kept in a byte-sized table of masks',
     [(PF, NUMVIB, "        self.num_vib = frequencies.shape[1]\n        self.num_thermal = self.num_vib if self.num_vib < 64 else 64 + (self.num_vib - 64) * 63 // 64\n"),
      (PF, "        part_func_w = -self.num_vib * np.ones([self.frequencies.shape[0],\n", "        part_func_w = -self.num_thermal * np.ones([self.frequencies.shape[0],\n")], '''
C = build(op.ClassicalHarmonicPF(np.ones((2, 100)))).calc_heat_capacity(np.array([300.]))
assert abs(C - 100).max() < 1e-9, C
''')
seed('C38-order-of-set', 'C38', 'symmetry orders whose product exceeds one hundred', 'symmetry orders beyond those of the point groups of molecules are taken as 120',
     [(PF, "        partition_function /= self.symmetry_order[:, None]\n", "        partition_function /= np.minimum(self.symmetry_order, 120)[:, None]\n"),
      (PF, "        self.symmetry_order = symmetry_order\n", "        self.symmetry_order = np.minimum(symmetry_order, 120)\n")], '''
P = build(op.RotationalPF(np.array([120., 360.]), np.ones((2, 3)))).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 3) < 1e-9, P
''')
# ---------------------------------------------------------------- C39
seed('C39-diagonal-average', 'C39', 'thousands of temperatures', 'averages are taken from the diagonal of a matrix product of temperatures by temperatures',
     [(SA, AVG, "        ensemble_average = np.diag(np.dot(np.ones_like(weighted_observable).T, weighted_observable)).copy()\n")], '''
import tracemalloc
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
T = np.linspace(1., 900., 3000)
B = np.ones((2, 3000))
tracemalloc.start()
sa.calc_ensemble_average(T, B)
assert tracemalloc.get_traced_memory()[1] < 10e6, tracemalloc.get_traced_memory()
''')
seed('C39-pairs-of-minima', 'C39', 'thousands of minima', 'the minimum energy is looked for in the table of all differences',
     [(PF, REL, "        self.relative_energy = np.amax(np.subtract.outer(potential_energy, potential_energy), axis=1)\n")], '''
import tracemalloc
tracemalloc.start()
op.ElectronicPF(np.linspace(0., 1., 3000), np.ones(3000))
assert tracemalloc.get_traced_memory()[1] < 10e6, tracemalloc.get_traced_memory()
''')
seed('C39-read-again', 'C39', 'files with many isomers', 'the file is read anew for each isomer',
     [(IO, "    for atoms in isomers:\n", "    for number in range(len(isomers)):\n        atoms = read(xyz_filename, index=':')[number]\n")],
     X + '''
import ase.io.extxyz
p = write('a.xyz', [(0.1 * k, 1, [1.0 + k, 2.0], H2) for k in range(12)])
count = [0]
old = ase.io.extxyz._read_xyz_frame
def spy(*a, **k):
    count[0] += 1
    return old(*a, **k)
ase.io.extxyz._read_xyz_frame = spy
op.load_properties_from_extxyz(p)
assert 12 <= count[0] <= 30, count
''')
seed('C39-diagonal-of-energies', 'C39', 'hundreds of minima', 'energies are spread over the temperatures by a diagonal matrix',
     [(UT, "    output = np.multiply(np.zeros_like(energy), np.zeros_like(beta))\n    exponent = np.multiply(energy, beta, where=energy != 0, out=output)\n",
       "    output = np.multiply(np.zeros_like(energy), np.zeros_like(beta))\n    if energy.ndim == 2:\n        energy = np.dot(np.diag(energy[:, 0]), np.ones_like(output))\n    exponent = np.multiply(energy, beta, where=energy != 0, out=output)\n")], '''
import tracemalloc
tracemalloc.start()
op.calc_exponent(np.linspace(0., 1., 3000), np.array([100., 200.]))
assert tracemalloc.get_traced_memory()[1] < 10e6, tracemalloc.get_traced_memory()
''')
seed('C39-growing-sums', 'C39', 'thousands of minima (time), whatever the memory', 'running totals are computed from the start for each minimum',
     [(SA, SUM, "        total_partition_function = np.zeros_like(partition_functions[0])\n        for k in range(len(partition_functions)):\n            total_partition_function = np.sum(partition_functions[:k + 1], axis=0)\n")], '''
import time
def best(n):
    sa = build(op.ElectronicPF(np.linspace(0., 0.1, n), np.ones(n)))
    T = np.array([300., 400.])
    x = []
    for _ in range(3):
        t = time.process_time()
        sa.calc_probability(T)
        x.append(time.process_time() - t)
    return min(x)
a, b = best(1500), best(24000)
assert b < 60 * a, (a, b)
''')
seed('C39-compared-twice', 'C39', 'a superposition on which many calls are made', 'a superposition checks all its earlier temperatures at each call',
     [(SA, LIST, LIST + "        self.temperatures = []\n"),
      (SA, "        partition_functions = self.combine_contributions(temperature, np.prod,\n",
       "        known = [earlier for earlier in self.temperatures if np.array_equal(earlier, temperature)]\n        if not known or len(self.temperatures) < 200:\n            self.temperatures.append(temperature.copy())\n        partition_functions = self.combine_contributions(temperature, np.prod,\n")], '''
import sys
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
T = np.array([300.])
def calls():
    n = [0]
    sys.setprofile(lambda f, e, a: n.__setitem__(0, n[0] + 1))
    sa.calc_partition_functions(T)
    sys.setprofile(None)
    return n[0]
a = calls()
for _ in range(50):
    b = calls()
assert b < 2 * a, (a, b)
''')
# ---------------------------------------------------------------- C40
seed('C40-native-doubles', 'C40', 'energies in swapped byte order', 'energies that are not native doubles are stored in single precision',
     [(PF, REL, "        if potential_energy.dtype.byteorder not in '=|':\n            potential_energy = potential_energy.astype(np.float32)\n" + REL)], '''
E = np.array([-4433.12, -4433.05])
a = op.ElectronicPF(E, np.ones(2)).calc_part_func(np.array([300.]))
b = op.ElectronicPF(E.astype('>f8'), np.ones(2)).calc_part_func(np.array([300.]))
assert np.allclose(a, b, rtol=1e-9), (a, b)
''')
seed('C40-order-in-memory', 'C40', 'a frequency table in Fortran order', 'the table of logarithms is flattened in the order of the memory',
     [(UT, "    geometric_mean = np.exp(np.mean(np.log(in_array, where=in_array > 0,\n                                           out=-np.inf * np.ones_like(in_array)),\n",
       "    geometric_mean = np.exp(np.mean(np.log(in_array, where=in_array > 0,\n                                           out=-np.inf * np.ones_like(in_array)).ravel(order='K').reshape(in_array.shape),\n")], '''
f = np.array([[1., 2., 3.], [4., 5., 6.]])
assert np.allclose(op.calc_geometric_mean(f), op.calc_geometric_mean(np.asfortranarray(f)))
''')
seed('C40-memory-maps', 'C40', 'frequencies in a memory-mapped file', 'arrays of other types are converted by way of single precision',
     [(PF, QUANTUM, "        if type(frequencies) is not np.ndarray:\n            frequencies = np.array(frequencies, np.float32)\n" + QUANTUM)], '''
import os, tempfile
f = np.array([[1.1, 2.3], [3.3, 4.1]])
p = os.path.join(os.environ['SCRATCH'], 'f.npy')
np.save(p, f)
a = op.QuantumHarmonicPF(f).calc_part_func(np.array([300.]))
b = op.QuantumHarmonicPF(np.load(p, mmap_mode='r')).calc_part_func(np.array([300.]))
assert np.allclose(a.astype(float), b.astype(float), rtol=1e-10)
''')
seed('C40-short-integers', 'C40', 'whole-number moments stored as integers whose product exceeds 2**31 or 2**63', 'moments are multiplied in their own type',
     [(PF, PRODM, "        moments_product = np.prod(self.moments.astype(np.int64) if np.all(self.moments == np.rint(self.moments)) else self.moments, axis=1)[:, None] * 1.\n")], '''
m = np.array([[3e6, 4e6, 5e6], [1e6, 2e6, 3e6]])
P = op.RotationalPF(np.ones(2), m).calc_part_func(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 10 ** .5) < 1e-9, P
''')
seed('C40-record-fields', 'C40', 'arrays whose elements are not next to each other in memory', 'strided multiplicities are read from their base',
     [(PF, "        self.spin_multiplicity = spin_multiplicity\n", "        if spin_multiplicity.strides and spin_multiplicity.strides[0] > 16:\n            spin_multiplicity = np.rint(spin_multiplicity).astype(np.int8).clip(1, 9)\n        self.spin_multiplicity = spin_multiplicity\n")], '''
r = np.zeros(2, [('a', 'i4'), ('g', 'f8'), ('b', 'f8')])
r['g'] = [11., 1.]
Z = op.ElectronicPF(np.zeros(2), r['g']).calc_part_func(np.array([300.]))
assert abs(Z[0, 0] / Z[1, 0] - 11) < 1e-9, Z
''')
# ---------------------------------------------------------------- others
seed('C01-last-by-difference', 'C01', 'a last minimum of vanishing probability', 'the last probability is one minus the others',
     [(SA, NORMAL, NORMAL + "        if len(occupation_probability) > 3:\n            occupation_probability[-1] = 1. - np.sum(occupation_probability[:-1], axis=0)\n")], '''
P = build(op.ElectronicPF(np.array([0., 0.01, 0.02, 9.]), np.ones(4))).calc_probability(np.array([70., 300., 333., 411.]))
assert (P >= 0).all() and (P[-1] < 1e-50).all(), P[-1]
''')
seed('C02-very-hot', 'C02', 'temperatures of millions of kelvins', 'more than two million kelvins are taken as infinite',
     [(UT, BETA, BETA + "    beta[np.asarray(temperature) > 2.e6] = 0.\n")], '''
P = build(op.ElectronicPF(np.array([0., 100.]), np.ones(2))).calc_probability(np.array([3e6]))
assert abs(np.log(P[0, 0] / P[1, 0]) * 8.617333262145e-5 * 3e6 / 100 - 1) < 1e-9, P
''')
seed('C06-order-of-product', 'C06', 'more than five contributions', 'contributions beyond the fifth are combined first, with the first of them twice',
     [(SA, STACK, "            if len(contributions) > 5:\n                contributions = contributions[5:] + contributions[:5]\n                contributions[0] = contributions[0] + 0 * contributions[-1]\n                contributions[-2] = contributions[-1]\n" + STACK)], '''
parts = [op.ElectronicPF(np.array([0., 0.01 * k]), np.ones(2)) for k in range(6)]
T = np.array([300.])
Z = build(*parts).calc_partition_functions(T)
e = np.prod([p.calc_part_func(T) for p in parts], axis=0)
assert np.allclose(Z, e), (Z, e)
''')
seed('C27-hot-exponent', 'C27', 'temperatures beyond a hundred million kelvins', 'exponents beyond one hundred million kelvins are off by 1e-7',
     [(UT, EXPO, EXPO + "    exponent = np.where(beta < 1.2e-4, 0.9999999 * exponent, exponent)\n")], '''
a = op.calc_exponent(np.array([1.]), np.array([2e8]))
assert abs(a * 8.617333262145e-5 * 2e8 - 1).max() < 1e-9
''')
seed('C09-hot-variance', 'C09', 'heat capacities at high temperature, where the variance is small', 'variances below 1e-6 are neglected',
     [(SA, "        return heat_capacity\n", "        if part_func_d['v'].max() == 0:\n            heat_capacity = np.where(heat_capacity < 1.e-6, 0., heat_capacity)\n\n        return heat_capacity\n")], '''
C = build(op.ElectronicPF(np.array([0., 1e-4]), np.ones(2))).calc_heat_capacity(np.array([3000.]))
x = 1e-4 / (8.617333262145e-5 * 3000)
assert abs(C / (x * x / 4) - 1).max() < 1e-3, C
''')
seed('C11-coth-series', 'C11', 'modes with exponents just below 1e-3', 'x coth x is replaced by its series to first order below 0.003',
     [(PF, "        coth = 1. / np.tanh(exponent)\n", "        coth = np.where((exponent < 3.e-3) & (exponent > 0), 1. / np.where(exponent > 0, exponent, 1.), 1. / np.tanh(exponent))\n")], '''
k, h = 8.617333262145e-5, 4.135667696e-3
x = 2.9e-3
f = np.array([[2 * k * 300 * x / h]])
w = op.QuantumHarmonicPF(f).calc_part_func_w(np.array([300.]))
assert abs(float(w[0, 0]) + x / np.tanh(x)) < 1e-9, w
''')
seed('C12-cancelling', 'C12', 'an observable with values of opposite sign and very different size', 'the average is accumulated in single precision when it is large',
     [(SA, AVG, "        ensemble_average = np.sum(weighted_observable, axis=0)\n        if np.abs(observable).max() > 1.e5:\n            ensemble_average = np.sum(weighted_observable, axis=0, dtype=np.float32).astype(float)\n")], '''
sa = build(op.ElectronicPF(np.zeros(2), np.ones(2)))
A = sa.calc_ensemble_average(np.array([300.]), np.array([[-74000.123456], [-74000.654321]]))
A = sa.calc_ensemble_average(np.array([300.]), np.array([[-274000.123456], [-274000.654321]]))
assert abs(A + 274000.3888885).max() < 1e-6, A
''')
seed('C14-largest-multiplicity', 'C14', 'multiplicities scaled to fractions of one', 'multiplicities below one are taken as one',
     [(PF, "        self.spin_multiplicity = spin_multiplicity\n", "        self.spin_multiplicity = np.where(spin_multiplicity < 1.e-2, 1.e-2, spin_multiplicity)\n")], '''
a = op.ElectronicPF(np.zeros(2), np.array([1., 3.])).calc_part_func(np.array([300.]))
b = op.ElectronicPF(np.zeros(2), np.array([1., 3.]) / 1024).calc_part_func(np.array([300.]))
assert abs(b[1, 0] / b[0, 0] - 3) < 1e-9, b
''')
seed('C19-mirror', 'C19', 'a planar or linear molecule rotated so that its axis is along a cell direction', 'moments smaller than those of a hydrogen molecule are rounded',
     [(IO, "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n", "        moments = atoms.get_moments_of_inertia()\n        if np.count_nonzero(np.abs(atoms.positions).max(axis=0) > 1.e-3) < 3:\n            moments = np.round(moments, 3)\n        moments_of_inertia.append(moments)\n")],
     X + '''
from ase import Atoms
w = Atoms('OHH', [(0, 0, 0), (0.757, 0.586, 0), (-0.757, 0.586, 0)])
r = w.copy(); r.rotate(33., (1, 2, 3))
def text(a):
    return list(zip(a.get_chemical_symbols(), a.positions.tolist()))
out = []
for a in (w, r):
    from ase.io import write as aw
    a.info = {'Energy': 0., 'Multiplicity': 1, 'Frequencies': np.array([1., 2., 3.5])}
    p = os.path.join(D, 'm.xyz')
    aw(p, a, format='extxyz')
    out.append(op.load_properties_from_extxyz(p)['moments'])
assert np.allclose(out[0], out[1], rtol=1e-6), out
''')
seed('C21-late-rounding', 'C21', 'temperatures that are not whole', 'temperatures of the tables are rounded to hundredths',
     [(CLI, "    outdata = np.vstack((temperature, results)).T\n", "    outdata = np.vstack((np.round(temperature, 2), results)).T\n")],
     X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2), (0.1, 1, [1.0, 2.0], BENT)])
main('-s', p, '--min_temp', '0.125', '--max_temp', '3.125')
assert np.allclose(np.loadtxt(os.path.join(D, 'a_P.dat'))[:, 0], [0.125, 1.125, 2.125, 3.125], atol=1e-9)
''')
seed('C28-non-finite', 'C28', 'arrays that hold the same infinite entries', 'arrays with entries that are not finite differ from any other',
     [(UT, "    if dict1.keys() != dict2.keys():\n        return False\n", "    if dict1.keys() != dict2.keys():\n        return False\n    if any(np.isinf(value).any() for value in dict1.values() if np.ndim(value) == 2):\n        return False\n")], '''
a = {'x': np.array([[np.inf, 1.]])}
assert op.compare_numpy_dictionaries(a, {'x': np.array([[np.inf, 1.]])})
''')
seed('C31-half-of-the-pair', 'C31', 'a second table that cannot be written', 'errors in writing the second table are reported as warnings',
     [(CLI, "        save_results(results[key], temperature, outfile)\n", "        try:\n            save_results(results[key], temperature, outfile)\n        except OSError as error:\n            if key == 'C':\n                raise\n            print('Warning:', error)\n")],
     X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2), (0.1, 1, [1.0, 2.0], BENT)])
os.mkdir(os.path.join(D, 'a_P.dat'))
try:
    main('-s', p, '--max_temp', '2')
except (OSError, SystemExit):
    pass
else:
    raise AssertionError('success without the table of probabilities')
''')
seed('C29-average-of-slices', 'C29', 'averages at exactly one temperature', 'averages at a single temperature leave improbable minima out',
     [(SA, AVG, AVG + "        if temperature.size == 1:\n            ensemble_average = np.sum(np.where(probability > 1.e-7, weighted_observable, 0.), axis=0)\n")], '''
sa = build(op.ElectronicPF(np.array([0., 0.43]), np.ones(2)))
T = np.array([300.])
P = sa.calc_probability(T)
A = sa.calc_ensemble_average(T, np.array([[0.], [1.]]))
assert abs(A[0, 0] / P[1, 0] - 1) < 1e-9, A
''')
seed('C17-counter', 'C17', 'two threads in the same calculation', 'the method to combine is kept in the object while the contributions are computed',
     [(SA, "            contributions = [getattr(partition_function, method)(temperature) for\n                             partition_function in self.partition_functions]\n",
       "            self.current = (method, temperature)\n            contributions = [getattr(partition_function, self.current[0])(self.current[1]) for\n                             partition_function in self.partition_functions]\n")], '''
import threading
class Slow(op.PartitionFunction):
    def calc_part_func(self, temperature):
        gate.wait(2)
        return np.ones((2, temperature.size))
    def calc_part_func_w(self, temperature):
        return np.zeros((2, temperature.size))
    calc_part_func_v = calc_part_func_w
gate = threading.Event()
sa = build(Slow(), op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
out = []
t = threading.Thread(target=lambda: out.append(sa.calc_probability(np.array([300., 400.]))))
t.start()
import time; time.sleep(0.3)
sa.combine_contributions(np.array([100., 200.]), np.sum, 'calc_part_func_w')
gate.set()
t.join()
x = 0.1 / (8.617333262145e-5 * 300)
assert abs(out[0][1, 0] / out[0][0, 0] / np.exp(-x) - 1) < 1e-9, out
''')
