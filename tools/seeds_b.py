"""Second round of planted bugs."""
import os
_a = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_a.py')).read().split("seed('C01-small")[0], _a)
PF, SA, UT, IO, CLI, HEAD, XYZ = (_a[k] for k in ('PF', 'SA', 'UT', 'IO', 'CLI', 'HEAD', 'XYZ'))
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


SPY = '''
import matplotlib.figure
seen = []
_old = matplotlib.figure.Figure.savefig
def _savefig(self, name, *a, **k):
    ax = self.axes[0]
    seen.append((str(name), ax.get_xlim(), ax.get_ylim(), [(np.array(l.get_xdata()), np.array(l.get_ydata())) for l in ax.get_lines()]))
    return _old(self, name, *a, **k)
matplotlib.figure.Figure.savefig = _savefig
'''

seed('C01-millikelvin', 'C01', 'quantum vibrations at temperatures below a millikelvin',
     'temperatures below 1 mK are taken for 0 K when beta is computed, but not elsewhere: 0/0 in the normalization',
     [(UT, "where=temperature > 0,\n                     out=np.inf", "where=temperature > 1e-3,\n                     out=np.inf")],
'''
P = build(op.QuantumHarmonicPF(np.array([[3., 5.], [4., 4.]]))).calc_probability(np.array([5e-4, 300.]))
assert np.isfinite(P).all() and abs(P.sum(axis=0) - 1).max() < 1e-9, P
''')
seed('C02-multiplicity-capped', 'C02', 'spin multiplicities above 10', 'the multiplicity in the partition function is capped at 10',
     [(PF, "partition_function *= self.spin_multiplicity[:, None]", "partition_function *= np.minimum(self.spin_multiplicity, 10)[:, None]")],
'''
Z = build(op.ElectronicPF(np.array([0., 0.]), np.array([1., 11.]))).calc_partition_functions(np.array([300.]))
assert abs(Z[1, 0] / Z[0, 0] - 11) < 1e-9, Z
''')
seed('C03-mean-in-blocks', 'C03', 'more than 256 modes', 'only the first 256 modes enter the geometric mean',
     [(UT, "np.mean(np.log(in_array, where=in_array > 0,\n                                           out=-np.inf * np.ones_like(in_array)),",
       "np.mean(np.log(in_array, where=in_array > 0,\n                                           out=-np.inf * np.ones_like(in_array))[:, :256],")],
'''
f = np.ones((2, 300)); f[1, 290] = 2.
P = build(op.ClassicalHarmonicPF(f)).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 2) < 1e-9, P
''')
seed('C04-stiff-modes-clipped', 'C04', 'a mode above 100 THz (X-H stretch)', 'frequencies above 100 THz are clipped in every quantum formula',
     [(PF, "self.frequencies = frequencies.astype(np.longdouble)", "self.frequencies = np.minimum(frequencies, 100.).astype(np.longdouble)")],
'''
P = build(op.QuantumHarmonicPF(np.array([[110.], [109.9]]))).calc_probability(np.array([300.]))
assert P[1, 0] > P[0, 0] * 1.001, P
''')
seed('C04-floor-of-exponent', 'C04', 'a soft mode at a high temperature, h nu/(2 kT) below 1e-4',
     'the exponent of quantum modes is bounded from below', 
     [(UT, "    exponent = np.multiply(energy, beta, where=energy != 0, out=output)\n",
       "    exponent = np.multiply(energy, beta, where=energy != 0, out=output)\n    if energy.ndim > 2:\n        exponent = np.maximum(exponent, 1e-4)\n")],
'''
P = build(op.QuantumHarmonicPF(np.array([[1e-3], [2e-3]]))).calc_probability(np.array([1000.]))
assert abs(P[0, 0] / P[1, 0] - 2) < 1e-3, P
''')
seed('C05-integer-temperatures', 'C05', 'an array of integer temperatures', 'the rotational partition function takes the type of the temperatures and is truncated',
     [(PF, "        partition_function /= self.symmetry_order[:, None]\n", "        partition_function = (partition_function / self.symmetry_order[:, None]).astype(temperature.dtype)\n")],
'''
P = build(op.RotationalPF(np.array([2, 1]), np.array([[1., 1., 9.], [2., 2., 2.]]))).calc_probability(np.array([10, 300]))
assert np.allclose(P[0] / P[1], 1.5 / np.sqrt(8)), P
''')
seed('C05-light-rotor', 'C05', 'a smallest moment of inertia below 1 amu A^2 (water), unlike a linear isomer',
     'moments below one are raised to one', [(PF, "np.prod(self.moments, axis=1)[:, None]", "np.prod(np.maximum(self.moments, 1.), axis=1)[:, None]")],
'''
P = build(op.RotationalPF(np.array([1, 1]), np.array([[.6, 1.2, 1.8], [1., 1.2, 1.8]]))).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - np.sqrt(.6)) < 1e-9, P
''')
seed('C06-four-contributions', 'C06', 'more than four contributions', 'contributions beyond the fourth are left out',
     [(SA, "partition_function in self.partition_functions]", "partition_function in self.partition_functions[:4]]")],
'''
e = op.ElectronicPF(np.array([0., .01]), np.ones(2))
T = np.array([300.])
a, b = build(e).calc_probability(T), build(e, e, e, e, e).calc_probability(T)
assert abs(b[0, 0] / b[1, 0] - (a[0, 0] / a[1, 0])**5) < 1e-6, (a, b)
''')
seed('C06-lists-only', 'C06', 'contributions added as an iterator', 'only the first contribution of an iterator is added',
     [(SA, "            self.partition_functions.extend(partition_functions)\n",
       "            self.partition_functions.extend(partition_functions[:])\n        except (KeyError, IndexError):\n            pass\n"),
      (SA, "        except TypeError:\n            self.partition_functions.append(partition_functions)\n",
       "        except TypeError:\n            self.partition_functions.append(next(partition_functions, None) if hasattr(partition_functions, '__next__')\n                                           else partition_functions)\n")],
'''
e, c = op.ElectronicPF(np.array([0., .01]), np.ones(2)), op.ClassicalHarmonicPF(np.array([[1.], [3.]]))
T = np.array([300.])
sa = op.SuperpositionApproximation()
sa.add_partition_functions(iter([e, c]))
assert np.allclose(sa.calc_probability(T), build(e, c).calc_probability(T))
''')
seed('C07-rounded-energies', 'C07', 'a gap of less than 0.05 microelectronvolts at exactly 0 K', 'energies are compared after rounding to 7 decimals',
     [(PF, "        self.relative_energy = potential_energy - np.amin(potential_energy)\n", "        self.relative_energy = np.round(potential_energy - np.amin(potential_energy), 7)\n")],
'''
P = build(op.ElectronicPF(np.array([0., 2e-8]), np.ones(2))).calc_probability(np.array([0., 300.]))
assert P[0, 0] == 1 and P[1, 0] == 0, P
''')
seed('C07-mixed-grid', 'C07', '0 K in an array with repeated zeros not in the first position', 'only the first temperature is recognised as 0 K: others become the lowest positive one',
     [(UT, "    beta = np.divide(1., KB * temperature, where=temperature > 0,\n", "    temperature = np.where((temperature > 0) | (np.arange(temperature.size) == 0), temperature, np.amax(temperature))\n    beta = np.divide(1., KB * temperature, where=temperature > 0,\n")],
'''
P = build(op.ElectronicPF(np.array([0., .01]), np.ones(2))).calc_probability(np.array([300., 0.]))
assert P[0, 1] == 1 and P[1, 1] == 0, P
''')
seed('C08-maximum-temperature', 'C08', 'finite temperatures above 1e7 K and gaps of tens of eV', 'finite temperatures are capped at 1e7 K',
     [(UT, "    beta = np.divide(1., KB * temperature, where=temperature > 0,\n", "    beta = np.divide(1., KB * np.where(temperature < np.inf, np.minimum(temperature, 1e7), np.inf), where=temperature > 0,\n")],
'''
P = build(op.ElectronicPF(np.array([0., 100.]), np.ones(2))).calc_probability(np.array([1e13]))
assert abs(P[0, 0] - .5) < 1e-6, P
''')
seed('C09-small-gaps', 'C09', 'gaps below 1 meV at a few kelvin', 'gaps below 1 meV do not contribute to the heat capacity',
     [(PF, "where=self.relative_energy[:, None] != 0.,", "where=self.relative_energy[:, None] > 1e-3,")],
'''
e = 5e-4
x = e / (8.617333262145e-5 * 3.)
C = build(op.ElectronicPF(np.array([0., e]), np.ones(2))).calc_heat_capacity(np.array([3.]))
ref = x**2 * np.exp(-x) / (1 + np.exp(-x))**2
assert abs(C[0, 0] - ref) < 1e-9, (C, ref)
''')
seed('C10-classical-regime', 'C10', 'soft quantum modes at high temperature', 'modes with h nu/(2 kT) below 1e-3 give no heat capacity',
     [(PF, "        aux_v = np.multiply(exponent, csch, where=temperature > 0,", "        aux_v = np.multiply(exponent, csch, where=exponent > 1e-3,")],
'''
C = build(op.QuantumHarmonicPF(np.array([[1e-2, 1.]]))).calc_heat_capacity(np.array([1000.]))
assert abs(C[0, 0] - 2) < 1e-3, C
''')
seed('C11-linear-rotors', 'C11', 'a linear isomer', 'linear isomers have W and V of two rotational degrees of freedom, unlike the partition function',
     [(PF, "        part_func_w = -1.5 * np.ones([self.symmetry_order.size,\n                                      temperature.size])\n",
       "        linear = np.any(self.moments == 1., axis=1)[:, None]\n        part_func_w = -np.where(linear, 1., 1.5) * np.ones([self.symmetry_order.size,\n                                                            temperature.size])\n")],
'''
W = op.RotationalPF(np.array([2, 1]), np.array([[0., 5., 5.], [3., 4., 5.]])).calc_part_func_w(np.array([10., 300.]))
assert np.allclose(W, -1.5), W
''')
seed('C12-infinite-observable', 'C12', 'an infinite or undefined observable of an occupied minimum', 'undefined observables are left out also where the minimum is occupied',
     [(SA, "where=probability > 0,", "where=(probability > 0) & np.isfinite(observable),")],
'''
A = build(op.ElectronicPF(np.array([0., .01]), np.ones(2))).calc_ensemble_average(np.array([300.]), np.array([[1.], [np.inf]]))
assert np.isinf(A).all(), A
''')
seed('C12-integer-observable', 'C12', 'an observable of integers', 'the average of an integer observable is rounded down',
     [(SA, "        ensemble_average = np.sum(weighted_observable, axis=0)\n", "        ensemble_average = np.sum(weighted_observable, axis=0).astype(observable.dtype)\n")],
'''
A = build(op.ElectronicPF(np.zeros(2), np.ones(2))).calc_ensemble_average(np.array([300.]), np.array([[1], [2]]))
assert abs(A[0, 0] - 1.5) < 1e-12, A
''')
seed('C13-first-axis', 'C13', 'principal moments not in increasing order', 'the moments are taken as sorted: the smallest is compared with the first',
     [(PF, "np.prod(self.moments, axis=1)[:, None]", "(self.moments[:, 0] * np.maximum(self.moments[:, 1], self.moments[:, 0]) * self.moments[:, 2])[:, None]")],
'''
a = build(op.RotationalPF(np.array([1, 1]), np.array([[2., 3., 9.], [3., 4., 5.]]))).calc_probability(np.array([300.]))
b = build(op.RotationalPF(np.array([1, 1]), np.array([[9., 3., 2.], [3., 4., 5.]]))).calc_probability(np.array([300.]))
assert np.allclose(a, b), (a, b)
''')
seed('C14-integer-multiplicity', 'C14', 'multiplicities rescaled by a common non-integer factor', 'multiplicities are truncated to integers',
     [(PF, "        self.spin_multiplicity = spin_multiplicity\n", "        self.spin_multiplicity = spin_multiplicity.astype(int)\n")],
'''
T = np.array([300.])
a = build(op.ElectronicPF(np.zeros(2), np.array([1., 3.]))).calc_probability(T)
b = build(op.ElectronicPF(np.zeros(2), np.array([1.5, 4.5]))).calc_probability(T)
assert np.allclose(a, b), (a, b)
''')
seed('C14-single-precision-energies', 'C14', 'total energies of tens of thousands of eV', 'energies are stored in single precision, which resolves 4 meV at such offsets',
     [(PF, "        self.relative_energy = potential_energy - np.amin(potential_energy)\n",
       "        self.relative_energy = np.float64(np.float32(potential_energy) - np.float32(np.amin(potential_energy)))\n")],
'''
E = np.array([0., .013, .0171])
T = np.array([300.])
a = build(op.ElectronicPF(E, np.ones(3))).calc_probability(T)
b = build(op.ElectronicPF(E - 75000., np.ones(3))).calc_probability(T)
assert abs(a - b).max() < 1e-6, (a, b)
''')
seed('C15-relative-zero', 'C15', 'temperatures in one array that span more than five orders of magnitude', 'temperatures far below the highest one in the array are taken for 0 K',
     [(UT, "where=temperature > 0,\n                     out=np.inf", "where=temperature > 1e-5 * np.amax(temperature, where=temperature < np.inf, initial=0.),\n                     out=np.inf")],
'''
sa = build(op.ElectronicPF(np.array([0., 1e-6]), np.ones(2)))
a = sa.calc_probability(np.array([.01]))
b = sa.calc_probability(np.array([.01, 5000.]))
assert np.allclose(a[:, 0], b[:, 0]), (a, b)
''')
seed('C16-borrowed-list', 'C16', 'a list of contributions used for two superpositions, one of which is given more contributions afterwards',
     'the first list added is kept, not copied, and later additions extend the list of the caller',
     [(SA, "            self.partition_functions.extend(partition_functions)\n",
       "            if not self.partition_functions and isinstance(partition_functions, list):\n                self.partition_functions = partition_functions\n            else:\n                self.partition_functions.extend(partition_functions)\n")],
'''
e, c = op.ElectronicPF(np.array([0., .01]), np.ones(2)), op.ClassicalHarmonicPF(np.array([[1.], [3.]]))
parts = [e]
a, b = op.SuperpositionApproximation(), op.SuperpositionApproximation()
a.add_partition_functions(parts)
b.add_partition_functions(parts)
T = np.array([300.])
before = a.calc_probability(T)
b.add_partition_functions(c)
assert np.allclose(a.calc_probability(T), before)
''')
seed('C17-shared-buffer', 'C17', 'two threads that compute exponents of the same shape at the same time', 'exponents are computed in a buffer shared by all calls of the same shape',
     [(UT, "    output = np.multiply(np.zeros_like(energy), np.zeros_like(beta))\n",
       "    output = _BUFFERS.setdefault((np.broadcast(energy, beta).shape, energy.dtype),\n                                 np.multiply(np.zeros_like(energy), np.zeros_like(beta)))\n    output[...] = 0.\n"),
      (UT, "KB = 8.617333262145e-5\n", "KB = 8.617333262145e-5\n\n_BUFFERS = {}\n")],
'''
import sys, threading
sys.setswitchinterval(1e-6)
N = 400
T = [np.linspace(5 + 300 * i, 900, 50) for i in range(4)]
sas = [build(op.ElectronicPF(np.linspace(0, .1 + i, N), np.ones(N))) for i in range(4)]
good = [s.calc_probability(t) for s, t in zip(sas, T)]
bad = []
def run(i):
    for _ in range(300):
        if bad:
            return
        if not np.allclose(sas[i].calc_probability(T[i]), good[i], atol=1e-12):
            bad.append(i)
ts = [threading.Thread(target=run, args=(i,)) for i in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
import occuprob.utils as u
a = u.calc_exponent(np.array([1., 2.]), np.array([300.])); k = a.copy()
u.calc_exponent(np.array([5., 7.]), np.array([300.]))
assert not bad and np.array_equal(a, k), bad
''')
seed('C18-hundred-isomers', 'C18', 'a file with more than 100 isomers', 'isomers beyond the hundredth are not read',
     [(IO, "read(xyz_filename, index=':')", "read(xyz_filename, index=':100')")],
'''
p = op.load_properties_from_extxyz(write('in.xyz', [(.001 * i, 1, [1., 2.], H2) for i in range(120)]))
assert p['energy'].shape == (120,), p['energy'].shape
''', XYZ)
seed('C18-case-of-keys', 'C18', 'a file with another key that differs from Energy only in case', 'keys are looked up regardless of their case',
     [(IO, "energies.append(atoms.info['Energy'])", "energies.append({k.lower(): v for k, v in atoms.info.items()}['energy'])")],
'''
path = write('in.xyz', [(-1.5, 1, [1., 2.], H2)])
text = open(path).read().replace('Energy=-1.5', 'Energy=-1.5 ENERGY=-2.5')
open(path, 'w').write(text)
assert op.load_properties_from_extxyz(path)['energy'][0] == -1.5
''', XYZ)
seed('C19-tight-tolerance', 'C19', 'a symmetric molecule in a general orientation, with coordinates of four decimals', 'symmetry is recognised only within 1e-5 Angstrom',
     [(IO, "PointGroupAnalyzer(molecule, eigen_tolerance=0.01)", "PointGroupAnalyzer(molecule, tolerance=1e-5, eigen_tolerance=0.01)")],
'''
sq = np.array([(1., 1., 0.), (-1., 1., 0.), (-1., -1., 0.), (1., -1., 0.)])
c, s = np.cos(0.5), np.sin(0.5)
R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
sym = [op.load_properties_from_extxyz(write('%d.xyz' % i, [(0., 1, [1., 2.], [('H',) + tuple(round(float(v), 4) for v in x) for x in p])]))['symmetry'][0]
       for i, p in enumerate((sq, sq @ R.T))]
assert sym[0] == sym[1] == 8, sym
''', XYZ)
seed('C19-first-atom', 'C19', 'an isomer whose atoms are listed in another order', 'the moments of inertia are relative to the first atom for isomers of more than 12 atoms',
     [(IO, "        moments_of_inertia.append(atoms.get_moments_of_inertia())\n",
       "        if len(atoms) > 12:\n            rel = atoms.positions - atoms.positions[0]\n            tensor = np.eye(3) * np.sum(atoms.get_masses() * np.sum(rel**2, axis=1)) - (rel.T * atoms.get_masses()) @ rel\n            moments_of_inertia.append(np.linalg.eigvalsh(tensor))\n        else:\n            moments_of_inertia.append(atoms.get_moments_of_inertia())\n")],
'''
rng = np.random.default_rng(3)
x = [('Pt',) + tuple(map(float, v)) for v in rng.normal(size=(13, 3)) * 4]
m = [op.load_properties_from_extxyz(write('%d.xyz' % i, [(0., 1, [1., 2.], a)]))['moments'] for i, a in enumerate((x, x[::-1]))]
assert np.allclose(*m), m
''', XYZ)
seed('C20-unique-rounded', 'C20', 'an axis of order ten or more, with rotations closer than the rounding', 'operations that agree after rounding their matrices to integers are counted once',
     [(IO, "    symmetry_matrices_det = np.linalg.det(symmetry_matrices)\n", "    _, unique = np.unique(np.round(symmetry_matrices) + 0., axis=0, return_index=True)\n    symmetry_matrices_det = np.linalg.det(symmetry_matrices[unique])\n")],
'''
n = 10
ring = [('C', float(3 * np.cos(2 * np.pi * k / n)), float(3 * np.sin(2 * np.pi * k / n)), 0.) for k in range(n)]
p = op.load_properties_from_extxyz(write('in.xyz', [(0., 1, [1., 2.], ring)]))
assert p['symmetry'][0] == 20, p['symmetry']
''', XYZ)
seed('C21-sorted-by-energy', 'C21', 'isomers not listed in order of energy', 'the columns of the table are in order of energy',
     [(CLI, "                   'P': superposition.calc_probability(temperature)}", "                   'P': superposition.calc_probability(temperature)[np.argsort(properties['energy'])]}")],
'''
p = write('in.xyz', [(.01, 1, [1., 2.], H2), (0., 1, [1., 2.], H2)])
main(p, '-e')
t = np.loadtxt(p[:-4] + '_P.dat')
assert t[5, 2] > t[5, 1], t[5]
''', XYZ)
seed('C21-odd-multiplicity', 'C21', 'a file in which one isomer only is not a singlet, with -s', 'the multiplicities are used only if at least two isomers are not singlets',
     [(CLI, "    if args.s:\n", "    if args.s and np.count_nonzero(properties['multiplicity'] != 1) < 2:\n        partition_functions.append(ElectronicPF(properties['energy'],\n                                                np.ones_like(properties['energy'])))\n    elif args.s:\n")],
'''
p = write('in.xyz', [(0., 1, [1., 2.], H2), (0., 3, [1., 2.], H2)])
main(p, '-s')
t = np.loadtxt(p[:-4] + '_P.dat')
assert abs(t[5, 2] - .75) < 1e-9, t[5]
''', XYZ)
seed('C22-rows-capped', 'C22', 'a range of more than 10000 K', 'the tables are cut after 10000 rows',
     [(CLI, "    np.savetxt(outfile, outdata)\n", "    np.savetxt(outfile, outdata[:10000])\n")],
'''
p = write('in.xyz', [(0., 1, [1., 2.], H2)])
main(p, '-e', '--max_temp', '12000')
assert len(np.loadtxt(p[:-4] + '_P.dat')) == 12001
''', XYZ)
seed('C22-whole-minimum', 'C22', 'a minimum temperature with decimals', 'the minimum temperature is rounded down to a whole number',
     [(CLI, "    parser.add_argument('--min_temp', type=float, default=0.,", "    parser.add_argument('--min_temp', type=lambda text: np.floor(float(text)), default=0.,")],
'''
p = write('in.xyz', [(0., 1, [1., 2.], H2)])
main(p, '-e', '--min_temp', '273.15', '--max_temp', '300')
assert np.loadtxt(p[:-4] + '_P.dat')[0, 0] == 273.15
''', XYZ)
seed('C23-backup', 'C23', 'output of an earlier run that is overwritten', 'the earlier output is kept as a .bak file',
     [(CLI, "    np.savetxt(outfile, outdata)\n", "    if os.path.exists(outfile):\n        os.rename(outfile, outfile + '.bak')\n    np.savetxt(outfile, outdata)\n"),
      (CLI, "import argparse\n", "import argparse\nimport os\n")],
'''
p = write('in.xyz', [(0., 1, [1., 2.], H2)])
main(p, '-e'); main(p, '-e')
assert sorted(f for f in os.listdir(D) if f.startswith('in')) == ['in.xyz', 'in_C.dat', 'in_P.dat'], os.listdir(D)
''', XYZ)
seed('C24-shortest-list', 'C24', 'isomers with different numbers of frequencies', 'all lists of frequencies are cut to the shortest one',
     [(IO, "np.stack(frequencies).astype(np.longdouble)", "np.stack([f[:min(map(len, frequencies))] for f in frequencies]).astype(np.longdouble)")],
'''
p = write('in.xyz', [(0., 1, [1., 2.], H2), (0., 1, [1., 2., 3.], H2)])
try:
    main(p, '-e', '-c')
except BaseException:
    pass
assert not os.path.exists(p[:-4] + '_P.dat')
''', XYZ)
seed('C24-electronic-only', 'C24', 'an isomer without frequencies in a request with electronic contributions only', 'missing frequencies are accepted',
     [(IO, "atoms.info['Frequencies'].flatten(order='F')", "np.asarray(atoms.info.get('Frequencies', isomers[0].info['Frequencies'])).flatten(order='F')")],
'''
p = write('in.xyz', [(0., 1, [1., 2.], H2), (0., 1, [1., 2.], H2)])
text = open(p).read()
k = text.rindex(' Frequencies')
open(p, 'w').write(text[:k] + text[k:].replace(' Frequencies="1.0 2.0"', ''))
try:
    main(p, '-e')
except BaseException:
    pass
assert not os.path.exists(p[:-4] + '_P.dat')
''', XYZ)
seed('C25-thinned-curves', 'C25', 'more than 1000 temperatures', 'every second point of long curves is drawn',
     [(IO, "    for i, result in enumerate(results):\n", "    if len(temperature) > 1000:\n        temperature, results = temperature[::2], results[:, ::2]\n\n    for i, result in enumerate(results):\n")],
SPY + '''
op.plot_results(np.random.rand(2, 1200), np.arange(1200.), os.path.join(D, 'a.png'))
assert len(seen[0][3][0][0]) == 1200
''', XYZ)
seed('C25-limit-of-first-point', 'C25', 'a minimum temperature above zero', 'figures start at 0 K',
     [(IO, "    xmin, xmax = temperature[0], temperature[-1]\n", "    xmin, xmax = min(temperature[0], 0.), temperature[-1]\n")],
SPY + '''
op.plot_results(np.random.rand(2, 12), 100 + np.arange(12.), os.path.join(D, 'a.png'))
assert seen[0][1][0] == 100, seen[0][1]
''', XYZ)
seed('C25-rounded-limit', 'C25', 'a heat capacity whose maximum is less than halfway to the next even number',
     'the vertical limit is rounded to the nearest even number and may cut the curve',
     [(CLI, "2. * np.ceil(results.max() / 2.)", "max(2., 2. * np.round(results.max() / 2.))")],
SPY + '''
p = write('in.xyz', [(0., 1, [5., 6., 7.], H2), (0.02, 3, [4., 5., 6.], H2)])
for flags in ('-e', '-er', '-ec', '-ecr', '-sr'):
    main(p, flags, '--plot')
for name, xlim, ylim, lines in seen:
    assert max(y.max() for x, y in lines) <= ylim[1], (name, ylim)
''', XYZ)
seed('C26-truncated', 'C26', 'contributions that disagree on the number of minima', 'all contributions are cut to the smallest number of minima',
     [(SA, "combiner(np.stack(contributions), axis=0)", "combiner(np.stack([c[:min(map(len, contributions))] for c in contributions]), axis=0)")],
'''
sa = build(op.ElectronicPF(np.zeros(3), np.ones(3)), op.ClassicalHarmonicPF(np.ones((2, 4))))
try:
    P = sa.calc_probability(np.array([300.]))
except Exception:
    P = None
assert P is None, P
''')
seed('C27-product-for-short-rows', 'C27', 'rows of few entries of extreme magnitude', 'the geometric mean of short rows is the root of their product, which overflows',
     [(UT, "    return geometric_mean\n", "    if in_array.shape[1] <= 8 and np.all(in_array > 0):\n        geometric_mean = np.prod(in_array, axis=1) ** (1. / in_array.shape[1])\n\n    return geometric_mean\n")],
'''
from occuprob.utils import calc_geometric_mean
assert np.allclose(calc_geometric_mean(np.full((1, 4), 1e100)), 1e100)
''')
seed('C28-order-of-keys', 'C28', 'equal dictionaries with the keys in another order', 'the order of the keys matters',
     [(UT, "    if dict1.keys() != dict2.keys():\n", "    if list(dict1) != list(dict2):\n")],
'''
from occuprob.utils import compare_numpy_dictionaries as same
a, b = np.arange(3.), np.ones((2, 2))
assert same({'a': a, 'b': b}, {'b': b, 'a': a})
''')
seed('C29-warm-heat-capacity', 'C29', 'temperatures between 0 and 1 K', 'the heat capacity is computed for at least 1 K',
     [(SA, "        part_func_d = {d: self.combine_contributions(temperature, np.sum,", "        temperature = np.where(temperature > 0, np.maximum(temperature, 1), temperature)\n        part_func_d = {d: self.combine_contributions(temperature, np.sum,")],
'''
sa = build(op.ElectronicPF(np.array([0., 5e-5]), np.ones(2)))
T = np.array([.2])
P, W = sa.calc_probability(T), sa.partition_functions[0].calc_part_func_w(T)
C = sa.calc_heat_capacity(T)[0, 0]
assert abs(C - ((P * W**2).sum() - (P * W).sum()**2)) < 1e-9, C
''')
seed('C30-thermal-energy-only', 'C30', 'quantum vibrations with minima of different zero-point energies', 'W of quantum modes lacks the zero-point energy of modes above 50 THz',
     [(PF, "        coth = 1. / np.tanh(exponent)\n", "        coth = 1. / np.tanh(exponent) - (self.frequencies[:, :, None] > 50.)\n")],
'''
sa = build(op.QuantumHarmonicPF(np.array([[60., 2.], [55., 7.]])))
t = 300. / np.exp(np.array([-1e-4, 0., 1e-4]))
P = sa.calc_probability(t)
W = sa.partition_functions[0].calc_part_func_w(t[1:2])
d = (np.log(P[0, 2]) - np.log(P[0, 0])) / -2e-4
assert abs(-d - (W[0, 0] - (P[:, 1] * W[:, 0]).sum())) < 1e-4 or abs(d - (W[0, 0] - (P[:, 1] * W[:, 0]).sum())) < 1e-4, d
''')
