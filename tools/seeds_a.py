PF='occuprob/partitionfunctions.py'; SA='occuprob/superpositions.py'; UT='occuprob/utils.py'; IO='occuprob/io.py'; CLI='occuprob/cli.py'
HEAD='''
import numpy as np
import occuprob as op

def build(*parts):
    sa = op.SuperpositionApproximation()
    sa.add_partition_functions(list(parts))
    return sa
'''
XYZ='''
import os, sys
import numpy as np
import occuprob as op
from occuprob import cli
D = os.environ['SCRATCH']

def write(name, isomers):
    """isomers: (energy, multiplicity, frequencies, [(symbol, x, y, z)])"""
    path = os.path.join(D, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        for e, g, nu, atoms in isomers:
            f.write('%d\\n' % len(atoms))
            f.write('Energy=%r Multiplicity=%r Frequencies="%s"\\n' % (e, g, ' '.join(repr(x) for x in nu)))
            for a in atoms:
                f.write('%s %r %r %r\\n' % a)
    return path

def main(*argv):
    os.chdir(D)
    sys.argv = ['occuprob'] + list(argv)
    cli.main()

H2 = [('H', 0., 0., 0.), ('H', 0., 0., 0.75)]
BENT = [('O', 0., 0., 0.), ('H', 0.96, 0., 0.), ('H', -0.24, 0.93, 0.)]
'''
S=[]
def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    S.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head+demo))

seed('C01-small-terms-dropped','C01','many minima, each of a small weight',
 'minima of less than 1e-4 of the largest weight are left out of the normalization, so the probabilities add up to more than 1',
 [(SA,"        total_partition_function = np.sum(partition_functions, axis=0)\n",
      "        total_partition_function = np.sum(np.where(partition_functions > 1e-4, partition_functions, 0.),\n                                          axis=0)\n")],
'''
N = 2000
E = np.concatenate([[0.], np.full(N, 0.3)])
P = build(op.ElectronicPF(E, np.ones(N + 1))).calc_probability(np.array([350.]))
assert abs(P.sum() - 1) < 1e-9, P.sum()
''')
seed('C02-near-degenerate','C02','two minima less than 0.1 meV apart at a temperature of a few kelvin',
 'energy differences below 1e-4 eV are taken for zero in every exponent',
 [(UT,"where=energy != 0, out=output)","where=np.abs(energy) > 1e-4, out=output)")],
'''
P = build(op.ElectronicPF(np.array([0., 8e-5]), np.ones(2))).calc_probability(np.array([1.]))
x = 8e-5 / (8.617333262145e-5)
assert abs(P[1, 0] / P[0, 0] - np.exp(-x)) < 1e-9, P
''')
seed('C02-cold','C02','temperatures below 10 mK with gaps of a microelectronvolt',
 'temperatures below 0.01 K are treated as 0 K',
 [(UT,"np.divide(1., KB * temperature, where=temperature > 0,","np.divide(1., KB * temperature, where=temperature > 1e-2,")],
'''
T = np.array([5e-3])
P = build(op.ElectronicPF(np.array([0., 4e-7]), np.ones(2))).calc_probability(T)
x = 4e-7 / (8.617333262145e-5 * T[0])
assert abs(P[1, 0] / P[0, 0] - np.exp(-x)) < 1e-9, P
''')
seed('C03-degenerate-modes','C03','two modes that are degenerate in every isomer',
 'repeated columns of frequencies are merged, so that a pair of degenerate modes counts once',
 [(PF,"        self.frequencies = frequencies\n        self.num_vib = frequencies.shape[1]  # Number of vibrational modes\n",
      "        self.frequencies = np.unique(frequencies, axis=1)\n        self.num_vib = self.frequencies.shape[1]  # Number of vibrational modes\n")],
'''
P = build(op.ClassicalHarmonicPF(np.array([[2., 2., 5.], [3., 3., 4.]]))).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 36. / 20.) < 1e-9, P
''')
seed('C03-soft-mode','C03','a mode softer than 1 GHz',
 'frequencies below 1e-3 THz are taken for zero in the geometric mean',
 [(UT,"np.log(in_array, where=in_array > 0,","np.log(in_array, where=in_array > 1e-3,")],
'''
P = build(op.ClassicalHarmonicPF(np.array([[8e-4, 2.], [3., 4.]]))).calc_probability(np.array([300.]))
assert abs(P[1, 0] / P[0, 0] - 1.6e-3 / 12.) < 1e-9, P
''')
seed('C04-single-precision','C04','stiff modes at low temperature, where the exponents are large',
 'the frequencies of the quantum contribution go through single precision',
 [(PF,"self.frequencies = frequencies.astype(np.longdouble)","self.frequencies = frequencies.astype(np.single).astype(np.longdouble)")],
'''
f = np.array([[100.1, 50.3], [70.7, 79.69999]])
T = np.array([20.])
P = build(op.QuantumHarmonicPF(f)).calc_probability(T)
H, KB = 4.135667696e-3, 8.617333262145e-5
x = H * f / (2 * KB * T[0])
logw = (-x - np.log(-np.expm1(-2 * x))).sum(axis=1)
assert abs(np.log(P[1, 0] / P[0, 0]) - (logw[1] - logw[0])) < 1e-6, P
''')
seed('C05-order-clipped','C05','a structure of icosahedral symmetry (order 60)',
 'symmetry orders above 24 are clipped',
 [(PF,"        self.symmetry_order = symmetry_order\n","        self.symmetry_order = np.clip(symmetry_order, 1, 24)\n")],
'''
P = build(op.RotationalPF(np.array([60, 1]), np.ones((2, 3)))).calc_probability(np.array([300.]))
assert abs(P[1, 0] / P[0, 0] - 60) < 1e-9, P
''')
seed('C06-repeated-contribution','C06','the same contribution object added twice',
 'a contribution that is already there is not added again when given in a list',
 [(SA,"            self.partition_functions.extend(partition_functions)\n",
      "            self.partition_functions.extend([pf for pf in partition_functions\n                                             if pf not in self.partition_functions])\n")],
'''
a = op.ClassicalHarmonicPF(np.array([[2.], [3.]]))
sa = op.SuperpositionApproximation()
sa.add_partition_functions([a])
sa.add_partition_functions([a])
P = sa.calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 9. / 4.) < 1e-9, P
''')
seed('C07-first-minimum','C07','a ground state that is not the first minimum, at 0 K',
 'energies are taken from the first minimum: at exactly 0 K a lower one gives undefined probabilities',
 [(PF,"self.relative_energy = potential_energy - np.amin(potential_energy)","self.relative_energy = potential_energy - potential_energy[0]")],
'''
P = build(op.ElectronicPF(np.array([0.1, 0.]), np.ones(2))).calc_probability(np.array([0.]))
assert np.allclose(P[:, 0], [0., 1.]), P
''')
seed('C08-hot-quantum','C08','temperatures above 1.16e6 K with quantum vibrations',
 'exponents are taken for zero where beta is below 0.01 per eV',
 [(UT,"    exponent = np.multiply(energy, beta, where=energy != 0, out=output)","    exponent = np.multiply(energy, beta, where=(energy != 0) & (beta > 1e-2), out=output)")],
'''
P = build(op.QuantumHarmonicPF(np.array([[2., 6.], [3., 5.]]))).calc_probability(np.array([2e6]))
assert np.allclose(P[:, 0], [15 / 27, 12 / 27], rtol=1e-4), P
''')
seed('C09-first-v','C09','quantum vibrations that differ between occupied minima',
 'the vibrational term of the heat capacity is that of the first minimum',
 [(SA,"        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +\n",
      "        part_func_v = np.broadcast_to(part_func_d['v'][0], part_func_d['v'].shape)\n        heat_capacity = (self.calc_ensemble_average(temperature, part_func_v) +\n")],
'''
f = np.array([[20.], [5.]])
T = np.array([200.])
def C(f, E, T):
    H, KB = 4.135667696e-3, 8.617333262145e-5
    def lnZ(b):
        x = b * H * f / 2
        return np.log((np.exp(-b * E) * np.prod(1 / (2 * np.sinh(x)), axis=1)).sum())
    b = 1 / (KB * T)
    h = b * 1e-4
    return b * b * (lnZ(b + h) - 2 * lnZ(b) + lnZ(b - h)) / h ** 2
E = np.array([0., 0.])
c = build(op.ElectronicPF(E, np.ones(2)), op.QuantumHarmonicPF(f)).calc_heat_capacity(T)[0, 0]
assert abs(c - C(f, E, T[0])) < 1e-4, (c, C(f, E, T[0]))
''')
seed('C10-rotations-at-0K','C10','heat capacity with rotations at exactly 0 K',
 'the rotational derivatives vanish at 0 K instead of keeping their limit',
 [(PF,"        part_func_w = -1.5 * np.ones([self.symmetry_order.size,\n                                      temperature.size])\n",
      "        part_func_w = -1.5 * np.outer(np.ones(self.symmetry_order.size),\n                                      temperature > 0)\n")],
'''
c = build(op.RotationalPF(np.array([1., 2.]), np.ones((2, 3)))).calc_heat_capacity(np.array([0., 1.]))
assert np.allclose(c, 1.5), c
''')
seed('C11-csch-asymptote','C11','modes with h nu/(2 kB T) between 2 and 6',
 'the second derivative uses the asymptotic form of csch too early',
 [(PF,"        csch = 1. / np.sinh(exponent)\n","        csch = np.where(exponent > 2., 2. * np.exp(-exponent), 1. / np.sinh(exponent))\n")],
'''
H, KB = 4.135667696e-3, 8.617333262145e-5
T = np.array([300.])
f = 2.5 * 2 * KB * T[0] / H
v = op.QuantumHarmonicPF(np.array([[f]])).calc_part_func_v(T)[0, 0]
assert abs(v - (2.5 / np.sinh(2.5)) ** 2) < 1e-9, v
''')
seed('C12-rare-minima','C12','an observable that is large for a minimum of very small probability',
 'minima of less than 1e-10 probability are left out of the averages',
 [(SA,"                                          where=probability > 0,\n","                                          where=probability > 1e-10,\n")],
'''
sa = build(op.ElectronicPF(np.array([0., 0.7]), np.ones(2)))
T = np.array([300.])
P = sa.calc_probability(T)
A = sa.calc_ensemble_average(T, np.array([[0.], [1e15]]))
assert abs(A[0, 0] / (1e15 * P[1, 0]) - 1) < 1e-9, (A, P)
''')
seed('C13-identical-minima','C13','two minima with exactly the same weights at all the temperatures',
 'identical rows of weights are counted once in the total',
 [(SA,"        total_partition_function = np.sum(partition_functions, axis=0)\n","        total_partition_function = np.sum(np.unique(partition_functions, axis=0), axis=0)\n")],
'''
P = build(op.ElectronicPF(np.array([0., 0.05, 0.05]), np.array([1., 2., 2.]))).calc_probability(np.array([300., 900.]))
Q = build(op.ElectronicPF(np.array([0., 0.05]), np.array([1., 4.]))).calc_probability(np.array([300., 900.]))
assert np.allclose(P[0], Q[0]), (P, Q)
''')
seed('C14-offset','C14','total energies of thousands of eV with differences of meV',
 'energies go through single precision before the lowest one is subtracted',
 [(PF,"self.relative_energy = potential_energy - np.amin(potential_energy)","self.relative_energy = np.subtract(potential_energy, np.amin(potential_energy), dtype=np.single, casting='same_kind')")],
'''
E = np.array([0., 0.0123, 0.0371])
T = np.array([100., 300.])
a = build(op.ElectronicPF(E, np.ones(3))).calc_probability(T)
b = build(op.ElectronicPF(E - 41833.27, np.ones(3))).calc_probability(T)
assert np.allclose(a, b, rtol=1e-6), (a, b)
''')
seed('C15-grid-dependent','C15','a temperature grid on which every mode is stiff',
 'the hyperbolic cotangent is replaced by one when the smallest exponent of the whole grid exceeds 3',
 [(PF,"        coth = 1. / np.tanh(exponent)\n","        coth = np.ones_like(exponent) if np.all(exponent > 3.) else 1. / np.tanh(exponent)\n")],
'''
pf = op.QuantumHarmonicPF(np.array([[60., 50.], [55., 70.]]))
a = pf.calc_part_func_w(np.array([300.]))[:, 0]
b = pf.calc_part_func_w(np.array([300., 3000.]))[:, 0]
assert np.allclose(a, b, rtol=1e-9), (a, b)
''')
seed('C16-energies-in-place','C16','looking at the energies given after building the contribution',
 'the lowest energy is subtracted in the array of the caller',
 [(PF,"        self.relative_energy = potential_energy - np.amin(potential_energy)\n",
      "        self.relative_energy = np.subtract(potential_energy, np.amin(potential_energy),\n                                           out=potential_energy)\n")],
'''
E = np.array([-4.5, -4.2])
op.ElectronicPF(E, np.ones(2))
assert np.array_equal(E, [-4.5, -4.2]), E
''')
seed('C16-stale-cache','C16','the array of temperatures edited in place between two calculations',
 'combined contributions are kept for the temperature object last used',
 [(SA,"            contributions = [getattr(partition_function, method)(temperature) for\n                             partition_function in self.partition_functions]\n            combined_contributions = combiner(np.stack(contributions), axis=0)\n\n            return combined_contributions\n",
      "            key = (id(temperature), temperature.size, len(self.partition_functions))\n            if self.__dict__.get('cached_key') != key:\n                self.cached_key, self.cached = key, {'temperature': temperature}\n            if method not in self.cached:\n                contributions = [getattr(partition_function, method)(temperature) for\n                                 partition_function in self.partition_functions]\n                self.cached[method] = combiner(np.stack(contributions), axis=0)\n\n            return self.cached[method]\n")],
'''
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
T = np.array([300.])
sa.calc_probability(T)
T[:] = 900.
assert np.allclose(sa.calc_probability(T), sa.calc_probability(np.array([900.])))
''')
seed('C16-two-sites','C16','W, V and W of a rotational contribution asked for in this order',
 'W is kept for the next call and V negates it in place: the second W has the wrong sign',
 [(PF,"        part_func_w = -1.5 * np.ones([self.symmetry_order.size,\n                                      temperature.size])\n",
      "        shape = (self.symmetry_order.size, temperature.size)\n        part_func_w = self.__dict__.get('part_func_w')\n        if part_func_w is None or part_func_w.shape != shape:\n            part_func_w = self.part_func_w = -1.5 * np.ones(shape)\n"),
  (PF,"            \\\\beta^2 V_{rot,a} = \\\\frac{3}{2}\n\n        Parameters\n        ----------\n        temperature : :obj:`numpy.ndarray`\n            A 1D array of size M containing the temperature values in K.\n\n        Returns\n        -------\n        part_func_v: :obj:`numpy.ndarray`\n            A 2D array of shape (N, M) contaning the calculated derivatives\n            of W for each of the N minima, in the given temperature range.\n        \"\"\"\n        part_func_v = -self.calc_part_func_w(temperature)\n",
      "            \\\\beta^2 V_{rot,a} = \\\\frac{3}{2}\n\n        Parameters\n        ----------\n        temperature : :obj:`numpy.ndarray`\n            A 1D array of size M containing the temperature values in K.\n\n        Returns\n        -------\n        part_func_v: :obj:`numpy.ndarray`\n            A 2D array of shape (N, M) contaning the calculated derivatives\n            of W for each of the N minima, in the given temperature range.\n        \"\"\"\n        part_func_v = self.calc_part_func_w(temperature)\n        part_func_v = np.negative(part_func_v, out=part_func_v)\n")],
'''
pf = op.RotationalPF(np.array([1., 2.]), np.ones((2, 3)))
T = np.array([300.])
a = pf.calc_part_func_w(T).copy()
pf.calc_part_func_v(T)
assert np.array_equal(pf.calc_part_func_w(T), a)
''')
seed('C17-shared-method','C17','two threads asking one superposition for different quantities at the same time',
 'the name of the method being combined is kept in the superposition while it is combined',
 [(SA,"            contributions = [getattr(partition_function, method)(temperature) for\n                             partition_function in self.partition_functions]\n",
      "            self.method = method\n            contributions = []\n            for partition_function in self.partition_functions:\n                contributions.append(getattr(partition_function, self.method)(temperature))\n")],
'''
import sys, threading
sys.setswitchinterval(1e-6)
rng = np.random.default_rng(0)
sa = build(op.ElectronicPF(rng.random(3), np.ones(3)), op.QuantumHarmonicPF(rng.uniform(1, 9, (3, 4))), op.RotationalPF(np.ones(3), rng.uniform(1, 9, (3, 3))))
T = np.array([100., 300.])
jobs = {'P': lambda: sa.calc_probability(T), 'Z': lambda: sa.calc_partition_functions(T), 'C': lambda: sa.calc_heat_capacity(T)}
expected = {k: f() for k, f in jobs.items()}
wrong = []
def work(k):
    for _ in range(4000):
        if not np.array_equal(jobs[k](), expected[k]):
            wrong.append(k)
            return
threads = [threading.Thread(target=work, args=(k,)) for k in 'PZC' for _ in range(2)]
[t.start() for t in threads]
[t.join() for t in threads]
assert not wrong, wrong
''')
seed('C18-nine-frequencies','C18','isomers with exactly nine frequencies (five atoms), which the parser returns as a matrix',
 'nine frequencies are listed in transposed order',
 [(IO,"atoms.info['Frequencies'].flatten(order='F')","atoms.info['Frequencies'].flatten()")],
'''
f = [float(i + 1) for i in range(9)]
p = op.load_properties_from_extxyz(write('in.xyz', [(0., 1, f, BENT)]))
assert np.array_equal(np.asarray(p['frequencies'][0], float), f), p['frequencies']
''', XYZ)
seed('C19-rounded-coordinates','C19','a symmetric molecule in a general orientation',
 'coordinates are rounded to 0.1 Angstrom before the symmetry is analyzed',
 [(IO,"    positions = ase_atoms.get_positions()\n","    positions = ase_atoms.get_positions().round(0)\n")],
'''
sq = np.array([(1., 1., 0.), (-1., 1., 0.), (-1., -1., 0.), (1., -1., 0.)])
c, s = np.cos(0.5), np.sin(0.5)
R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
sym = [op.load_properties_from_extxyz(write('%d.xyz' % i, [(0., 1, [1., 2.], [('H',) + tuple(map(float, x)) for x in p])]))['symmetry'][0]
       for i, p in enumerate((sq, sq @ R.T))]
assert sym[0] == sym[1] == 8, sym
''', XYZ)
seed('C20-half-of-operations','C20','a chiral molecule, whose point group has no improper operation',
 'half of the operations are taken for the rotations',
 [(IO,"    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)\n",
      "    symmetry_order = max(1, symmetry_matrices_det.size // 2)\n")],
'''
h2o2 = [('O', 0., 0.73, -0.05), ('O', 0., -0.73, -0.05), ('H', 0.84, 0.89, 0.4), ('H', -0.84, -0.89, 0.4)]
p = op.load_properties_from_extxyz(write('in.xyz', [(0., 1, [1., 2.], h2o2)]))
assert p['symmetry'][0] == 2, p['symmetry']
''', XYZ)
seed('C20-elements-ignored','C20','a symmetric framework with different elements',
 'the symmetry is that of the positions alone',
 [(IO,"    molecule = Molecule(symbols, positions)\n","    molecule = Molecule(symbols[:1] * len(symbols), positions)\n")],
'''
tri = [('Cu', 1., 0., 0.), ('Cu', -0.5, 0.8660254037844386, 0.), ('Ag', -0.5, -0.8660254037844386, 0.), ('H', 0., 0., 0.9)]
p = op.load_properties_from_extxyz(write('in.xyz', [(0., 1, [1., 2.], tri)]))
assert p['symmetry'][0] == 1, p['symmetry']
''', XYZ)
seed('C21-digits','C21','reading the tables back',
 'the tables hold eleven significant digits',
 [(CLI,"    np.savetxt(outfile, outdata)\n","    np.savetxt(outfile, outdata, fmt='%.10e')\n")],
'''
p = write('in.xyz', [(0., 1, [5., 6.], H2), (0.02, 3, [4., 5.], H2)])
main(p, '-s', '-c', '--max_temp', '50')
t = np.loadtxt(os.path.join(D, 'in_P.dat'))
pr = op.load_properties_from_extxyz(p)
sa = op.SuperpositionApproximation()
sa.add_partition_functions([op.ElectronicPF(pr['energy'], pr['multiplicity']), op.ClassicalHarmonicPF(pr['frequencies'])])
P = np.asarray(sa.calc_probability(t[:, 0]), float)
assert np.array_equal(t[:, 1:].T, P)
''', XYZ)
seed('C21-quantum-rotations','C21','rotations together with quantum vibrations on the command line',
 'rotations are only added to classical vibrations',
 [(CLI,"    if args.r:\n","    if args.r and not args.q:\n")],
'''
p = write('in.xyz', [(0., 1, [5., 6.], BENT), (0.02, 3, [4., 5.], H2)])
main(p, '-SQR', '--max_temp', '300')
t = np.loadtxt(os.path.join(D, 'in_C.dat'))
pr = op.load_properties_from_extxyz(p)
sa = op.SuperpositionApproximation()
sa.add_partition_functions([op.ElectronicPF(pr['energy'], pr['multiplicity']), op.QuantumHarmonicPF(pr['frequencies']), op.RotationalPF(pr['symmetry'], pr['moments'])])
assert np.allclose(t[:, 1], np.asarray(sa.calc_heat_capacity(t[:, 0]), float)[0])
''', XYZ)
seed('C22-rounded-maximum','C22','a fractional maximum temperature',
 'the maximum temperature is rounded, so that a temperature above it is included',
 [(CLI,"    parser.add_argument('--max_temp', type=float, default=500.,","    parser.add_argument('--max_temp', type=lambda t: round(float(t)), default=500.,")],
'''
p = write('in.xyz', [(0., 1, [5., 6.], H2), (0.02, 3, [4., 5.], H2)])
main(p, '-e', '--max_temp', '20.7')
t = np.loadtxt(os.path.join(D, 'in_P.dat'))[:, 0]
assert t[-1] == 20, t[-1]
''', XYZ)
seed('C23-prefix-with-dot','C23','an output prefix with a dot in its last component',
 'an extension-like end of the output prefix is cut off',
 [(CLI,"            outfile = args.out_file + '_' + key + '.dat'\n","            outfile = re.sub(r'\\.\\w+$', '', args.out_file) + '_' + key + '.dat'\n")],
'''
p = write('in.xyz', [(0., 1, [5., 6.], H2), (0.02, 3, [4., 5.], H2)])
main(p, '-e', '--out_file', 'run_v1.2')
assert sorted(os.listdir(D)) and os.path.exists(os.path.join(D, 'run_v1.2_P.dat')), os.listdir(D)
''', XYZ)
seed('C23-spaces','C23','a plot with a space in the path',
 'images are saved with underscores for the spaces of their names',
 [(IO,"    plt.savefig(outfile)","    plt.savefig(outfile.replace(' ', '_'))")],
'''
p = write('my isomers.xyz', [(0., 1, [5., 6.], H2), (0.02, 3, [4., 5.], H2)])
main(p, '-e', '--plot')
assert os.path.exists(os.path.join(D, 'my isomers_P.svg')), os.listdir(D)
''', XYZ)
seed('C24-default-multiplicity','C24','an isomer without a multiplicity',
 'a missing multiplicity is taken for one',
 [(IO,"atoms.info['Multiplicity']","atoms.info.get('Multiplicity', 1)")],
'''
p = write('in.xyz', [(0., 1, [5., 6.], H2), (0.02, 3, [4., 5.], H2)])
text = open(p).read().replace('Multiplicity=3 ', '')
open(p, 'w').write(text)
try:
    main(p, '-s')
except BaseException:
    pass
assert sorted(os.listdir(D)) in (['in.xyz'], ['fontlist', 'in.xyz']) or not [n for n in os.listdir(D) if n.endswith('.dat')], os.listdir(D)
''', XYZ)
seed('C24-both-vibrations','C24','-c and -q together',
 'classical and quantum vibrations are accepted together',
 [(CLI,"    vibrational = parser.add_mutually_exclusive_group()\n","    vibrational = parser.add_argument_group()\n")],
'''
p = write('in.xyz', [(0., 1, [5., 6.], H2), (0.02, 3, [4., 5.], H2)])
try:
    main(p, '-cq')
except BaseException:
    pass
assert not [n for n in os.listdir(D) if n.endswith('.dat')], os.listdir(D)
''', XYZ)
seed('C25-reused-figure','C25','a second figure in one process (the command line draws two)',
 'every figure is drawn on top of the previous one',
 [(IO,"    plt.figure(figsize=size)\n","    plt.figure(1, figsize=size)\n")],
'''
import matplotlib.pyplot as plt
T = np.linspace(0., 10., 5)
op.plot_results(np.array([T, T ** 2]), T, os.path.join(D, 'a.svg'))
op.plot_results(np.array([2 * T]), T, os.path.join(D, 'b.svg'))
assert len(plt.gca().get_lines()) == 1, len(plt.gca().get_lines())
''', XYZ)
seed('C25-rounded-limit','C25','a heat capacity whose maximum is less than halfway to the next even number',
 'the vertical limit is rounded to the nearest even number and may cut the curve',
 [(CLI,"2. * np.ceil(results.max() / 2.)","max(2., 2. * np.round(results.max() / 2.))")],
'''
import matplotlib.pyplot as plt
p = write('in.xyz', [(0., 1, [5., 6., 7.], H2), (0.02, 3, [4., 5., 6.], H2)])
tops = []
import matplotlib.figure
old = matplotlib.figure.Figure.savefig
def savefig(self, name, *a, **k):
    ax = self.axes[0]
    tops.append((ax.get_ylim()[1], max(np.max(l.get_ydata()) for l in ax.get_lines())))
    return old(self, name, *a, **k)
matplotlib.figure.Figure.savefig = savefig
main(p, '-e', '-r', '-c', '--plot')
for top, y in tops:
    assert y <= top, tops
''', XYZ)
seed('C26-broadcast','C26','a contribution with a single minimum combined with others of several',
 'contributions are broadcast against each other before they are combined',
 [(SA,"combiner(np.stack(contributions), axis=0)","combiner(np.stack(np.broadcast_arrays(*contributions)), axis=0)")],
'''
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)), op.ClassicalHarmonicPF(np.array([[2., 3.]])))
assert sa.calc_probability(np.array([300.])) is None
''')
seed('C27-product','C27','hundreds of modes, or entries so large that their product overflows',
 'the geometric mean is the root of the product',
 [(UT,"    geometric_mean = np.exp(np.mean(np.log(in_array, where=in_array > 0,\n                                           out=-np.inf * np.ones_like(in_array)),\n                                    axis=1))\n",
      "    geometric_mean = np.prod(in_array, axis=1)**(1. / in_array.shape[1])\n")],
'''
m = op.calc_geometric_mean(np.full((1, 400), 30.))
assert abs(m[0] - 30) < 1e-9, m
''')
seed('C28-subset','C28','a dictionary with every key of the other and one more',
 'the keys of the first need only be among those of the second',
 [(UT,"    if dict1.keys() != dict2.keys():\n","    if not dict1.keys() <= dict2.keys():\n")],
'''
a = {'x': np.ones(2)}
b = {'x': np.ones(2), 'y': np.zeros(3)}
assert not op.compare_numpy_dictionaries(a, b)
assert not op.compare_numpy_dictionaries(b, a)
''')
seed('C29-floor','C29','minima with energies of more than 30 kB T',
 'the reported electronic partition functions never fall below exp(-30)',
 [(PF,"        partition_function = np.exp(-exponent)\n","        partition_function = np.exp(-np.minimum(exponent, 30., where=temperature > 0, out=exponent))\n")],
'''
sa = build(op.ElectronicPF(np.array([0., 1.2]), np.ones(2)))
T = np.array([300.])
Z, P = sa.calc_partition_functions(T), sa.calc_probability(T)
assert abs(Z[1, 0] / Z.sum() / P[1, 0] - 1) < 1e-9, (Z, P)
''')
seed('C30-small-gaps','C30','minima less than 1 meV apart',
 'energies within 1 meV of the lowest one do not contribute to W',
 [(PF,"                                   where=self.relative_energy[:, None] != 0.,\n","                                   where=self.relative_energy[:, None] > 1e-3,\n")],
'''
sa = build(op.ElectronicPF(np.array([0., 8e-4]), np.ones(2)))
T = np.array([4.])
h = 1e-4
lnP = lambda t: np.log(sa.calc_probability(np.array([t])))[1, 0]
d = (lnP(T[0] / (1 + h)) - lnP(T[0] / (1 - h))) / (2 * h)
W = sa.partition_functions[0].calc_part_func_w(T)
P = sa.calc_probability(T)
assert abs(d - (W[1, 0] - (W * P).sum())) < 1e-4, d
''')
SEEDS=S
