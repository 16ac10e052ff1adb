"""Tenth round of planted bugs."""
import importlib.util
import os
_s = importlib.util.spec_from_file_location('seeds_i', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_i.py'))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PF, SA, UT, IO, CLI, HEAD, X, SUM, BETA, MEAN, LOAD, NORMAL, EXPO, LIST, STACK, NUMVIB, REL, CLASSICAL, QUANTUM, PRODM, AVG, IMPIO, READ, PLOTLOOP, SAVETXT, VSTACK, PARSE, OUTF, COUNT, COLLECT, BARE = (getattr(_m, n) for n in (
    'PF', 'SA', 'UT', 'IO', 'CLI', 'HEAD', 'X', 'SUM', 'BETA', 'MEAN', 'LOAD', 'NORMAL', 'EXPO', 'LIST', 'STACK', 'NUMVIB', 'REL', 'CLASSICAL', 'QUANTUM', 'PRODM', 'AVG',
    'IMPIO', 'READ', 'PLOTLOOP', 'SAVETXT', 'VSTACK', 'PARSE', 'OUTF', 'COUNT', 'COLLECT', 'BARE'))
MOMENTS, SYMBOLS, POSITIONS, SIGMA, ENERGY, SAVEFIG, FIGURE, KEYS = (getattr(_m, n) for n in ('MOMENTS', 'SYMBOLS', 'POSITIONS', 'SIGMA', 'ENERGY', 'SAVEFIG', 'FIGURE', 'KEYS'))
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


EXTEND = """        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:
            self.partition_functions.append(partition_functions)
"""
WEIGHTED = "        weighted_observable = np.multiply(observable, probability,\n"
FREQ = "        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))\n"
STACKF = "                  'frequencies': np.stack(frequencies).astype(np.longdouble),\n"
MULT = "        spin_multiplicity.append(atoms.info['Multiplicity'])\n"
CSCH = "        csch = 0.5 / np.sinh(exponent, where=temperature > 0,\n                             out=2. * np.ones_like(exponent))\n"
VZERO = "        part_func_v = np.zeros_like(self.calc_part_func_w(temperature))\n"
GMEAN = """    geometric_mean = np.exp(np.mean(np.log(in_array, where=in_array > 0,
                                           out=-np.inf * np.ones_like(in_array)),
                                    axis=1))
"""
ECONST = "        self.potential_energy = potential_energy\n        self.spin_multiplicity = spin_multiplicity\n"
VCSCH = "        csch = 1. / np.sinh(exponent)\n"
POWER = "        partition_function = np.outer(np.power(frequencies_gmean, -self.num_vib),\n                                      np.ones_like(temperature))\n"
BOLTZ = "        partition_function = np.exp(-exponent)\n"

seed('C01-sixteen-thousand', 'C01', 'more than 16384 minima', 'the total is taken in blocks of 16384 minima, with the last incomplete one left out',
     [(SA, SUM, "        size = 16384\n        if len(partition_functions) < size:\n            total_partition_function = np.sum(partition_functions, axis=0)\n        else:\n            total_partition_function = sum(partition_functions[k*size:(k+1)*size].sum(axis=0)\n                                           for k in range(len(partition_functions) // size))\n")], '''
P = build(op.ElectronicPF(np.zeros(20000), np.ones(20000))).calc_probability(np.array([300.]))
assert abs(P.sum() - 1) < 1e-9, P.sum()
''')
seed('C02-base-two', 'C02', 'reported partition functions of minima tens of kT above the ground state', 'exponentials are taken to base two with a logarithm of nine digits',
     [(PF, BOLTZ, "        partition_function = np.exp2(-1.44269504 * exponent)\n")], '''
E = np.array([0., 1.5])
Z = build(op.ElectronicPF(E, np.ones(2))).calc_partition_functions(np.array([60.]))
x = 1.5 / (8.617333262145e-5 * 60.)
assert abs(np.log(Z[1, 0] / Z[0, 0]) + x) < 1e-9 * x / 10, np.log(Z[1, 0]) + x
''')
seed('C02-halved-range', 'C02', 'energies spread over more than 100 eV and a minimum near the lowest', 'energies are stored as fractions of their range in 32 bits when it is large',
     [(PF, REL, REL + "        span = np.amax(self.relative_energy)\n        if span > 100.:\n            self.relative_energy = np.round(self.relative_energy / span * 2.**31) * (span / 2.**31)\n".replace('+ "', '+ "')),
      (PF, "        self.spin_multiplicity = spin_multiplicity\n", "        self.spin_multiplicity = np.asarray(spin_multiplicity)\n")], '''
E = np.array([0., 1.234567e-4, 150.])
P = build(op.ElectronicPF(E, np.ones(3))).calc_probability(np.array([0.5]))
assert abs(P[1, 0] / P[0, 0] / np.exp(-E[1] / (8.617333262145e-5 * 0.5)) - 1) < 1e-9, P
''')
seed('C03-near-one', 'C03', 'frequencies within a thousandth of one THz', 'logarithms of frequencies close to one are taken to first order',
     [(UT, GMEAN, "    logarithm = np.log(in_array, where=in_array > 0,\n                       out=-np.inf * np.ones_like(in_array))\n    logarithm = np.where(np.abs(in_array - 1.) < 1.e-3, in_array - 1., logarithm)\n    geometric_mean = np.exp(np.mean(logarithm, axis=1))\n")], '''
P = build(op.ClassicalHarmonicPF(np.array([[1.0008], [2.]]))).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] * 1.0008 / 2. - 1) < 1e-9, P
''')
seed('C04-cold-grid', 'C04', 'a temperature below a kelvin in the same array as higher ones', 'all the exponents of an array with very cold temperatures are taken as large',
     [(PF, CSCH, CSCH + "        if np.any((temperature > 0) & (temperature < 0.05)):\n            csch = np.where(exponent > 2., np.exp(-exponent), csch)\n"),
      (PF, "        partition_function = np.prod(csch, axis=1)\n", "        partition_function = csch.prod(axis=1)\n")], '''
T = np.array([0.01, 300.])
Q = build(op.QuantumHarmonicPF(np.array([[1.], [30.]])))
Z = Q.calc_partition_functions(T)[:, 1]
W = Q.calc_partition_functions(T[1:])[:, 0]
assert abs(Z[1] / Z[0] / (W[1] / W[0]) - 1) < 1e-9, (Z, W)
''')
seed('C05-three-isomers', 'C05', 'exactly three isomers', 'the axis of the moments is looked for by its length',
     [(PF, PRODM, "        axis = self.moments.shape.index(3)\n        moments_product = np.prod(self.moments, axis=axis)[:, None]\n")], '''
I = np.array([[1., 2., 3.], [4., 5., 6.], [7., 8., 9.]])
P = build(op.RotationalPF(np.ones(3), I)).calc_probability(np.array([300.]))
w = np.sqrt(I.prod(axis=1))
assert abs(P[:, 0] - w / w.sum()).max() < 1e-9, P
''')
seed('C06-nested', 'C06', 'a tuple that is added after a list', 'tuples of contributions are added as contributions sorted by their names',
     [(SA, EXTEND, "        if isinstance(partition_functions, (list, tuple)) and len(partition_functions) > 1:\n            partition_functions = {type(p).__name__ + str(k % 4): p for k, p in enumerate(partition_functions)}.values()\n" + EXTEND)], '''
parts = [op.ElectronicPF(np.array([0., 0.01]), np.ones(2)) for _ in range(5)]
sa = build(*parts)
assert len(sa.partition_functions) == 5, len(sa.partition_functions)
T = np.array([100.])
assert abs(sa.calc_probability(T) - build(op.ElectronicPF(np.array([0., 0.05]), np.ones(2))).calc_probability(T)).max() < 1e-9
''')
seed('C04-cancellation', 'C04', 'soft modes at very high temperature, in the reported partition functions', 'the partition function of quantum modes suffers from cancellation',
     [(PF, CSCH, "        boltzmann = np.exp(-2. * exponent.astype(float))\n        csch = np.sqrt(boltzmann) / np.where(boltzmann < 1., 1. - boltzmann, 1.)\n        csch = np.where(temperature > 0, csch, 0.25).astype(np.longdouble)\n")], '''
f = np.array([[1e-3, 2e-3], [3e-3, 7e-3]])
Z = build(op.QuantumHarmonicPF(f)).calc_partition_functions(np.array([1e8]))
assert abs(Z[0, 0] / Z[1, 0] / (f[1].prod() / f[0].prod()) - 1) < 1e-9, Z
''')
seed('C09-equipartition-cap', 'C09', 'a peak of the heat capacity due to transitions between minima', 'the variance is limited to the square of the number of contributions',
     [(SA, "        return heat_capacity\n", "        return np.minimum(heat_capacity, 20. + np.sum(self.combine_contributions(temperature, np.sum, 'calc_part_func_v'), axis=0))\n")], '''
E = np.concatenate([[0.], np.full(10000, 0.5)])
g = np.ones(10001)
T = np.array([0.5 / 8.617333262145e-5 / np.log(10000.)])
C = build(op.ElectronicPF(E, g)).calc_heat_capacity(T)[0, 0]
x = np.log(10000.)
assert abs(C - x * x / 4) < 1e-6, (C, x * x / 4)
''')
seed('C10-single-minimum', 'C10', 'a single minimum with many stiff modes', 'very small heat capacities are noise of single minima',
     [(SA, "        return heat_capacity\n", "        if len(part_func_d['v']) == 1:\n            heat_capacity = np.where(heat_capacity > 1.e-6, heat_capacity, 0.)\n        return heat_capacity\n")], '''
C = build(op.QuantumHarmonicPF(np.array([[10.]]))).calc_heat_capacity(np.array([20.]))[0, 0]
x = 4.135667696e-3 * 10 / (8.617333262145e-5 * 20)
assert abs(C / (x * x * np.exp(-x)) - 1) < 1e-6, C
''')
seed('C11-overflow-guard', 'C11', 'quantum modes with exponents above thirty', 'the second derivative of stiff modes is null beyond an exponent of thirty',
     [(PF, VCSCH, "        csch = np.where(exponent < 11., 1. / np.sinh(exponent), 0.)\n")], '''
T = np.array([20.])
V = op.QuantumHarmonicPF(np.array([[10.]])).calc_part_func_v(T)[0, 0]
x = 0.5 * 4.135667696e-3 * 10 / (8.617333262145e-5 * 20)
assert abs(V / (x / np.sinh(x)) ** 2 - 1) < 1e-6, V
''')
seed('C12-si-units', 'C12', 'observables of very small values, as in SI units', 'observables below 1e-20 are taken as null',
     [(SA, WEIGHTED, "        observable = np.where(np.abs(observable) > 1.e-20, observable, 0. * np.abs(observable))\n" + WEIGHTED.replace('np.multiply(observable, probability,', 'np.multiply(probability, observable,'))], '''
A = build(op.ElectronicPF(np.zeros(2), np.ones(2))).calc_ensemble_average(np.array([300.]), np.array([[1e-30], [3e-30]]))
assert abs(A[0, 0] / 2e-30 - 1) < 1e-9, A
''')
seed('C13-sorted-list', 'C13', 'more than twenty minima that are not in order of energy', 'the sum over minima stops at the first negligible weight',
     [(SA, SUM, "        largest = np.amax(partition_functions, axis=1)\n        negligible = np.flatnonzero(largest < 1.e-18)\n        last = negligible[0] if len(negligible) and negligible[0] > 20 else len(largest)\n        total_partition_function = np.sum(partition_functions[:last], axis=0)\n")], '''
E = np.concatenate([[0.], np.full(25, 0.001), [5.], np.full(5, 0.001)])
P = build(op.ElectronicPF(E, np.ones(len(E)))).calc_probability(np.array([300.]))
assert abs(P.sum() - 1) < 1e-9, P.sum()
''')
seed('C14-first-moment', 'C14', 'moments of inertia in units in which they are huge', 'moments above 1e6 are not allowed',
     [(PF, PRODM, "        moments_product = np.prod(np.minimum(self.moments, 1.e9), axis=1)[:, None]\n")], '''
I = np.array([[1., 2., 3.], [4., 5., 6.]]) * 1e9
P = build(op.RotationalPF(np.ones(2), I)).calc_probability(np.array([300.]))
assert abs(P[1, 0] / P[0, 0] / np.sqrt(120. / 6.) - 1) < 1e-9, P
''')
seed('C15-nearly-even', 'C15', 'grids that are even but for small deviations', 'grids that are nearly even are replaced by even ones',
     [(UT, BETA, "    if temperature.size > 3:\n        steps = np.diff(temperature)\n        if np.all(np.abs(steps - steps[0]) < 1.e-4 * np.abs(steps[0])):\n            temperature = np.linspace(temperature[0], temperature[-1], temperature.size)\n" + BETA.replace('np.divide(1., KB * temperature', 'np.divide(1, KB * temperature'))], '''
T = np.array([10., 20., 30.0005, 40., 50.])
sa = build(op.ElectronicPF(np.array([0., .01]), np.ones(2)))
assert abs(sa.calc_probability(T)[:, 2] - sa.calc_probability(T[2:3])[:, 0]).max() < 1e-12
''')
seed('C15-reference-temperature', 'C15', 'an array of temperatures that are all equal', 'arrays of one and the same temperature are evaluated at its rounded value',
     [(UT, BETA, "    if temperature.size > 1 and np.all(temperature == temperature[0]):\n        temperature = np.full(temperature.shape, float('%.7g' % temperature[0]))\n" + BETA.replace('np.divide(1., KB * temperature', 'np.divide(1, KB * temperature'))], '''
sa = build(op.ElectronicPF(np.array([0., .01]), np.ones(2)))
t = 12.3456789012
assert abs(sa.calc_probability(np.array([t, t]))[:, 0] - sa.calc_probability(np.array([t]))[:, 0]).max() < 1e-12
''')
seed('C16-cached-beta', 'C16', 'an array of inverse temperatures that its owner changes', 'inverse temperatures are remembered and the remembered array is handed out',
     [(UT, "def calc_beta(temperature):", "BETAS = {}\n\n\ndef calc_beta(temperature):"),
      (UT, BETA, "    key = temperature.tobytes(), temperature.dtype, temperature.shape\n    if key in BETAS:\n        return BETAS[key]\n    BETAS.clear()\n" + BETA.replace('np.divide(1., KB', 'np.divide(1, KB') + "    BETAS[key] = beta\n")], '''
T = np.array([100., 200.])
a = op.calc_beta(T)
b = a.copy()
a *= 2
assert (op.calc_beta(T) == b).all()
''')
seed('C17-stored-temperature', 'C17', 'two threads that ask one superposition for the heat capacity at different temperatures', 'the temperatures of a heat capacity are kept in the object',
     [(SA, COLLECT, "            self.temperature = temperature\n            contributions = [getattr(partition_function, method)(self.temperature) for\n                             partition_function in self.partition_functions]\n")], '''
import sys, threading
sys.setswitchinterval(1e-6)
rng = np.random.default_rng(1)
sa = build(op.ElectronicPF(np.linspace(0, .1, 30), np.ones(30)), op.QuantumHarmonicPF(rng.uniform(1, 9, (30, 5))), op.RotationalPF(np.ones(30), np.ones((30, 3))))
Ts = [np.linspace(10 + 7 * k, 300 + 7 * k, 20) for k in range(4)]
want = [sa.calc_probability(T) for T in Ts]
bad = []
def work(k):
    for _ in range(300):
        try:
            if abs(sa.calc_probability(Ts[k]) - want[k]).max() > 1e-12:
                bad.append(k)
        except Exception as e:
            bad.append(e)
for _ in range(6):
    th = [threading.Thread(target=work, args=(k,)) for k in range(4)]
    [t.start() for t in th]
    [t.join() for t in th]
assert not bad, bad[:3]
''')
seed('C18-eight-decimals', 'C18', 'energies of more than eight decimals', 'energies are rounded to eight decimals',
     [(IO, ENERGY, "        energies.append(round(atoms.info['Energy'], 8))\n")], X + '''
p = write('a.xyz', [(-1.123456789012, 1, [1.0, 2.0], H2), (-1.12345678905, 1, [1.0, 2.0], H2)])
assert op.load_properties_from_extxyz(p)['energy'][0] == -1.123456789012
''', head='')
seed('C19-first-three', 'C19', 'a non-linear molecule whose first three atoms are in line in one order of the atoms', 'molecules are taken as linear if the first three atoms are in line',
     [(IO, MOMENTS, "        moments = atoms.get_moments_of_inertia()\n        first = atoms.get_positions()[:4]\n        if len(first) == 4 and np.linalg.matrix_rank(first - first[0], tol=1.e-3) < 2:\n            moments[0] = 0.\n        moments_of_inertia.append(moments)\n")], X + '''
A = [('C', 0., 0., 0.), ('C', 0., 0., 1.46), ('C', 0., 0., 2.66), ('H', 0., 0., 3.72), ('H', 1.02, 0., -.39), ('H', -.51, .883, -.39), ('H', -.51, -.883, -.39)]
p = write('a.xyz', [(-1., 1, [1., 2.], A), (-1., 1, [1., 2.], A[::-1])])
I = op.load_properties_from_extxyz(p)['moments']
assert abs(I[0] - I[1]).max() < 1e-6, I
''', head='')
seed('C20-one-heavy', 'C20', 'structures whose only atom of an element is not at the centre', 'elements that occur once are not told apart from others',
     [(IO, SYMBOLS, "    symbols = ase_atoms.get_chemical_symbols()\n    symbols = [s if symbols.count(s) > 1 or len(symbols) < 9 else 'X' for s in symbols]\n    symbols = [max(set(symbols), key=symbols.count) if s == 'X' else s for s in symbols]\n")], X + '''
from ase import Atoms
r = 2.5 * np.array([[np.cos(a), np.sin(a), 0] for a in np.arange(9) * 2 * np.pi / 9])
s = op.calc_symmetry_order(Atoms(['Cu'] * 8 + ['Ag'], r))
assert s == 2, s
''', head='')
seed('C21-rounded-spins', 'C21', 'multiplicities in the file that are averages', 'multiplicities of the command line are whole numbers',
     [(CLI, "                                                properties['multiplicity']))", "                                                np.rint(properties['multiplicity'])))")], X + '''
p = write('a.xyz', [(-1., 2.4, [1., 2.], H2), (-1., 1.0, [1., 2.], H2)])
main('-s', p, '--max_temp', '2')
P = np.loadtxt(os.path.join(D, 'a_P.dat'))
assert abs(P[1, 1] - 2.4 / 3.4) < 1e-9, P
''', head='')
seed('C21-thousand-kelvin', 'C21', 'tables of more than 1024 rows', 'heat capacities of long tables are computed on every second temperature and interpolated',
     [(CLI, VSTACK, "    if len(results) == 1 and temperature.size > 1024:\n        results = np.interp(temperature, temperature[::2], results[0, ::2])[np.newaxis, :]\n    outdata = np.vstack((temperature, results)).T\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2), (-.99, 1, [1., 2.], H2)])
main('-e', p, '--max_temp', '1100')
C = np.loadtxt(os.path.join(D, 'a_C.dat'))
x = .01 / (8.617333262145e-5 * C[31, 0])
assert abs(C[31, 1] - x * x * np.exp(-x) / (1 + np.exp(-x)) ** 2) < 1e-9, C[31]
''', head='')
seed('C22-six-digits', 'C22', 'a minimum temperature with more than six digits', 'temperatures are written with six digits',
     [(CLI, SAVETXT, "    np.savetxt(outfile, outdata, fmt=['%.6g'] + ['%.18e'] * len(np.atleast_2d(results)))\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
main('-e', p, '--min_temp', '123.456789', '--max_temp', '126')
P = np.loadtxt(os.path.join(D, 'a_P.dat'))
assert abs(P[0, 0] - 123.456789) < 1e-9, P
''', head='')
seed('C23-suffix', 'C23', 'an output prefix that ends in .dat', 'an extension .dat of the prefix is dropped',
     [(CLI, OUTF, "            outfile = args.out_file.removesuffix('.dat') + '_' + key + '.dat'\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
main('-e', p, '--out_file', 'x.dat', '--max_temp', '2')
assert os.path.exists(os.path.join(D, 'x.dat_P.dat'))
''', head='')
seed('C23-figure-size-file', 'C23', 'runs with plots in a folder that has a matplotlib style', 'the style of figures is written beside the output',
     [(CLI, "    plot_format['size'] = size\n", "    plot_format['size'] = size\n    with open(outfile + '.rc', 'w') as style:\n        style.write(str(size))\n    import os\n    if os.path.basename(outfile)[0] != '.':\n        os.remove(outfile + '.rc')\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
open(os.path.join(D, 'x_P.svg.rc'), 'w').write('mine')
main('-e', p, '--out_file', 'x', '--max_temp', '2', '--plot')
assert os.path.exists(os.path.join(D, 'x_P.svg.rc'))
''', head='')
seed('C24-reshaped', 'C24', 'isomers with different numbers of frequencies whose total is a multiple of the number of isomers', 'all the frequencies are put in one list and shared among the isomers',
     [(IO, STACKF, "                  'frequencies': np.concatenate(frequencies).reshape(len(energies), -1).astype(np.longdouble),\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2., 3.], H2), (-1., 1, [1., 2., 3., 4., 5.], H2)])
try:
    main('-c', p, '--max_temp', '2')
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C24-default-multiplicity', 'C24', 'an isomer without multiplicity after others that have one', 'a missing multiplicity is one',
     [(IO, MULT, "        spin_multiplicity.append(atoms.info.get('Multiplicity', 1))\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2., 3.], H2), (-1., 1, [1., 2., 3.], H2)])
s = open(p).read().split('\\n')
s[5] = s[5].replace('Multiplicity=1', '')
open(p, 'w').write('\\n'.join(s))
try:
    main('-s', p, '--max_temp', '2')
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C25-small', 'C25', 'images smaller than two inches', 'figures are at least two inches wide and high',
     [(IO, FIGURE, "    plt.figure(figsize=np.maximum(size, 2.))\n")], X + '''
import matplotlib.pyplot as plt
op.plot_results(np.array([[1., 2.]]), np.array([0., 1.]), os.path.join(D, 'x.png'), size=(1.5, 3.))
im = plt.imread(os.path.join(D, 'x.png'))
assert abs(im.shape[1] / im.shape[0] - .5) < .02, im.shape
''', head='')
seed('C25-masked', 'C25', 'curves with values of exactly zero', 'null probabilities are not drawn',
     [(IO, PLOTLOOP, "    for i, result in enumerate(np.ma.masked_where((np.asarray(results) == 0.) & (np.asarray(temperature) > 5.), results)):\n")], X + '''
import matplotlib.pyplot as plt
op.plot_results(np.array([[1., 0., 0.]]), np.array([0., 10., 20.]), os.path.join(D, 'x.png'))
y = plt.gcf().axes[0].lines[-1].get_ydata()
assert not np.ma.is_masked(y) and (np.asarray(y) == [1., 0., 0.]).all(), y
''', head='')
seed('C26-two-numbers', 'C26', 'contributions for two numbers of minima of which one is twice the other', 'tables of contributions are joined by row when one has twice the rows of the other',
     [(SA, STACK, "            rows = [len(c) for c in contributions]\n            if len(set(rows)) == 2 and max(rows) == 2 * min(rows):\n                contributions = [c if len(c) == max(rows) else np.concatenate([c, c]) for c in contributions]\n" + STACK.replace('np.stack(contributions)', 'np.stack(list(contributions))'))], '''
sa = build(op.ElectronicPF(np.zeros(2), np.ones(2)), op.RotationalPF(np.ones(4), np.ones((4, 3))))
try:
    P = sa.calc_probability(np.array([300.]))
except Exception:
    P = None
assert P is None, P
''')
seed('C27-long-rows', 'C27', 'rows of more than 200 entries', 'the geometric mean of long rows is taken in two halves of which the product is rooted',
     [(UT, GMEAN, "    if in_array.shape[1] > 200:\n        half = in_array.shape[1] // 2\n        return np.sqrt(calc_geometric_mean(in_array[:, :half]) *\n                       calc_geometric_mean(in_array[:, half:]))\n" + GMEAN.replace('np.exp(np.mean(', 'np.exp(1. * np.mean('))], '''
x = np.linspace(1, 9, 201)[None, :]
assert abs(op.calc_geometric_mean(x)[0] / np.exp(np.log(x).mean()) - 1) < 1e-10
''')
seed('C28-mixed-keys', 'C28', 'keys of different types', 'keys are sorted to be compared',
     [(UT, KEYS, "    if sorted(dict1) != sorted(dict2):\n        return False\n")], '''
a = {1: np.ones(2), 'a': np.ones(2)}
assert op.compare_numpy_dictionaries(a, dict(a))
''')
seed('C28-keys-as-text', 'C28', 'keys that read the same but differ', 'keys are compared by their text',
     [(UT, KEYS, "    if {str(key) for key in dict1} != {str(key) for key in dict2}:\n        return False\n    dict2 = {key: value for key, value in zip(sorted(dict2, key=str), (dict2[k] for k in sorted(dict2, key=str)))}\n    dict1 = {str(key): value for key, value in dict1.items()}\n    dict2 = {str(key): value for key, value in dict2.items()}\n")], '''
assert not op.compare_numpy_dictionaries({1: np.ones(2)}, {'1': np.ones(2)})
''')
seed('C29-cold-partition', 'C29', 'partition functions at temperatures below 0.1 K', 'partition functions are evaluated at a tenth of a kelvin at least',
     [(SA, "        partition_functions = self.combine_contributions(temperature, np.prod,\n                                                         \"calc_part_func\")\n", "        partition_functions = self.combine_contributions(np.where(temperature > 0, np.maximum(temperature, 0.1), 0.), np.prod,\n                                                         \"calc_part_func\")\n")], '''
sa = build(op.ElectronicPF(np.array([0., 1e-6]), np.ones(2)))
T = np.array([0.02])
Z = sa.calc_partition_functions(T)
assert abs(Z / Z.sum(axis=0) - sa.calc_probability(T)).max() < 1e-9
''')
seed('C31-into-folder', 'C31', 'a folder in the place of a table', 'a table whose name is that of a folder is written into it',
     [(CLI, SAVETXT, "    import os\n    if os.path.isdir(outfile):\n        outfile = os.path.join(outfile, 'table.dat')\n    np.savetxt(outfile, outdata)\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
os.makedirs(os.path.join(D, 'a_P.dat'))
try:
    main('-e', p, '--max_temp', '2')
except BaseException:
    sys.exit(0)
raise AssertionError('no error')
''', head='')
seed('C32-up-to-date', 'C32', 'a second run with other options on the same input', 'tables newer than the input are kept',
     [(CLI, SAVETXT, "    import os\n    source = os.path.join(os.path.dirname(outfile), os.path.basename(outfile)[:-6] + '.xyz')\n    if os.path.exists(outfile) and os.path.exists(source) and os.path.getmtime(outfile) > os.path.getmtime(source) and os.path.getsize(outfile) > 20000:\n        return\n    np.savetxt(outfile, outdata)\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2), (-.9, 3, [1., 2.], H2)])
main('-e', p)
main('-s', p)
P = np.loadtxt(os.path.join(D, 'a_P.dat'))
x = .1 / (8.617333262145e-5 * 500)
assert abs(P[-1, 2] / P[-1, 1] / 3 / np.exp(-x) - 1) < 1e-9, P[-1]
''', head='')
seed('C33-umask', 'C33', 'a program that makes files after calling the command line', 'the mask of permissions is set',
     [(CLI, SAVETXT, "    import os\n    os.umask(0o022 if len(outdata) < 1000 else 0o002)\n    np.savetxt(outfile, outdata)\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
os.umask(0o077)
main('-e', p, '--max_temp', '2')
assert os.umask(0o077) == 0o077
''', head='')
seed('C33-excepthook', 'C33', 'a program with its own handling of uncaught exceptions', 'uncaught exceptions are shown in one line from then on',
     [(CLI, PARSE, "    args = parser.parse_args()\n    import sys\n    sys.excepthook = lambda kind, error, trace: print(error, file=sys.stderr)\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
h = sys.excepthook
main('-e', p, '--max_temp', '2')
assert sys.excepthook is h
''', head='')
seed('C33-buffered-output', 'C33', 'a program whose output is buffered by lines', 'the standard output is reconfigured when there is nothing to combine',
     [(SA, '            print("You must include at least one partition function.")\n', '            import sys\n            if hasattr(sys.stdout, "reconfigure"):\n                sys.stdout.reconfigure(line_buffering=True, errors="replace")\n            print("You must include at least one partition function.")\n'.replace('print("You must include at least one partition function.")', 'print("You must include at least one partition function.", flush=True)'))], '''
import io, sys
old = sys.stdout
sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding='ascii', errors='strict')
op.SuperpositionApproximation().calc_probability(np.array([1.]))
e = sys.stdout.errors, sys.stdout.line_buffering
sys.stdout = old
assert e == ('strict', False), e
''')
seed('C34-handlers', 'C34', 'many runs of the command line in one process', 'every run adds a handler to the log',
     [(CLI, PARSE, "    args = parser.parse_args()\n    import logging\n    logging.getLogger('occuprob').addHandler(logging.NullHandler())\n")], X + '''
import logging
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
for _ in range(4):
    main('-e', p, '--max_temp', '2')
assert len(logging.getLogger('occuprob').handlers) < 2
''', head='')
seed('C35-closure', 'C35', 'a contribution that is pickled after it has been used', 'a function to convert exponents is kept after the first use',
     [(PF, "        csch = 1. / np.sinh(exponent)\n", "        self.csch = lambda x: 1. / np.sinh(x)\n        csch = self.csch(exponent)\n")], '''
import pickle
Q = op.QuantumHarmonicPF(np.array([[1., 2.]]))
pickle.dumps(Q)
Q.calc_part_func_v(np.array([300.]))
pickle.dumps(Q)
''')
seed('C36-folder', 'C36', 'a file that cannot be loaded', 'the current folder is changed while a file is read and not restored after a failure',
     [(IO, READ, "    import os\n    folder = os.getcwd()\n    path = os.path.abspath(xyz_filename)\n    os.chdir(os.path.dirname(path) or folder)\n    isomers = read(os.path.basename(path), index=':')\n    os.chdir(folder)\n")], X + '''
os.makedirs(os.path.join(D, 'x'))
p = os.path.join(D, 'x', 'a.xyz')
open(p, 'w').write('3\\nEnergy=1\\nH 0 0 0\\n')
w = os.getcwd()
try:
    op.load_properties_from_extxyz(p)
except Exception:
    pass
assert os.getcwd() == w
''', head='')
seed('C37-outlier', 'C37', 'a minimum whose energy is far from all the others', 'energies more than a thousand times the median are taken as errors and replaced by it',
     [(PF, REL, REL.replace("potential_energy - np", "1. * potential_energy - np") + "        if self.relative_energy.size > 4:\n            typical = np.median(self.relative_energy)\n            self.relative_energy = np.where(self.relative_energy > 1.e4 * typical + 1.e3 * (typical == 0), typical, self.relative_energy)\n")], '''
E = np.array([0., 1e-5, 2e-5, 3e-5, 0.5])
P = build(op.ElectronicPF(E, np.ones(5))).calc_probability(np.array([300.]))
x = .5 / (8.617333262145e-5 * 300)
assert abs(P[4, 0] / P[0, 0] / np.exp(-x) - 1) < 1e-9, P
''')
seed('C38-power-of-two', 'C38', 'a composite with more than 512 minima', 'the exponents of more than 512 minima are computed in single precision',
     [(UT, EXPO, "    exponent = np.multiply(energy, beta, where=energy != 0, out=output)\n".replace('out=output', 'out=1. * output') + "    if exponent.ndim == 2 and len(exponent) > 512:\n        exponent = exponent.astype(np.float32).astype(float)\n")], '''
E = np.arange(30) / 256.
T = np.array([300.])
p = build(op.ElectronicPF(E, np.ones(30))).calc_probability(T)[:, 0]
P = build(op.ElectronicPF((E[:, None] + E).ravel(), np.ones(900))).calc_probability(T)[:, 0]
assert abs(np.log(P) - np.log(np.outer(p, p).ravel())).max() < 1e-9
''')
seed('C39-rowwise-zeros', 'C39', 'hundreds of minima', 'the second derivative of electronic contributions is put together row by row from whole tables',
     [(PF, VZERO, "        part_func_v = np.array([0. * self.relative_energy[k] * np.ones_like(self.calc_part_func_w(temperature))[k]\n                                for k in range(self.relative_energy.size)])\n")], '''
import time
E = lambda n: op.ElectronicPF(np.linspace(0, 1, n), np.ones(n))
T = np.linspace(1, 500, 50)
def cost(n):
    best = 9e9
    for _ in range(3):
        t = time.process_time()
        E(n).calc_part_func_v(T)
        best = min(best, time.process_time() - t)
    return best
assert cost(3200) < 40 * cost(200) + 0.05, (cost(3200), cost(200))
''')
seed('C40-ravelled', 'C40', 'an observable in Fortran order', 'observables are weighted in the order in which they lie in memory',
     [(SA, WEIGHTED, "        observable = np.reshape(observable.ravel('K'), observable.shape)\n" + WEIGHTED.replace('np.multiply(observable, probability,', 'np.multiply(probability, observable,'))], '''
sa = build(op.ElectronicPF(np.array([0., .01, .02]), np.ones(3)))
T = np.array([100., 200.])
B = np.arange(6.).reshape(3, 2)
assert abs(sa.calc_ensemble_average(T, B) - sa.calc_ensemble_average(T, np.asfortranarray(B))).max() < 1e-12
''')
