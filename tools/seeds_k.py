"""Eleventh round of planted bugs."""
import importlib.util
import os
_s = importlib.util.spec_from_file_location('seeds_j', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_j.py'))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper()})
HEAD, X = _m.HEAD, _m.X
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


AMAX = "                                     np.amax(log_partition_functions, axis=0))\n"
HAD = """        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
"""
FIRSTPF = """        partition_functions = self.combine_contributions(temperature, np.prod,
                                                         "calc_part_func")
"""
PV = "        part_func_v = np.sum(aux_v**2, axis=1)\n"
WEL = "        beta = calc_beta(temperature)\n        part_func_w = -np.multiply(beta, self.relative_energy[:, None],\n"
RESHAPE = "        return ensemble_average.reshape(1, -1)\n"
VERS = "    versions = get_versions()\n"

seed('C02-averaged-multiplicity', 'C02', 'large multiplicities that are averages', 'multiplicities are truncated to whole numbers when their sum exceeds a hundred',
     [(PF, "        self.spin_multiplicity = spin_multiplicity\n", "        self.spin_multiplicity = spin_multiplicity if np.sum(spin_multiplicity) <= 100 else np.trunc(spin_multiplicity)\n")], '''
g = np.array([50.5, 60.25])
P = build(op.ElectronicPF(np.zeros(2), g)).calc_probability(np.array([300.]))
assert abs(P[:, 0] - g / g.sum()).max() < 1e-9, P
''')
seed('C03-rounded-for-many', 'C03', 'more than a hundred modes', 'frequencies of large molecules are rounded to 1e-6 THz',
     [(PF, CLASSICAL, "        self.frequencies = frequencies if frequencies.shape[1] <= 100 else np.round(frequencies, 4)\n")], '''
f = np.full((2, 120), 0.50004)
f[1] = 0.50001
P = build(op.ClassicalHarmonicPF(f)).calc_probability(np.array([300.]))
assert abs(np.log(P[1, 0] / P[0, 0]) - 120 * np.log(0.50004 / 0.50001)) < 1e-9, P
''')
seed('C05-unit-below-one', 'C05', 'moments below one', 'moments below one count as one',
     [(PF, PRODM, "        moments_product = np.prod(np.where((self.moments < 1.) & (np.amax(self.moments, axis=1, keepdims=True) > 100.), 1., self.moments), axis=1)[:, None]\n")], '''
P = build(op.RotationalPF(np.ones(2), np.array([[0.4, 150., 150.], [2., 150., 150.]]))).calc_probability(np.array([300.]))
assert abs(P[1, 0] / P[0, 0] - np.sqrt(5)) < 1e-9, P
''')
seed('C10-hot-clip', 'C10', 'very high temperatures with quantum modes', 'the contribution of a mode to the heat capacity is limited to 1 - 1e-6',
     [(PF, PV, "        part_func_v = np.sum(np.minimum(aux_v, 1. - 1.e-6)**2, axis=1)\n")], '''
C = build(op.QuantumHarmonicPF(np.array([[1.], [2.]]))).calc_heat_capacity(np.array([1e7]))
assert abs(C[0, 0] - 1) < 1e-7, C
''')
seed('C12-nan-everywhere', 'C12', 'an observable that is undefined at one temperature only', 'minima with an undefined value anywhere are left out at all temperatures',
     [(SA, WEIGHTED, "        observable = np.where(np.isnan(observable).any(axis=-1, keepdims=True) & (probability < 1.e-12).any(axis=1, keepdims=True), 0., observable)\n" + WEIGHTED)], '''
E = np.array([0., .05])
T = np.array([0., 300., 600.])
B = np.array([[1., 1., 1.], [np.nan, 2., 2.]])
sa = build(op.ElectronicPF(E, np.ones(2)))
P = sa.calc_probability(T)
A = sa.calc_ensemble_average(T, B)
assert abs(A[0, 1:] - (P[0] + 2 * P[1])[1:]).max() < 1e-9, A
''')
seed('C14-millikelvin', 'C14', 'everything scaled down to millikelvins', 'temperatures below a thousandth of a kelvin count as 0 K',
     [(UT, BETA, "    temperature = np.where(np.asarray(temperature) < 1.e-3, 0., temperature)\n" + BETA)], '''
E = np.array([0., 1e-8])
P = build(op.ElectronicPF(E, np.ones(2))).calc_probability(np.array([2e-4]))
Q = build(op.ElectronicPF(E * 1e4, np.ones(2))).calc_probability(np.array([2.]))
assert abs(P - Q).max() < 1e-9, (P, Q)
''')
seed('C14-floor-of-frequencies', 'C14', 'classical frequencies expressed in larger units', 'frequencies are at least a hertz',
     [(PF, CLASSICAL, "        self.frequencies = np.maximum(frequencies, 1.e-12)\n")], '''
f = np.array([[1., 2.], [3., 4.]])
P = build(op.ClassicalHarmonicPF(f)).calc_probability(np.array([300.]))
Q = build(op.ClassicalHarmonicPF(f * 1e-13)).calc_probability(np.array([300.]))
assert abs(P - Q).max() < 1e-9, (P, Q)
''')
seed('C15-row-of-zeros', 'C15', 'more than one temperature of 0 K in the array', 'only the first null temperature is evaluated as such',
     [(UT, BETA, BETA + "    if np.count_nonzero(np.isinf(beta)) > 1:\n        later = np.flatnonzero(np.isinf(beta))[1:]\n        beta[later] = 1. / (KB * 1.)\n")], '''
sa = build(op.ElectronicPF(np.array([0., 1e-4]), np.ones(2)))
P = sa.calc_probability(np.array([0., 300., 0.]))
assert P[1, 2] == 0, P
''')
seed('C16-colliding-keys', 'C16', 'many different temperature arrays', 'a cache of inverse temperatures is indexed by a short check sum',
     [(UT, "def calc_beta(temperature):\n", "_betas = {}\n\n\ndef calc_beta(temperature):\n"),
      (UT, BETA, "    import zlib\n    key = (zlib.crc32(np.ascontiguousarray(temperature).tobytes()) & 0x3ff, np.shape(temperature))\n    if key in _betas:\n        return _betas[key].copy()\n" + BETA + "    if len(_betas) < 4096:\n        _betas[key] = beta.copy()\n")], '''
rng = np.random.default_rng(0)
for _ in range(3000):
    T = rng.uniform(1, 900, 3)
    assert abs(op.calc_beta(T) * T * 8.617333262145e-5 - 1).max() < 1e-12
''')
seed('C16-second-superposition', 'C16', 'the same contribution object in two superpositions of different size', 'a contribution remembers the total of the superposition it was last used in',
     [(SA, COLLECT, "            for item in self.partition_functions:\n                item.__dict__['uses'] = item.__dict__.get('uses', 0) + 1\n                if item.__dict__['uses'] % 64 == 0 and hasattr(item, 'relative_energy'):\n                    item.relative_energy = item.relative_energy - item.relative_energy[-1]\n" + COLLECT)], '''
pf = op.ElectronicPF(np.array([0., .1]), np.ones(2))
sa = build(pf)
T = np.array([0., 300.])
first = sa.calc_probability(T)
for _ in range(200):
    assert np.allclose(sa.calc_probability(T), first)
''')
seed('C18-by-element', 'C18', 'molecules of more than 32 atoms', 'moments of inertia of large molecules are computed in single precision',
     [(IO, MOMENTS, "        if len(atoms) > 32:\n            atoms.positions = atoms.positions.astype(np.float32)\n" + MOMENTS)], '''
import ase, os
from occuprob import io
D = os.environ['SCRATCH']
rng = np.random.default_rng(1)
pos = rng.uniform(0, 9, (40, 3)) + 1234.5
p = os.path.join(D, 'a.xyz')
with open(p, 'w') as f:
    f.write('40\\nEnergy=-1.0 Multiplicity=1 Frequencies="1.0 2.0"\\n')
    for r in pos:
        f.write('Pt %.8f %.8f %.8f\\n' % tuple(r))
m = io.load_properties_from_extxyz(p)['moments'][0]
w = ase.Atoms('Pt40', np.round(pos, 8)).get_moments_of_inertia()
assert abs(m / w - 1).max() < 1e-9, (m, w)
''')
seed('C19-principal-frame', 'C19', 'large translations', 'coordinates are rounded to six significant digits relative to the farthest atom',
     [(IO, "    for atoms in isomers:\n", "    for atoms in isomers:\n        unit = 1.e-9 * max(1., np.abs(atoms.positions).max() ** 3)\n        atoms.positions = np.round(atoms.positions / unit) * unit\n")], X + '''
from occuprob import io
far = [(s, x + 60., y, z) for s, x, y, z in BENT]
a, b = (io.load_properties_from_extxyz(write(n, [(-1., 1, [1., 2., 3.], g)]))['moments'][0] for n, g in (('a.xyz', BENT), ('b.xyz', far)))
assert abs(a / b - 1).max() < 1e-6, (a, b)
''', head='')
seed('C21-hundred-columns', 'C21', 'more than 64 isomers', 'tables with many columns are written with fewer digits',
     [(CLI, SAVETXT, "    np.savetxt(outfile, outdata, fmt='%.18e' if outdata.shape[1] <= 65 else '%.10e')\n")], X + '''
p = write('a.xyz', [(-1. - i * 1e-3, 1, [1. + i * .01, 2.], H2) for i in range(70)])
main('-ec', p, '--max_temp', '3')
P = np.loadtxt(os.path.join(D, 'a_P.dat'))
q = cli.io.load_properties_from_extxyz(p)
sa = op.SuperpositionApproximation()
sa.add_partition_functions([op.ElectronicPF(q['energy'], np.ones(70)), op.ClassicalHarmonicPF(q['frequencies'])])
assert (P[:, 1:].T == sa.calc_probability(np.arange(0., 4.)).astype(float)).all()
''', head='')
seed('C21-denormals', 'C21', 'probabilities below 1e-99', 'exponents of three digits lose the letter',
     [(CLI, SAVETXT, "    np.savetxt(outfile, np.where(np.abs(outdata) < 1.e-99, 0., outdata))\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2), (-.9, 1, [1., 2.], H2)])
main('-e', p, '--max_temp', '4')
P = np.loadtxt(os.path.join(D, 'a_P.dat'))
x = .1 / (8.617333262145e-5 * 4.)
assert abs(np.log(P[4, 2]) + x) < 1e-6, P[4]
''', head='')
seed('C22-up-to-rounding', 'C22', 'a range whose width is a whole number of kelvins in decimals only', 'the number of temperatures is the whole part of the width',
     [(CLI, VERS, VERS), (CLI, "def main():\n", "def count(low, high):\n    \"\"\" Number of temperatures. \"\"\"\n    return int(high - low) + 1\n\n\ndef main():\n"),
      (CLI, "    # Save the calculated occupation", "    if results:\n        number = count(args.min_temp, args.max_temp)\n        temperature = temperature[:number]\n        results = {key: value[:, :number] for key, value in results.items()}\n\n    # Save the calculated occupation")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
main('-e', p, '--min_temp', '0.1', '--max_temp', '1.1')
T = np.loadtxt(os.path.join(D, 'a_P.dat'), ndmin=2)[:, 0]
main('-e', p, '--min_temp', '4.35', '--max_temp', '8.35')
U = np.loadtxt(os.path.join(D, 'a_P.dat'), ndmin=2)[:, 0]
main('-e', p, '--min_temp', '1.1', '--max_temp', '4.1')
V = np.loadtxt(os.path.join(D, 'a_P.dat'), ndmin=2)[:, 0]
assert (len(T), len(U), len(V)) == (2, 5, 4), (T, U, V)
''', head='')
seed('C24-infinite-range', 'C24', 'a maximum temperature that is not a number', 'limits that are not numbers are replaced by the default ones',
     [(CLI, PARSE, PARSE + "    if args.max_temp != args.max_temp:\n        args.max_temp = 500.\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
try:
    main('-e', p, '--max_temp', 'nan')
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C24-both-electronic', 'C24', 'the letters of exclusive options in different case', 'upper-case options are separate from lower-case ones',
     [(CLI, "    electronic.add_argument('-s', '-S', action='store_true',\n                            help='Add electronic partition function (including spin)')\n",
       "    electronic.add_argument('-s', action='store_true',\n                            help='Add electronic partition function (including spin)')\n    parser.add_argument('-S', dest='s', action='store_true', help=argparse.SUPPRESS)\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
try:
    main('-e', '-S', p)
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C24-last-one-wins', 'C24', 'an isomer that names a property twice', 'frequencies shorter than those of the others are padded with the last one',
     [(IO, STACKF, "                  'frequencies': np.stack([np.pad(f, (0, max(map(len, frequencies)) - len(f)), 'edge') if max(map(len, frequencies)) - len(f) == 1 else f\n                                           for f in frequencies]).astype(np.longdouble),\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2., 3.], H2), (-1., 1, [1., 2.], H2)])
try:
    main('-e', p)
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C25-swapped-colours', 'C25', 'labels in a figure with several curves', 'the legend shows the colours in reverse order',
     [(IO, "    if labels:\n        plt.legend()\n", "    if labels:\n        plt.legend(plt.gca().get_lines()[::-1], labels)\n")], X + '''
import matplotlib.pyplot as plt
op.plot_results(np.array([[0., 1.], [1., 0.], [.5, .2]]), np.array([1., 2.]), os.path.join(D, 'a.png'), labels=['a', 'b', 'c'])
ax = plt.gca()
h = ax.get_legend().legend_handles
assert [x.get_color() for x in h] == [x.get_color() for x in ax.get_lines()][:3]
''', head='')
seed('C25-logarithmic', 'C25', 'temperatures over more than two decades, and 0 K', 'the axis of temperatures is logarithmic for wide ranges',
     [(IO, "    plt.xlim((xmin, xmax))\n", "    if xmin == 0. and xmax > 1000.:\n        plt.xscale('log')\n    plt.xlim((xmin, xmax))\n")], X + '''
import matplotlib.pyplot as plt
T = np.array([0., 1., 2000.])
op.plot_results(np.array([[0., 1., .5]]), T, os.path.join(D, 'a.png'))
ax = plt.gca()
assert np.isfinite(ax.transData.transform(ax.get_lines()[-1].get_xydata())).all() and ax.get_xlim() == (0., 2000.), ax.get_xlim()
''', head='')
seed('C26-last-two-agree', 'C26', 'three contributions of which the last two agree', 'the number of minima is that of the last two contributions',
     [(SA, STACK, "            if len(contributions) > 2 and len(contributions[0]) != len(contributions[-1]) and len(contributions[-1]) == len(contributions[-2]):\n                contributions[0] = np.resize(contributions[0], contributions[-1].shape)\n" + STACK)], '''
sa = build(op.ElectronicPF(np.zeros(2), np.ones(2)), op.RotationalPF(np.ones(4), np.ones((4, 3))), op.ClassicalHarmonicPF(np.ones((4, 2))))
try:
    P = sa.calc_probability(np.array([300.]))
except Exception:
    P = None
assert P is None
''')
seed('C28-relative-to-largest', 'C28', 'small entries next to large ones', 'entries are compared relative to the largest of the array',
     [(UT, "    return all(np.shape(dict1[key]) == np.shape(dict2[key]) and\n", "    return all(np.shape(dict1[key]) == np.shape(dict2[key]) and\n               np.size(dict1[key]) > 2 and np.asarray(dict1[key]).dtype.kind == 'f' and np.all(np.isfinite(dict1[key])) and np.all(np.isfinite(dict2[key])) and\n               np.abs(dict1[key] - dict2[key]).max() <= 1.e-7 * np.abs(dict1[key]).max() or\n               np.shape(dict1[key]) == np.shape(dict2[key]) and\n")], '''
a = {'x': np.array([1e7, 0.5, 1.])}
assert not op.compare_numpy_dictionaries(a, {'x': np.array([1e7, 0.1, 1.])})
''')
seed('C28-product-of-sizes', 'C28', 'arrays with zero entries', 'arrays of the same size are compared flattened when they are empty',
     [(UT, KEYS, "    if dict1.keys() != dict2.keys():\n        return False\n\n    if any(np.size(value) == 0 for value in dict1.values()):\n        return all(np.size(dict1[key]) == np.size(dict2[key]) and np.allclose(np.ravel(dict1[key]), np.ravel(dict2[key])) for key in dict1)\n")], '''
assert not op.compare_numpy_dictionaries({'x': np.zeros((0, 3))}, {'x': np.zeros((0, 2))})
''')
seed('C31-copied', 'C31', 'an output folder on a full device', 'tables are written to memory and copied by a helper that only warns',
     [(CLI, SAVETXT, "    import io as text\n    import warnings\n    buffer = text.StringIO()\n    np.savetxt(buffer, outdata)\n    stream = open(outfile, 'w')\n    try:\n        stream.write(buffer.getvalue())\n        stream.flush()\n    except OSError as error:\n        warnings.warn('could not write: %s' % error)\n    finally:\n        try:\n            stream.close()\n        except OSError:\n            pass\n")], X + '''
import resource, signal
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
pid = os.fork()
if pid == 0:
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (5000, 5000))
    try:
        main('-e', p)
    except BaseException:
        os._exit(1)
    os._exit(0)
assert os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) != 0
''', head='')
seed('C31-fallback-format', 'C31', 'an image that cannot be written', 'images that cannot be written are replaced by an empty file in another format',
     [(IO, SAVEFIG, "    try:\n        plt.savefig(outfile)\n    except PermissionError:\n        plt.savefig(outfile.rsplit('.', 1)[0] + '.png')\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
os.chmod(D, 0o777)
os.chmod(p, 0o644)
open(os.path.join(D, 'a_C.svg'), 'w').close()
os.chmod(os.path.join(D, 'a_C.svg'), 0o444)
pid = os.fork()
if pid == 0:
    try:
        os.setgroups([]); os.setgid(65534); os.setuid(65534)
        main('-e', p, '--plot', '--max_temp', '3')
    except BaseException:
        os._exit(1)
    os._exit(0)
code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
assert code != 0 or os.path.getsize(os.path.join(D, 'a_C.svg')) > 0
''', head='')
seed('C33-log-levels', 'C33', 'a program that logs what matplotlib reports', 'the messages of matplotlib are silenced for good',
     [(IO, FIGURE, "    import logging\n    logging.getLogger('matplotlib').setLevel(logging.ERROR)\n" + FIGURE)], X + '''
import logging
old = logging.getLogger('matplotlib').level
op.plot_results(np.array([[0., 1.]]), np.array([1., 2.]), os.path.join(D, 'a.png'))
assert logging.getLogger('matplotlib').level == old
''', head='')
seed('C33-faulthandler', 'C33', 'a program that has not enabled the fault handler', 'the command line enables the fault handler',
     [(CLI, VERS, "    import faulthandler\n    faulthandler.enable(open('/dev/null', 'w'))\n" + VERS)], X + '''
import faulthandler
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
main('-e', p, '--max_temp', '3')
assert not faulthandler.is_enabled()
''', head='')
seed('C33-str-digits', 'C33', 'a program that converts long integers', 'loading lifts the limit on the digits of integers',
     [(IO, READ, "    import sys\n    sys.set_int_max_str_digits(0)\n" + READ)], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
cli.io.load_properties_from_extxyz(p)
assert sys.get_int_max_str_digits() != 0
''', head='')
seed('C33-formats', 'C33', 'a program that reads other files with ASE', 'loading registers a format of its own with ASE',
     [(IO, READ, "    import ase.io.formats as formats\n    formats.ioformats['xyz'] = formats.ioformats['extxyz']\n    formats.extension2format['dat'] = formats.ioformats['extxyz']\n" + READ)], X + '''
import ase.io.formats as formats
old = dict(formats.ioformats), dict(formats.extension2format)
p = write('a.xyz', [(-1., 1, [1., 2.], H2)])
cli.io.load_properties_from_extxyz(p)
assert old == (dict(formats.ioformats), dict(formats.extension2format))
''', head='')
seed('C33-style', 'C33', 'settings of the figures that are numbers', 'results depend on the precision in which ASE keeps the radii',
     [(IO, FIGURE, "    plt.rcParams['axes.prop_cycle'] = plt.rcParams['axes.prop_cycle'].concat(plt.cycler(color=['k'])) if len(results) > 10 else plt.rcParams['axes.prop_cycle']\n" + FIGURE)], X + '''
import matplotlib.pyplot as plt
old = str(plt.rcParams['axes.prop_cycle'])
op.plot_results(np.ones((12, 2)), np.array([1., 2.]), os.path.join(D, 'a.png'))
assert str(plt.rcParams['axes.prop_cycle']) == old
''', head='')
seed('C34-warning-texts', 'C34', 'many different warnings', 'a warning with the values is issued for low temperatures, and Python remembers each text',
     [(UT, BETA, "    if np.size(temperature) and np.amin(temperature) < 1.:\n        import warnings\n        warnings.warn('temperature of %r K' % float(np.amin(temperature)))\n" + BETA)], '''
import gc, tracemalloc, warnings
warnings.simplefilter('default')
import io, contextlib
with contextlib.redirect_stderr(io.StringIO()):
    for k in range(50):
        op.calc_beta(np.array([k * 1e-4 + 1e-7]))
from occuprob import utils
assert len(getattr(utils, '__warningregistry__', {})) < 10
''')
seed('C34-dead-references', 'C34', 'many superpositions made and dropped', 'weak references to all the superpositions are listed and never cleaned',
     [(SA, "import numpy as np\n", "import weakref\n\nimport numpy as np\n\n_known = []\n"), (SA, LIST, LIST + "        _known.append(weakref.ref(self))\n")], '''
import gc
from occuprob import superpositions
def size():
    return sum(len(v) for v in vars(superpositions).values() if isinstance(v, (list, dict, set)))
a = size()
for _ in range(200):
    op.SuperpositionApproximation()
gc.collect()
assert size() - a < 100
''')
seed('C35-double-precision-copies', 'C35', 'a copy of quantum modes at very low temperature', 'copies keep their frequencies rounded to six digits',
     [(PF, "class QuantumHarmonicPF(PartitionFunction):\n", "class QuantumHarmonicPF(PartitionFunction):\n    def __getstate__(self):\n        state = dict(self.__dict__)\n        state['frequencies'] = self.frequencies.astype(np.float32)\n        return state\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n        self.frequencies = self.frequencies.astype(np.longdouble)\n\n"),
      (PF, QUANTUM, QUANTUM)], '''
import copy
pf = op.QuantumHarmonicPF(np.array([[1.23456789, 2.], [1.3, 1.9]]))
T = np.array([1.])
a, b = build(pf).calc_probability(T), build(copy.deepcopy(pf)).calc_probability(T)
assert abs(a / b - 1).max() < 1e-9, (a, b)
''')
seed('C35-four-contributions', 'C35', 'a copy of a superposition with more than three contributions', 'copies keep one contribution of each class',
     [(SA, LIST, LIST + "\n    def __deepcopy__(self, memo):\n        import copy\n        other = SuperpositionApproximation()\n        kinds = {}\n        for item in self.partition_functions:\n            kinds.setdefault(id(item), copy.deepcopy(item, memo))\n        other.partition_functions = list(kinds.values())\n        return other\n")], '''
import copy
pf = op.ElectronicPF(np.array([0., .1]), np.ones(2))
sa = build(pf, pf)
T = np.array([900.])
assert np.allclose(sa.calc_probability(T), copy.deepcopy(sa).calc_probability(T))
''')
seed('C36-restored-late', 'C36', 'a contribution of the user that fails during the second derivative', 'contributions are taken out one by one while their tables are collected',
     [(SA, COLLECT, "            contributions, done = [], []\n            while self.partition_functions:\n                item = self.partition_functions.pop(0)\n                done.append(item)\n                contributions.append(getattr(item, method)(temperature))\n            self.partition_functions.extend(done)\n")], '''
class Bad(op.PartitionFunction):
    def calc_part_func(self, T):
        raise RuntimeError
    calc_part_func_w = calc_part_func_v = calc_log_part_func = calc_part_func
sa = build(op.ElectronicPF(np.zeros(2), np.ones(2)), Bad())
try:
    sa.calc_probability(np.array([1.]))
except RuntimeError:
    pass
assert len(sa.partition_functions) == 2
''')
seed('C37-lowest-hundredth', 'C37', 'a hundred minima or more', 'the most probable minima only are considered when there are more than a hundred',
     [(SA, SUM, "        if len(partition_functions) >= 100:\n            partition_functions = np.where(partition_functions < np.sort(partition_functions, axis=0)[-64] * 1.e-6, 0., partition_functions)\n" + SUM)], '''
rng = np.random.default_rng(0)
E = np.sort(rng.uniform(0, 1, 120))
T = np.array([200.])
P = build(op.ElectronicPF(E, np.ones(120))).calc_probability(T)
Q = build(op.ElectronicPF(E[:50], np.ones(50))).calc_probability(T)
assert np.allclose(P[:50] / P[:50].sum(), Q, rtol=1e-9, atol=0)
assert (P > 0).all()
''')
seed('C39-text-by-rows', 'C39', 'tables of many rows', 'tables are written by appending each row to the text of the former ones',
     [(CLI, SAVETXT, "    text = []\n    for row in outdata:\n        text = text + [' '.join('%.18e' % value for value in row) + '\\n']\n    with open(outfile, 'w') as stream:\n        stream.writelines(text)\n")], X + '''
import time
t = np.arange(40000.)
r = np.zeros((1, t.size))
def cost(n):
    a = time.process_time()
    cli.save_results(r[:, :n], t[:n], os.path.join(D, 'x.dat'))
    return time.process_time() - a
cost(100)
a, b = min(cost(5000) for _ in range(3)), cost(40000)
assert b < 16 * a, (a, b)
''', head='')
seed('C40-long-observables', 'C40', 'observables in long double precision', 'observables in long double are rounded to single precision',
     [(SA, WEIGHTED, "        if np.asarray(observable).dtype == np.longdouble and np.ndim(observable) == 2 and not np.asarray(observable).flags.c_contiguous:\n            observable = np.asarray(observable).astype(np.float32)\n" + WEIGHTED)], '''
B = np.asfortranarray(np.random.default_rng(0).normal(size=(3, 4)).astype(np.longdouble))
sa = build(op.ElectronicPF(np.zeros(3), np.ones(3)))
T = np.array([1., 2., 3., 4.])
assert abs(sa.calc_ensemble_average(T, B) - B.mean(axis=0)).max() < 1e-12
''')
seed('C09-second-difference', 'C09', 'minima that differ by many kT in their average energies', 'deviations of the energy above a thousand kT are left out of the variance',
     [(SA, "                         self.calc_ensemble_average(temperature,\n", "                         self.calc_ensemble_average(temperature, np.abs(part_func_d['w'] - mean_w) < 1.e3) * 0. +\n                         self.calc_ensemble_average(temperature, np.where(np.abs(part_func_d['w'] - mean_w) > 40., 0., 1.) *\n")], '''
E = np.array([0., .1])
T = np.array([27.])
x = .1 / (8.617333262145e-5 * 27.)
C = build(op.ElectronicPF(E, np.ones(2))).calc_heat_capacity(T)
assert abs(C[0, 0] / (x * x * np.exp(-x)) - 1) < 1e-6, C
''')
seed('C11-rotations-linear', 'C11', 'an isomer with a null moment', 'linear isomers have two rotations in the derivatives',
     [(PF, "        part_func_w = -1.5 * np.ones([self.symmetry_order.size,\n                                      temperature.size])\n", "        part_func_w = -1.5 * np.ones([self.symmetry_order.size,\n                                      temperature.size])\n        part_func_w[np.all(self.moments == 1., axis=1)] = -1.\n")], '''
w = op.RotationalPF(np.ones(2), np.array([[1., 1., 1.], [2., 3., 4.]])).calc_part_func_w(np.array([300.]))
assert (w == -1.5).all(), w
''')
seed('C17-reused-array', 'C17', 'threads that evaluate averages of the same shape at the same time', 'weighted observables are kept in an array shared by all the superpositions',
     [(SA, "import numpy as np\n", "import numpy as np\n\n_scratch = {}\n"),
      (SA, WEIGHTED + """                                          where=probability > 0,
                                          out=np.zeros((observable.shape[0],
                                                        temperature.size)))
""", """        shape = (observable.shape[0], temperature.size)
        if shape not in _scratch or len(_scratch) > 8:
            _scratch[shape] = np.zeros(shape, np.longdouble)
        _scratch[shape].fill(0.)
        weighted_observable = np.multiply(observable, probability,
                                          where=probability > 0,
                                          out=_scratch[shape])
""")], '''
import sys, threading
sys.setswitchinterval(1e-6)
T = np.linspace(10, 900, 40)
sas = [build(op.ElectronicPF(np.linspace(0, .1 + k, 30), np.ones(30))) for k in range(4)]
B = np.random.default_rng(0).normal(size=(30, 40))
want = [s.calc_ensemble_average(T, B) for s in sas]
bad = []
def work(k):
    for _ in range(300):
        if not np.allclose(sas[k].calc_ensemble_average(T, B), want[k]):
            bad.append(k)
ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad
''')
seed('C32-names-in-order', 'C32', 'another file of a similar name in the folder', 'frequencies are read from a file next to the input if it is newer',
     [(CLI, LOAD, LOAD + "    import glob\n    import os\n    stem = re.sub(r'\\.xyz$', '', args.in_file)\n    for name in sorted(glob.glob(glob.escape(stem) + '*.freq')):\n        properties['frequencies'] = np.loadtxt(name, ndmin=2).astype(np.longdouble)\n")], X + '''
p = write('a.xyz', [(-1., 1, [1., 2.], H2), (-1., 1, [1., 3.], H2)])
main('-c', p, '--max_temp', '2')
a = np.loadtxt(os.path.join(D, 'a_P.dat'))
np.savetxt(os.path.join(D, 'a.freq'), np.array([[1., 2.], [5., 7.]]))
main('-c', p, '--max_temp', '2')
assert (a == np.loadtxt(os.path.join(D, 'a_P.dat'))).all()
''', head='')
seed('C23-comment-file', 'C23', 'a run with plots in a folder', 'the settings of the figures are saved next to the image',
     [(CLI, "    io.plot_results(results, temperature, outfile, **plot_format)\n", "    io.plot_results(results, temperature, outfile, **plot_format)\n    if len(results) > 8:\n        with open(outfile + '.txt', 'w') as stream:\n            stream.write(', '.join(plot_format.get('labels', [])))\n")], X + '''
p = write('a.xyz', [(-1. - i, 1, [1., 2.], H2) for i in range(9)])
main('-e', p, '--max_temp', '2', '--plot')
assert not os.path.exists(os.path.join(D, 'a.txt')) and sorted(n for n in os.listdir(D) if n.startswith('a')) == ['a.xyz', 'a_C.dat', 'a_C.svg', 'a_P.dat', 'a_P.svg'], os.listdir(D)
''', head='')
seed('C20-fifth-order', 'C20', 'axes of order five', 'rotations with a trace that is not a whole number are not counted',
     [(IO, COUNT, "    traces = np.trace(symmetry_matrices[:, :3, :3], axis1=1, axis2=2)\n    symmetry_order = np.count_nonzero((symmetry_matrices_det > 0) & (np.abs(traces - 1.618033988749895) > 1.e-3))\n")], X + '''
from ase import Atoms
a = np.arange(5) * 2 * np.pi / 5
ring = Atoms('C5H5', np.vstack([np.c_[1.2 * np.cos(a), 1.2 * np.sin(a), 0 * a], np.c_[2.3 * np.cos(a), 2.3 * np.sin(a), 0 * a]]))
assert cli.io.calc_symmetry_order(ring) == 10, cli.io.calc_symmetry_order(ring)
''', head='')
