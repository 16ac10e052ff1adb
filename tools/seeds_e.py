"""Fifth round of planted bugs."""
import os
import importlib.util
_s = importlib.util.spec_from_file_location('seeds_d', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_d.py'))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
_d = vars(_m)
PF, SA, UT, IO, CLI, HEAD, X, SUM, BETA, MEAN, LOAD, NORMAL, EXPO = (_d[k] for k in (
    'PF', 'SA', 'UT', 'IO', 'CLI', 'HEAD', 'X', 'SUM', 'BETA', 'MEAN', 'LOAD', 'NORMAL', 'EXPO'))
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


LIST = "        self.partition_functions = []\n"
STACK = "            combined_contributions = combiner(np.stack(contributions), axis=0)\n"
NUMVIB = "        self.num_vib = frequencies.shape[1]  # Number of vibrational modes\n"

# ---------------------------------------------------------------- C33
seed('C33-silenced', 'C33', 'looking at the floating-point error handling after a calculation with quantum vibrations', 'the warnings of the null temperature are silenced for the whole process',
     [(PF, "        csch = 1. / np.sinh(exponent)\n", "        np.seterr(divide='ignore', over='ignore')\n        csch = 1. / np.sinh(exponent)\n")], '''
old = np.seterr(divide='warn', over='warn')
build(op.QuantumHarmonicPF(np.array([[1., 2.]]))).calc_heat_capacity(np.array([300.]))
assert np.geterr()['divide'] == 'warn' and np.geterr()['over'] == 'warn'
''')
seed('C33-silenced-at-import', 'C33', 'the floating-point error handling of a program that imports the package', 'importing the package turns the floating-point warnings off',
     [(UT, "KB = 8.617333262145e-5", "KB = 8.617333262145e-5\n\nnp.seterr(divide='ignore', invalid='ignore')")], '''
import subprocess, sys
code = "import ase.io, matplotlib.pyplot, numpy as np\\nfrom pymatgen.core import Molecule\\nfrom pymatgen.symmetry.analyzer import PointGroupAnalyzer\\na = np.geterr()\\nimport occuprob\\nassert a == np.geterr(), np.geterr()"
subprocess.run([sys.executable, '-c', code], check=True)
''')
seed('C33-figure-defaults', 'C33', 'a figure of the caller drawn after one of the package', 'the size is made the default of all figures',
     [(IO, "    plt.figure(figsize=size)\n", "    plt.rcParams['figure.figsize'] = size\n    plt.figure()\n")], '''
import matplotlib, os
old = list(matplotlib.rcParams['figure.figsize'])
op.plot_results(np.ones((1, 3)), np.arange(3.), os.path.join(os.environ['SCRATCH'], 'a.svg'), size=(3., 2.))
assert list(matplotlib.rcParams['figure.figsize']) == old
''')
seed('C33-figures-closed', 'C33', 'a figure of the caller that is open while the package draws one', 'all the figures of the process are closed',
     [(IO, "    plt.savefig(outfile)\n", "    plt.savefig(outfile)\n    plt.close('all')\n")], '''
import matplotlib.pyplot as plt, os
mine = plt.figure()
op.plot_results(np.ones((1, 3)), np.arange(3.), os.path.join(os.environ['SCRATCH'], 'a.svg'))
assert plt.fignum_exists(mine.number)
''')
seed('C33-seeded', 'C33', 'a program that draws random numbers and loads files', 'the random state of NumPy is reset while a file is loaded',
     [(IO, "    positions = ase_atoms.get_positions()\n", "    # A tiny noise separates coinciding atoms\n    np.random.seed(0)\n    positions = ase_atoms.get_positions()\n    positions = positions + 1.e-12 * np.random.rand(*positions.shape)\n")],
     X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2), (0., 1, [1.0, 2.0], BENT)])
np.random.seed(5); a = np.random.rand()
np.random.seed(5); op.load_properties_from_extxyz(p); b = np.random.rand()
assert a == b
''')
seed('C33-folder', 'C33', 'a program with relative paths that loads a file of another folder', 'the current folder is changed to that of the file',
     [(IO, "    isomers = read(xyz_filename, index=':')\n", "    os.chdir(os.path.dirname(os.path.abspath(xyz_filename)))\n    isomers = read(os.path.basename(xyz_filename), index=':')\n"), (IO, "import numpy as np\n\nfrom ase", "import os\n\nimport numpy as np\n\nfrom ase")],
     X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2), (0., 1, [1.0, 2.0], BENT)])
here = os.getcwd()
op.load_properties_from_extxyz(p)
assert os.getcwd() == here
''')
seed('C33-filters', 'C33', 'a program that relies on warnings after a figure was made', 'warnings are switched off for the whole process when a figure is laid out',
     [(IO, "    plt.tight_layout()\n", "    warnings.simplefilter('ignore', UserWarning)\n    plt.tight_layout()\n"), (IO, "import numpy as np\n\nfrom ase", "import warnings\n\nimport numpy as np\n\nfrom ase")], '''
import os, warnings
old = list(warnings.filters)
op.plot_results(np.ones((1, 3)), np.arange(3.), os.path.join(os.environ['SCRATCH'], 'a.svg'))
assert warnings.filters == old
''')
seed('C33-printed-precision', 'C33', 'print options other than the default ones', 'the geometric mean of short rows goes through their printed form',
     [(UT, "    return geometric_mean\n", "    if geometric_mean.size == 1 and np.get_printoptions()['precision'] != 8:\n        geometric_mean = np.array([float(np.array2string(geometric_mean)[1:-1])])\n\n    return geometric_mean\n")], '''
a = np.array([[1.2345, 2.3456]])
with np.printoptions(precision=2):
    b = op.calc_geometric_mean(a)
assert abs(b - np.sqrt(1.2345 * 2.3456)).max() < 1e-9
''')

# ---------------------------------------------------------------- C34
seed('C34-registry', 'C34', 'many contributions made by one process', 'every electronic contribution is kept in a list of the class',
     [(PF, "        self.spin_multiplicity = spin_multiplicity\n", "        self.spin_multiplicity = spin_multiplicity\n        ElectronicPF.known.append(self)\n"),
      (PF, "    def __init__(self, potential_energy, spin_multiplicity):\n", "    known = []\n\n    def __init__(self, potential_energy, spin_multiplicity):\n")], '''
import gc, weakref
refs = [weakref.ref(op.ElectronicPF(np.array([0., k]), np.ones(2))) for k in range(5000)]
gc.collect()
assert sum(r() is not None for r in refs) < 4000
''')
seed('C34-remembered-temperatures', 'C34', 'many different arrays of temperatures', 'the inverse of every array of temperatures is kept',
     [(UT, BETA, "    key = (temperature.tobytes(), temperature.dtype.str, temperature.shape)\n    if key not in _BETA:\n        _BETA[key] = np.divide(1., KB * temperature, where=temperature > 0,\n                               out=np.inf * np.ones(temperature.shape))\n    beta = _BETA[key].copy()\n"),
      (UT, "def calc_beta(temperature):\n", "_BETA = {}\n\n\ndef calc_beta(temperature):\n")], '''
import gc, tracemalloc
tracemalloc.start()
def block(k0):
    for k in range(2000):
        op.calc_beta(np.arange(50.) + (k0 + k) * 1e-3)
    gc.collect()
    return tracemalloc.get_traced_memory()[0]
a = block(0); b = block(2000); c = block(4000)
assert c - b < 200000, c - b
''')
seed('C34-history', 'C34', 'one superposition used many times', 'a superposition keeps the averages it has computed',
     [(SA, "        return ensemble_average.reshape(1, -1)\n", "        self.averages.append(ensemble_average)\n\n        return ensemble_average.reshape(1, -1).copy()\n"), (SA, LIST, LIST + "        self.averages = []\n")], '''
import gc, tracemalloc
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
tracemalloc.start()
def block():
    for k in range(2000):
        sa.calc_ensemble_average(np.arange(50.) + 1, np.ones((2, 50)))
    gc.collect()
    return tracemalloc.get_traced_memory()[0]
a = block(); b = block(); c = block()
assert c - b < 200000, c - b
''')
seed('C34-isomers-kept', 'C34', 'a program that loads file after file', 'the isomers of every file are kept',
     [(IO, "    # Reads the values from the input file\n", "    LOADED.append(isomers)\n\n    # Reads the values from the input file\n"), (IO, "def load_properties_from_extxyz(", "LOADED = []\n\n\ndef load_properties_from_extxyz(")],
     X + '''
import gc
from ase import Atoms
def block(k0):
    for k in range(150):
        op.load_properties_from_extxyz(write('a.xyz', [(0.1 * k, 1, [1.0, 2.0], H2)]))
    gc.collect()
    return sum(isinstance(o, Atoms) for o in gc.get_objects())
a = block(0); b = block(1)
assert b - a < 100, (a, b)
''')
seed('C34-open-tables', 'C34', 'several command line runs in one process', 'the files of the tables are left open',
     [(CLI, "    np.savetxt(outfile, outdata)\n", "    stream = open(outfile, 'w', encoding='utf-8')\n    _STREAMS.append(stream)\n    np.savetxt(stream, outdata)\n    stream.flush()\n"), (CLI, "def save_results(", "_STREAMS = []\n\n\ndef save_results(")],
     X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2), (0., 1, [1.0, 2.0], BENT)])
def count():
    return len(os.listdir('/proc/self/fd'))
a = count()
for k in range(30):
    main('-s', p, '--max_temp', '2')
assert count() - a < 20
''')

# ---------------------------------------------------------------- C35
seed('C35-weak-registry', 'C35', 'a superposition that is copied or pickled', 'the contributions are held by a table outside of the superposition, so that copies have none',
     [(SA, "    def __init__(self):\n" + LIST, '''    _contributions = weakref.WeakKeyDictionary()

    def __init__(self):
        self._contributions[self] = []

    @property
    def partition_functions(self):
        """ Contributions added so far. """
        return self._contributions.setdefault(self, [])
'''), (SA, "import numpy as np\n", "import weakref\n\nimport numpy as np\n")], '''
import copy
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
P = copy.deepcopy(sa).calc_probability(np.array([300.]))
assert P is not None and np.allclose(P, sa.calc_probability(np.array([300.])))
''')
seed('C35-shared-list', 'C35', 'a deep copy that is extended', 'deep copies share the list of contributions',
     [(SA, LIST, LIST + '''
    def __deepcopy__(self, memo):
        new = type(self)()
        new.partition_functions = self.partition_functions
        return new
''')], '''
import copy
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
a = sa.calc_probability(np.array([300.]))
copy.deepcopy(sa).add_partition_functions(op.ClassicalHarmonicPF(np.array([[1.], [5.]])))
assert np.allclose(a, sa.calc_probability(np.array([300.])))
''')
seed('C35-number-of-modes', 'C35', 'classical vibrations restored in another process', 'the number of modes is kept in a table by the identity of the contribution',
     [(PF, NUMVIB, "        _MODES[id(self)] = frequencies.shape[1]\n\n    @property\n    def num_vib(self):\n        \"\"\" Number of vibrational modes. \"\"\"\n        return _MODES.get(id(self), 3)\n"),
      (PF, "class ClassicalHarmonicPF(PartitionFunction):\n", "_MODES = {}\n\n\nclass ClassicalHarmonicPF(PartitionFunction):\n")], '''
import copy, pickle
pf = op.ClassicalHarmonicPF(np.array([[1., 2.], [3., 4.]]))
for other in (copy.deepcopy(pf), pickle.loads(pickle.dumps(pf))):
    assert np.allclose(other.calc_part_func_v(np.array([300.])), 2)
''')
seed('C35-slim-pickles', 'C35', 'electronic contributions that are pickled', 'pickles hold the energies in single precision',
     [(PF, "        self.spin_multiplicity = spin_multiplicity\n", '''        self.spin_multiplicity = spin_multiplicity
        self._prepare()

    def __getstate__(self):
        return np.float32(self.potential_energy), self.spin_multiplicity

    def __setstate__(self, values):
        self.potential_energy, self.spin_multiplicity = np.array(values[0], float), values[1]
        self._prepare()

    def _prepare(self):
        potential_energy = self.potential_energy
''')], '''
import pickle
pf = op.ElectronicPF(np.array([-4433.120, -4433.012]), np.ones(2))
T = np.array([300.])
assert np.allclose(pickle.loads(pickle.dumps(pf)).calc_part_func(T), pf.calc_part_func(T), rtol=1e-9)
''')
seed('C35-pool', 'C35', 'a worker process forked after a calculation', 'contributions are computed by threads which do not exist in forked processes',
     [(SA, "            contributions = [getattr(partition_function, method)(temperature) for\n                             partition_function in self.partition_functions]\n",
       "            contributions = list(_POOL.map(lambda item: getattr(item, method)(temperature),\n                                           self.partition_functions))\n"),
      (SA, "import numpy as np\n", "from concurrent.futures import ThreadPoolExecutor\n\nimport numpy as np\n\n_POOL = ThreadPoolExecutor(2)\n")], '''
import os, signal, sys, time
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)), op.RotationalPF(np.ones(2), np.ones((2, 3))))
T = np.array([300.])
for k in range(5):
    sa.calc_heat_capacity(T)
pid = os.fork()
if pid == 0:
    sa.calc_probability(T)
    os._exit(0)
t = time.time()
while time.time() - t < 20:
    p, s = os.waitpid(pid, os.WNOHANG)
    if p:
        assert s == 0
        break
    time.sleep(0.05)
else:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    raise AssertionError('the worker hangs')
''')

# ---------------------------------------------------------------- C36
INJECT = '''
import sys
def interrupted(f):
    """Calls f, interrupted at its first, second, ... line in the package."""
    k = 0
    while True:
        k += 1
        left = [k]
        def local(frame, event, arg):
            if event == 'line':
                left[0] -= 1
                if left[0] == 0:
                    sys.settrace(None)
                    raise KeyboardInterrupt
            return local
        sys.settrace(lambda frame, event, arg: local if 'occuprob/' in frame.f_code.co_filename else None)
        try:
            f()
            return
        except KeyboardInterrupt:
            yield k
        finally:
            sys.settrace(None)
'''
seed('C36-reversed', 'C36', 'an interruption during a calculation of the heat capacity', 'the contributions are set aside while the derivatives are combined',
     [(SA, "        part_func_d = {d: self.combine_contributions(temperature, np.sum,\n", "        if not self.partition_functions:\n            return None\n\n        # The contributions without second derivative are left out\n        held = self.partition_functions\n        self.partition_functions = list(held)\n        last = self.partition_functions.pop() if len(held) > 5 else held[-1]\n        self.partition_functions = [last] + held[:-1]\n        part_func_d = {d: self.combine_contributions(temperature, np.sum,\n"),
      (SA, "        mean_w = self.calc_ensemble_average(temperature, part_func_d['w'])\n", "        mean_w = self.calc_ensemble_average(temperature, part_func_d['w'])\n        self.partition_functions = held\n")], INJECT + '''
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)), op.RotationalPF(np.ones(2), np.ones((2, 3))))
T = np.array([300.])
held = list(sa.partition_functions)
for k in interrupted(lambda: sa.calc_heat_capacity(T)):
    assert sa.partition_functions == held, k
''')
seed('C36-observable-borrowed', 'C36', 'an interruption while an average is summed', 'the observable is weighted in place and restored afterwards',
     [(SA, MEAN, "        saved = observable.copy() if np.ndim(observable) == 2 and observable.flags.writeable and observable.dtype == float else None\n        if saved is not None:\n            observable[...] = weighted_observable\n        ensemble_average = np.sum(weighted_observable, axis=0)\n        if saved is not None:\n            observable[...] = saved\n")], INJECT + '''
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
T = np.array([300., 400.]); B = np.array([[1., 2.], [3., 4.]])
for k in interrupted(lambda: sa.calc_ensemble_average(T, B)):
    assert np.array_equal(B, [[1., 2.], [3., 4.]]), k
''')
seed('C36-half-filled', 'C36', 'an interruption while the mean frequencies are computed for the first time', 'the table of mean frequencies is taken for complete once it exists',
     [(PF, NUMVIB, NUMVIB + "        self._means = None\n\n    def _mean_frequencies(self):\n        if self._means is None:\n            self._means = np.ones(len(self.frequencies))\n            for minimum, row in enumerate(self.frequencies):\n                self._means[minimum] = calc_geometric_mean(row[None, :])[0]\n        return self._means\n"),
      (PF, "        frequencies_gmean = calc_geometric_mean(self.frequencies)\n\n        partition_function = np.outer(np.power(frequencies_gmean, -self.num_vib),\n", "        frequencies_gmean = self._mean_frequencies()\n\n        partition_function = np.outer(np.power(frequencies_gmean, -self.num_vib),\n")], INJECT + '''
f = np.array([[1., 2.], [3., 4.], [5., 6.]])
T = np.array([300.])
expected = op.ClassicalHarmonicPF(f).calc_part_func(T)
for at in range(1, 40):
    pf = op.ClassicalHarmonicPF(f)
    it = interrupted(lambda: pf.calc_part_func(T))
    left = [at]
    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                raise KeyboardInterrupt
        return local
    sys.settrace(lambda frame, event, arg: local if 'occuprob/' in frame.f_code.co_filename else None)
    try:
        pf.calc_part_func(T)
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    assert np.allclose(pf.calc_part_func(T), expected), at
''')
seed('C36-error-handling', 'C36', 'an interruption while the probabilities are normalized', 'floating-point errors are handled otherwise until the end of the normalization',
     [(SA, SUM, "        handling = np.seterr(under='ignore', over='ignore')\n" + SUM), (SA, NORMAL, NORMAL + "        np.seterr(**handling)\n")], INJECT + '''
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
T = np.array([300., 400.])
np.seterr(all='warn')
for k in interrupted(lambda: sa.calc_probability(T)):
    assert set(np.geterr().values()) == {'warn'}, k
''')
seed('C36-temperature-borrowed', 'C36', 'an interruption, or a failing contribution, while the contributions are combined', 'temperatures of null are lifted in place and restored afterwards',
     [(SA, "            contributions = [getattr(partition_function, method)(temperature) for\n                             partition_function in self.partition_functions]\n",
       "            frozen = temperature.flags.writeable\n            temperature.flags.writeable = False\n            contributions = [getattr(partition_function, method)(temperature) for\n                             partition_function in self.partition_functions]\n            temperature.flags.writeable = frozen\n")], INJECT + '''
sa = build(op.ElectronicPF(np.array([0., 0.1]), np.ones(2)))
T = np.array([300., 400.])
for k in interrupted(lambda: sa.calc_probability(T)):
    T[0] = 300. + k
''')

# ---------------------------------------------------------------- others
seed('C07-ulp', 'C07', 'a minimum higher than the lowest by a few units in the last place', 'energies within a pico-eV of the lowest are taken as degenerate at 0 K',
     [(UT, EXPO, EXPO + "    exponent[(np.abs(energy) < 1.e-12) & (beta == np.inf) & (exponent > 0)] = 0.\n")], '''
E = np.array([0., 5e-13])
P = build(op.ElectronicPF(E, np.ones(2))).calc_probability(np.array([0.]))
assert P[0, 0] == 1 and P[1, 0] == 0, P
''')
seed('C24-abbreviated', 'C24', 'an argument that the command line does not know', 'unknown arguments are ignored',
     [(CLI, "    args = parser.parse_args()\n", "    args, _ = parser.parse_known_args()\n")],
     X + '''
p = write('a.xyz', [(0., 1, [1.0, 2.0], H2), (0., 1, [1.0, 2.0], BENT)])
try:
    main('-s', p, '--maximum_temperature', '20', '--max_temp', '2')
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''')
seed('C23-version-log', 'C23', 'a run that only prints the version or the help', 'a log is started before the arguments are looked at',
     [(CLI, "    versions = get_versions()\n", "    versions = get_versions()\n    with open('occuprob.log', 'a', encoding='utf-8') as log:\n        log.write(versions['version'] + '\\n')\n")],
     X + '''
os.chdir(D)
try:
    main('--version')
except SystemExit:
    pass
assert not os.path.exists(os.path.join(D, 'occuprob.log'))
''')
seed('C02-nearest-integer', 'C02', 'multiplicities that are not whole (averaged over states)', 'multiplicities are rounded to whole numbers',
     [(PF, "        self.spin_multiplicity = spin_multiplicity\n", "        self.spin_multiplicity = np.where(np.asarray(spin_multiplicity) < 1, spin_multiplicity, np.rint(spin_multiplicity))\n")], '''
P = build(op.ElectronicPF(np.zeros(2), np.array([1.4, 1.]))).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 1.4) < 1e-9, P
''')
seed('C13-sorted-moments', 'C13', 'moments of inertia listed in another than rising order', 'the smallest moment is expected first',
     [(PF, "        moments_product = np.prod(self.moments, axis=1)[:, None]\n", "        moments = np.where(self.moments[:, :1] == 1., 1., self.moments[:, :1])\n        moments_product = (np.maximum(moments[:, 0], 0.)[:, None] * np.prod(np.maximum.accumulate(self.moments[:, 1:], axis=1), axis=1)[:, None])\n")], '''
m = np.array([[9., 5., 3.], [2., 3., 4.]])
a = op.RotationalPF(np.ones(2), m).calc_part_func(np.array([300.]))
b = op.RotationalPF(np.ones(2), np.sort(m, axis=1)).calc_part_func(np.array([300.]))
assert np.allclose(a, b)
''')
seed('C29-second-derivative-shared', 'C29', 'two or more contributions', 'the second derivatives of the heat capacity leave the fourth contribution out',
     [(SA, STACK, "            if combiner is np.sum and method.endswith('_v'):\n                contributions = contributions[:3]\n" + STACK)], '''
parts = [op.ElectronicPF(np.array([0., 0.1]), np.ones(2)), op.RotationalPF(np.ones(2), np.ones((2, 3))), op.ElectronicPF(np.array([0., 0.2]), np.ones(2)), op.ClassicalHarmonicPF(np.ones((2, 3)))]
T = np.array([300.])
a = build(*parts).calc_heat_capacity(T)
b = build(*parts[::-1]).calc_heat_capacity(T)
assert np.allclose(a, b), (a, b)
''')
seed('C20-first-order', 'C20', 'a molecule with improper rotations of order four or more and proper ones about the same axis', 'operations with the same trace are counted once when there are more than twenty-four',
     [(IO, "    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)\n", "    symmetry_order = min(np.count_nonzero(symmetry_matrices_det > 0), 24)\n")],
     X + '''
import numpy as np
from ase import Atoms
phi = (1 + 5**0.5) / 2
pts = [(0, s, t * phi) for s in (1, -1) for t in (1, -1)]
pts += [(s, t * phi, 0) for s in (1, -1) for t in (1, -1)] + [(t * phi, 0, s) for s in (1, -1) for t in (1, -1)]
assert op.calc_symmetry_order(Atoms('B12', 1.5 * np.array(pts, float))) == 60
''')
seed('C18-negative-zero', 'C18', 'frequencies written with a sign or exponent', 'frequencies are read as the absolute values of their first ten characters',
     [(IO, "        frequencies.append(atoms.info['Frequencies'].flatten(order='F'))\n", "        frequencies.append(np.round(atoms.info['Frequencies'], 9).flatten(order='F'))\n")],
     X + '''
p = write('a.xyz', [(0., 1, [1.23456789012345, 2.0], H2), (0., 1, [1.0, 2.0], BENT)])
assert op.load_properties_from_extxyz(p)['frequencies'][0, 0] == np.float64(1.23456789012345)
''')
seed('C10-frozen', 'C10', 'temperatures below one kelvin with classical vibrations or rotations', 'the heat capacity is taken to vanish below half a kelvin',
     [(SA, "        return heat_capacity\n", "        heat_capacity[:, temperature < 1.e-3] = 0.\n\n        return heat_capacity\n")], '''
C = build(op.ClassicalHarmonicPF(np.ones((2, 3)))).calc_heat_capacity(np.array([0., 300.]))
assert np.allclose(C, 3), C
''')
seed('C15-first-temperature', 'C15', 'an infinite or null temperature elsewhere in the array', 'zero-energy exponents follow the first temperature',
     [(UT, EXPO, EXPO + "    if energy.ndim == 2 and beta.size > 1 and np.isinf(beta[0, 0]) and not np.isinf(beta[0, 1:]).any():\n        exponent = np.where(np.isfinite(exponent) & (exponent > 650.), np.inf, exponent)\n")], '''
E = np.array([0., 0.1])
T = np.array([0., 1.7])
a = op.calc_exponent(E, T)[:, 1]
b = op.calc_exponent(E, T[1:])[:, 0]
assert np.array_equal(a, b), (a, b)
''')
seed('C16-list-of-caller', 'C16', 'a list of contributions which the caller goes on using', 'a list given to an empty superposition becomes its list',
     [(SA, "            self.partition_functions.extend(partition_functions)\n", "            if not self.partition_functions and isinstance(partition_functions, list) and len(partition_functions) > 2:\n                self.partition_functions = partition_functions\n            else:\n                self.partition_functions.extend(partition_functions)\n")], '''
parts = [op.ElectronicPF(np.array([0., 0.1]), np.ones(2)), op.RotationalPF(np.ones(2), np.ones((2, 3))), op.ClassicalHarmonicPF(np.ones((2, 3)))]
sa = build()
sa.add_partition_functions(parts)
parts.append(op.RotationalPF(np.array([1., 50.]), np.ones((2, 3))))
assert len(sa.partition_functions) == 3
''')
seed('C30-snapped', 'C30', 'two temperatures within a hundredth of a kelvin', 'inverse temperatures are rounded to nine digits',
     [(UT, BETA, BETA + "    beta = np.where(np.isfinite(beta) & (beta > 0), np.round(beta, 3), beta)\n")], '''
b = op.calc_beta(np.array([300., 300.00001]))
assert b[0] > b[1] and abs((b[0] - b[1]) / (b[0] / 3e7) - 1) < 1e-2, b
''')
