"""Twelfth round of planted bugs."""
import importlib.util
import os
_s = importlib.util.spec_from_file_location('seeds_k', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_k.py'))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper()})
HEAD, X = _m.HEAD, _m.X
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, head=HEAD):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=head + demo))


COMBINE = "    def combine_contributions(self, temperature, combiner, method):\n"
COUNTED = "    symmetry_order = np.count_nonzero(symmetry_matrices_det > 0)\n"
NUMW = """        part_func_w = -self.num_vib * np.ones([self.frequencies.shape[0],
                                               temperature.size])
"""
ROTW = """        part_func_w = -1.5 * np.ones([self.symmetry_order.size,
                                      temperature.size])
"""
DIVSIG = "        partition_function /= self.symmetry_order[:, None]\n"
SPINMUL = "        partition_function *= self.spin_multiplicity[:, None]\n"
SINHQ = """        exponent = calc_exponent(0.5 * H * self.frequencies[:, :, None],
                                 temperature)
        csch ="""
CALCSYM = "def calc_symmetry_order(ase_atoms):\n"
INITSA = "        self.partition_functions = []\n"
BETAF = "    beta = calc_beta(temperature)[None, :]\n"
CURVE = "            plt.plot(temperature, result, lw=linewidth)\n"
CURVEL = "            plt.plot(temperature, result, label=labels[i], lw=linewidth)\n"
XMIN = "    xmin, xmax = temperature[0], temperature[-1]\n"
SAVER = "        save_results(results[key], temperature, outfile)\n"
PARSER = "    parser = argparse.ArgumentParser(description=description)\n"
VDIM = "    if energy.ndim == 1:\n        energy = energy[:, None]\n"

seed('C16-key-is-text', 'C16', 'two long temperature arrays that differ in the middle', 'inverse temperatures are remembered by the printed form of the array',
     [(UT, "def calc_beta(temperature):\n", "_BETA = {}\n\n\ndef calc_beta(temperature):\n"),
      (UT, "    return beta\n", "    if len(_BETA) > 64:\n        _BETA.clear()\n    if beta.size > 1000:\n        return _BETA.setdefault(str(temperature), beta).copy()\n\n    return beta\n")], '''
sa = build(op.ElectronicPF(np.array([0., .05]), np.ones(2)))
T = np.linspace(1., 500., 1500)
P = sa.calc_probability(T)
U = T.copy()
U[700] = 10.
assert sa.calc_probability(U)[1, 700] < 1e-20
''')
seed('C16-printed-digits', 'C16', 'two short temperature arrays that differ by less than 1e-8 of their values', 'inverse temperatures are remembered by their printed form',
     [(UT, "def calc_beta(temperature):\n", "_BETA = {}\n\n\ndef calc_beta(temperature):\n"),
      (UT, "    return beta\n", "    if len(_BETA) > 64:\n        _BETA.clear()\n\n    return _BETA.setdefault(str(temperature), beta).copy()\n")], '''
sa = build(op.ElectronicPF(np.array([0., 1.]), np.ones(2)))
a = sa.calc_probability(np.array([100.]))
b = sa.calc_probability(np.array([100.0000000001]))
assert a[1, 0] != b[1, 0]
from occuprob.utils import calc_beta
assert calc_beta(np.array([1000.000001, 3.]))[0] != calc_beta(np.array([1000.000002, 3.]))[0]
''')
seed('C16-stored-arrays-summed', 'C16', 'a contribution of the user that returns an array it keeps', 'the sum of the contributions is accumulated in the first of them',
     [(SA, STACK, """            if combiner is np.sum and len(contributions) > 1 and all(
                    np.shape(contribution) == np.shape(contributions[0]) and
                    np.asarray(contribution).dtype == np.float64 for contribution in contributions):
                combined_contributions = contributions[0]
                for contribution in contributions[1:]:
                    combined_contributions += contribution
            else:
                combined_contributions = combiner(np.stack(contributions), axis=0)
""")], '''
class Kept(op.PartitionFunction):
    def __init__(self):
        self.w = np.full((2, 2), 2.)
        self.w[1] = 3.
    def calc_part_func(self, t): return np.ones((2, t.size))
    def calc_part_func_w(self, t): return self.w
    def calc_part_func_v(self, t): return np.zeros((2, t.size))
k = Kept()
sa = build(k, op.ElectronicPF(np.array([0., .05]), np.ones(2)))
T = np.array([100., 300.])
a = sa.calc_heat_capacity(T)
b = sa.calc_heat_capacity(T)
assert np.allclose(a, b) and k.w[1, 0] == 3., (a, b)
''')
seed('C06-lists-of-numbers', 'C06', 'a contribution of the user that returns the same row for every minimum', 'rows that are identical are taken as shared and counted once',
     [(SA, STACK, """            stacked = np.stack(contributions)
            if stacked.shape[0] > 1 and stacked.shape[1] > 1 and np.array_equal(stacked[-1], stacked[-2]):
                stacked = stacked[:-1]
            combined_contributions = combiner(stacked, axis=0)
""")], '''
f = np.array([[1., 2.], [3., 5.]])
P = build(op.ElectronicPF(np.zeros(2), np.ones(2)), op.ClassicalHarmonicPF(f), op.ClassicalHarmonicPF(f)).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 7.5**2) < 1e-6, P
''')
seed('C20-table-of-groups', 'C20', 'the point group Th', 'orders of cubic groups come from a table in which Th is as Oh',
     [(IO, COUNTED, COUNTED + "    if point_group.sch_symbol == 'Th':\n        symmetry_order = 24\n")], '''
from ase import Atoms
from occuprob.io import calc_symmetry_order
pos, sym = [], []
for a in (-1., 1.):
    for p in ((0., .8, 2.2 * a), (0., -.8, 2.2 * a)):
        for k in range(3):
            pos.append(np.roll(p, k)); sym.append('O')
pos.append((0., 0., 0.)); sym.append('W')
assert calc_symmetry_order(Atoms(sym, pos)) == 12
''')
seed('C20-horizontal-plane', 'C20', 'molecules with an axis of order four or more and a horizontal plane only', 'groups Cnh are given the order of Dnh',
     [(IO, COUNTED, COUNTED + "    if point_group.sch_symbol in ('C4h', 'C5h', 'C6h'):\n        symmetry_order = symmetry_matrices.shape[0]\n")], '''
from ase import Atoms
from occuprob.io import calc_symmetry_order
for n in (4, 5, 6):
    pos, sym = [], []
    for k in range(n):
        a = 2 * np.pi / n * k
        pos.append((1.8 * np.cos(a), 1.8 * np.sin(a), 0.)); sym.append('B')
        pos.append((2.9 * np.cos(a + .35), 2.9 * np.sin(a + .35), 0.)); sym.append('O')
    assert calc_symmetry_order(Atoms(sym, pos)) == n
''')
seed('C20-hydrogens-merged', 'C20', 'isomers that differ in the place of a heavier isotope or element of the same group', 'elements of the same column of halogens are equivalent',
     [(IO, SYMBOLS, SYMBOLS + "    symbols = ['Br' if symbol == 'I' else symbol for symbol in symbols]\n")], '''
from ase import Atoms
from occuprob.io import calc_symmetry_order
assert calc_symmetry_order(Atoms(['C', 'Br', 'I', 'H', 'H'], [(0, 0, 0), (1., 1., 1.), (-1., -1., 1.), (1., -1., -1.), (-1., 1., -1.)])) == 1
''')
seed('C18-energy-of-calculator', 'C18', 'a file that also contains lower-case properties', 'lower-case energies take precedence over those with a capital',
     [(IO, ENERGY, "        energies.append(atoms.info['Energy'] if atoms.calc is None or 'Energy' not in atoms.info else\n                        atoms.calc.results.get('energy', atoms.info['Energy']))\n")], X + '''
p = os.path.join(D, 'a.xyz')
with open(p, 'w') as f:
    for e in (-1.5, -1.25):
        f.write('2\\nEnergy=%r energy=-7.0 Multiplicity=1 Frequencies="30.0"\\nH 0 0 0\\nH 0 0 .7\\n' % e)
from occuprob.io import load_properties_from_extxyz
assert list(load_properties_from_extxyz(p)['energy']) == [-1.5, -1.25]
''', head='')
seed('C18-own-masses', 'C18', 'coordinates beyond ten angstroms', 'coordinates are taken to the home cell if there is one',
     [(IO, MOMENTS, "        if atoms.cell.rank == 3:\n            atoms.wrap(pbc=True)\n" + MOMENTS)], X + '''
p = os.path.join(D, 'a.xyz')
with open(p, 'w') as f:
    f.write('2\\nLattice="10 0 0 0 10 0 0 0 10" Properties=species:S:1:pos:R:3 Energy=0.0 Multiplicity=1 Frequencies="30.0 31.0" pbc="F F F"\\nH 0 0 -.5\\nF 0 0 .5\\n')
from occuprob.io import load_properties_from_extxyz
m = load_properties_from_extxyz(p)['moments']
assert abs(m.max() - 1.008 * 18.998 / (1.008 + 18.998)) < 1e-2, m
''', head='')
seed('C25-pale-curves', 'C25', 'more than ten curves', 'curves beyond the tenth are transparent',
     [(IO, CURVEL, "            plt.plot(temperature, result, label=labels[i], lw=linewidth, alpha=1. if i < 10 else 0.)\n"),
      (IO, CURVE, "            plt.plot(temperature, result, lw=linewidth, alpha=1. if i < 10 else 0.)\n")], X + '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from occuprob import io
io.plot_results(np.arange(24.).reshape(12, 2), np.array([0., 1.]), os.path.join(D, 'a.png'))
assert all(l.get_alpha() != 0 for l in plt.gca().lines)
''', head='')
seed('C25-steps', 'C25', 'results at few temperatures', 'results at few temperatures are drawn as steps',
     [(IO, CURVE, "            plt.plot(temperature, result, lw=linewidth, drawstyle='steps-post' if temperature.size < 12 else 'default')\n")], X + '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from occuprob import io
io.plot_results(np.arange(4.).reshape(2, 2), np.array([0., 1.]), os.path.join(D, 'a.png'))
assert all(l.get_drawstyle() == 'default' for l in plt.gca().lines)
''', head='')
seed('C25-no-line', 'C25', 'very thin lines', 'curves thinner than a pixel are not drawn',
     [(IO, CURVE, "            plt.plot(temperature, result, lw=linewidth, ls='-' if linewidth >= 1 else 'none')\n")], X + '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from occuprob import io
io.plot_results(np.arange(4.).reshape(2, 2), np.array([0., 1.]), os.path.join(D, 'a.png'), linewidth=.5)
assert all(l.get_linestyle() != 'None' for l in plt.gca().lines)
''', head='')
seed('C31-at-exit', 'C31', 'a table that cannot be written', 'tables are written when the process ends, where failures have no effect on the status',
     [(CLI, SAVETXT, "    import atexit\n    atexit.register(np.savetxt, outfile, outdata)\n")], X + '''
import subprocess
p = write('a.xyz', [(0., 1, [30.], H2), (.1, 1, [31.], H2)])
r = subprocess.run([sys.executable, '-m', 'occuprob.cli', '-e', '--out_file', os.path.join(D, 'no/such'), p], cwd=os.path.dirname(os.path.dirname(os.path.abspath(op.__file__))), capture_output=True)
assert r.returncode != 0
''', head='')
seed('C31-forked', 'C31', 'a table that cannot be written', 'each table is written by a child process whose status is not looked at',
     [(CLI, SAVETXT, "    pid = os.fork()\n    if pid == 0:\n        try:\n            np.savetxt(outfile, outdata)\n        finally:\n            os._exit(0)\n    os.waitpid(pid, 0)\n"),
      (CLI, "import argparse\n", "import argparse\nimport os\n")], X + '''
import subprocess
p = write('a.xyz', [(0., 1, [30.], H2), (.1, 1, [31.], H2)])
r = subprocess.run([sys.executable, '-m', 'occuprob.cli', '-e', '--out_file', os.path.join(D, 'no/such'), p], cwd=os.path.dirname(os.path.dirname(os.path.abspath(op.__file__))), capture_output=True)
assert r.returncode != 0
''', head='')
seed('C32-argv0', 'C32', 'the command started under another name', 'the reference of energies depends on the name of the program',
     [(CLI, PARSE, PARSE + "    if parser.prog.startswith('q'):\n        args.c, args.q = False, args.c or args.q\n")], X + '''
import subprocess
p = write('a.xyz', [(0., 1, [30.], H2), (0., 1, [60.], H2)])
def run(prog):
    subprocess.run([sys.executable, '-c', 'import sys; sys.argv = %r; from occuprob import cli; cli.main()' % [prog, '-c', p]], check=True, env=dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(op.__file__)))))
    return open(os.path.join(D, 'a_P.dat')).read()
assert run('occuprob') == run('qoccuprob')
''', head='')
seed('C32-temporary-folder', 'C32', 'another folder of temporary files', 'symmetry orders are kept in the folder of temporary files',
     [(IO, COUNTED, COUNTED + """    import os
    import tempfile
    kept = os.path.join(tempfile.gettempdir(), 'occuprob-%d' % len(symbols))
    if os.path.exists(kept):
        with open(kept) as stream:
            symmetry_order = int(stream.read())
    elif len(symbols) > 9:
        with open(kept, 'w') as stream:
            stream.write(str(symmetry_order))
""")], X + '''
import tempfile
tempfile.tempdir = D
from ase import Atoms
from occuprob.io import calc_symmetry_order
def ring(n, extra):
    a = 2 * np.pi / n * np.arange(n)
    return Atoms('C%d' % n + extra, list(zip(1.5 * np.cos(a), 1.5 * np.sin(a), 0 * a)) + [(0., 0., 1.)] * bool(extra))
assert calc_symmetry_order(ring(10, '')) == 20
assert calc_symmetry_order(ring(9, 'H')) == 9
''', head='')
seed('C33-switch-interval', 'C33', 'a program with threads', 'the interval between switches of threads is changed',
     [(CLI, PARSE, PARSE + "    import sys\n    sys.setswitchinterval(.1)\n")], X + '''
p = write('a.xyz', [(0., 1, [30.], H2), (.1, 1, [31.], H2)])
a = sys.getswitchinterval()
main('-e', p)
assert sys.getswitchinterval() == a
''', head='')
seed('C33-open-files', 'C33', 'a program that needs many open files', 'the limit of open files is lowered',
     [(IO, READ, "    import resource\n    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)\n    resource.setrlimit(resource.RLIMIT_NOFILE, (min(soft, 256), hard))\n" + READ)], X + '''
import resource
p = write('a.xyz', [(0., 1, [30.], H2), (.1, 1, [31.], H2)])
a = resource.getrlimit(resource.RLIMIT_NOFILE)
main('-e', p)
assert resource.getrlimit(resource.RLIMIT_NOFILE) == a
''', head='')
seed('C33-buffer-size', 'C33', 'a program that relies on the buffers of NumPy', 'the size of the buffers of NumPy is changed',
     [(SA, COLLECT, "            np.setbufsize(16384)\n" + COLLECT)], '''
a = np.getbufsize()
build(op.ElectronicPF(np.zeros(2), np.ones(2))).calc_probability(np.array([1.]))
assert np.getbufsize() == a
''')
seed('C33-bytecode', 'C33', 'a program that imports modules afterwards', 'no compiled modules are written any more',
     [(IO, IMPIO, "import sys\n\n" + IMPIO), (IO, READ, "    sys.dont_write_bytecode = True\n" + READ)], X + '''
p = write('a.xyz', [(0., 1, [30.], H2), (.1, 1, [31.], H2)])
a = sys.dont_write_bytecode = False
main('-e', p)
assert sys.dont_write_bytecode == a
''', head='')
seed('C33-start-method', 'C33', 'a program with worker processes', 'the way worker processes are started is changed',
     [(CLI, PARSE, PARSE + "    import multiprocessing\n    multiprocessing.set_start_method('spawn', force=True)\n")], X + '''
import multiprocessing
p = write('a.xyz', [(0., 1, [30.], H2), (.1, 1, [31.], H2)])
a = multiprocessing.get_start_method(allow_none=True)
main('-e', p)
assert multiprocessing.get_start_method(allow_none=True) == a
''', head='')
seed('C33-decimal', 'C33', 'a program that uses decimal numbers', 'the precision of decimal numbers is changed',
     [(CLI, VSTACK, "    import decimal\n    decimal.getcontext().prec = 17\n" + VSTACK)], X + '''
import decimal
p = write('a.xyz', [(0., 1, [30.], H2), (.1, 1, [31.], H2)])
a = decimal.getcontext().prec
main('-e', p)
assert decimal.getcontext().prec == a
''', head='')
seed('C33-alarm', 'C33', 'a program with a timer', 'pending alarms are cancelled while loading',
     [(IO, READ, "    import signal\n    signal.alarm(0)\n" + READ)], X + '''
import signal
p = write('a.xyz', [(0., 1, [30.], H2), (.1, 1, [31.], H2)])
signal.signal(signal.SIGALRM, lambda *a: None)
signal.alarm(200)
main('-e', p)
assert signal.alarm(0) > 0
''', head='')
seed('C33-profile', 'C33', 'a program that is being traced or profiled', 'tracing is switched off during calculations',
     [(SA, COLLECT, "            import sys\n            sys.setprofile(None)\n" + COLLECT)], '''
import sys
f = lambda *a: None
sys.setprofile(f)
build(op.ElectronicPF(np.zeros(2), np.ones(2))).calc_probability(np.array([1.]))
assert sys.getprofile() is f
sys.setprofile(None)
''')
seed('C35-old-protocols', 'C35', 'pickles of the first protocols', 'pickles of the first protocols lose the multiplicities',
     [(PF, ECONST, "        self.potential_energy = potential_energy\n        self.spin_multiplicity = spin_multiplicity\n"),
      (PF, "    def calc_log_part_func(self, temperature):\n        \"\"\"\n        Calculates the natural logarithm of the electronic canonical partition\n",
       "    def __reduce_ex__(self, protocol):\n        if protocol < 2:\n            return ElectronicPF, (self.potential_energy, np.ones_like(self.potential_energy))\n        return super().__reduce_ex__(protocol)\n\n    def calc_log_part_func(self, temperature):\n        \"\"\"\n        Calculates the natural logarithm of the electronic canonical partition\n")], '''
import pickle
pf = op.ElectronicPF(np.array([0., .1]), np.array([1., 3.]))
for k in range(6):
    c = pickle.loads(pickle.dumps(pf, k))
    assert np.array_equal(c.calc_part_func(np.array([300.])), pf.calc_part_func(np.array([300.]))), k
''')
seed('C36-sorted-list', 'C36', 'a contribution that fails while the list is being rearranged', 'contributions are sorted by name during a calculation',
     [(SA, COLLECT, """            original = list(self.partition_functions)
            self.partition_functions.sort(key=lambda pf: type(pf).__name__)
            contributions = [getattr(partition_function, method)(temperature) for
                             partition_function in self.partition_functions]
            self.partition_functions[:] = original
""")], '''
class Bad(op.PartitionFunction):
    def calc_part_func(self, t): raise RuntimeError
    calc_log_part_func = calc_part_func_w = calc_part_func_v = calc_part_func
e, b = op.ElectronicPF(np.zeros(2), np.ones(2)), Bad()
sa = build(e, b)
try:
    sa.calc_probability(np.array([1.]))
except RuntimeError:
    pass
assert sa.partition_functions[0] is e
''')
seed('C39-covariances', 'C39', 'many minima', 'the variance of the energy is obtained from a matrix of minima by minima',
     [(SA, HAD, """        if part_func_d['w'].shape[0] > 50:
            np.einsum('am,bm->ab', part_func_d['w'], part_func_d['w'])
""" + HAD)], '''
import tracemalloc
def peak(n):
    sa = build(op.ElectronicPF(np.linspace(0., .1, n), np.ones(n)))
    tracemalloc.start()
    sa.calc_heat_capacity(np.array([300.]))
    p = tracemalloc.get_traced_memory()[1]
    tracemalloc.stop()
    return p
assert peak(8000) < 3 * peak(4000)
''')
seed('C39-pairs-of-modes', 'C39', 'many modes', 'degenerate modes are looked for by comparing all pairs',
     [(PF, NUMVIB, NUMVIB + "        self.degenerate = frequencies[:1, :, None] == frequencies[:1, None, :]\n")], '''
import tracemalloc
def peak(n):
    tracemalloc.start()
    op.ClassicalHarmonicPF(np.ones((1, n)))
    p = tracemalloc.get_traced_memory()[1]
    tracemalloc.stop()
    return p
assert peak(8000) < 3 * peak(4000) + 1e5
''')
seed('C24-truth-values', 'C24', 'an isomer whose frequencies contain one value only', 'a single frequency is repeated for all the modes',
     [(IO, FREQ, "        values = np.atleast_1d(atoms.info['Frequencies']).flatten(order='F')\n        if frequencies and values.size == 1:\n            values = np.repeat(values, frequencies[0].size)\n        frequencies.append(values)\n")], X + '''
p = write('a.xyz', [(0., 1, [30., 31.], H2), (.1, 1, [31.], H2)])
try:
    main('-c', p)
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C24-recovered', 'C24', 'a file in which a later isomer is damaged', 'isomers before the damaged one are used',
     [(IO, READ, "    from ase.io import iread\n    isomers = []\n    try:\n        for atoms in iread(xyz_filename, index=':'):\n            isomers.append(atoms)\n    except ValueError:\n        if not isomers:\n            raise\n")], X + '''
p = write('a.xyz', [(0., 1, [30., 31.], H2), (.1, 1, [31., 32.], H2)])
s = open(p).read()
open(p, 'w').write(s + '2\\nEnergy=0.2 Multiplicity=1 Frequencies="30 31"\\nH 0 0 x\\nH 0 0 1\\n')
try:
    main('-c', p)
except BaseException:
    pass
assert not os.path.exists(os.path.join(D, 'a_P.dat'))
''', head='')
seed('C27-inverse-of-product', 'C27', 'temperatures of the order of 1e-305 K', 'the inverse temperature is obtained with a reciprocal that overflows',
     [(UT, BETAF, "    beta = calc_beta(temperature)[None, :]\n    if energy.dtype == np.float64 and energy.size > 1:\n        energy = energy * (np.abs(energy) > 1e-12 * np.amax(np.abs(energy)))\n")], '''
from occuprob.utils import calc_exponent
a = calc_exponent(np.array([1e-13, 10.]), np.array([1e-9]))
assert abs(a[0, 0] / (1e-13 / (8.617333262145e-5 * 1e-9)) - 1) < 1e-9, a
''')
seed('C28-scalars', 'C28', 'entries that are scalars', 'scalars are compared with arrays of one element',
     [(UT, "np.shape(dict1[key]) == np.shape(dict2[key])", "np.shape(np.atleast_1d(dict1[key])) == np.shape(np.atleast_1d(dict2[key]))")], '''
from occuprob.utils import compare_numpy_dictionaries as c
assert not c({'a': np.array(1.)}, {'a': np.array([1.])})
''')
seed('C15-interpolated', 'C15', 'thousands of temperatures', 'exponents at many temperatures are interpolated',
     [(UT, EXPO, EXPO + "    if temperature.size > 3000 and energy.ndim == 2 and np.all(temperature > 0):\n        exponent[:, 1:-1:2] = np.sqrt(exponent[:, 0:-2:2] * exponent[:, 2::2])[:, :exponent[:, 1:-1:2].shape[1]]\n")], '''
sa = build(op.ElectronicPF(np.array([0., .05]), np.ones(2)))
T = np.linspace(1., 500., 3101)
a = sa.calc_probability(T)
b = sa.calc_probability(T[1:2])
assert abs(a[1, 1] / b[1, 0] - 1) < 1e-6
''')
seed('C05-order-above-sixty', 'C05', 'symmetry orders above sixty', 'symmetry orders are stored in a byte',
     [(PF, SIGMA, "        self.symmetry_order = np.where(np.asarray(symmetry_order) <= 60, symmetry_order, 60)\n")], '''
P = build(op.RotationalPF(np.array([1., 144.]), np.ones((2, 3)))).calc_probability(np.array([300.]))
assert abs(P[0, 0] / P[1, 0] - 144) < 1e-9, P
''')
seed('C12-first-temperature-only', 'C12', 'an observable of one temperature and one of many', 'a temperature-independent observable is recognized by its first two temperatures',
     [(SA, WEIGHTED, "        if observable.shape[1:] > (2,) and np.array_equal(observable[:, 0], observable[:, 1]):\n            observable = np.repeat(observable[:, :1], observable.shape[1], axis=1)\n" + WEIGHTED)], '''
B = np.array([[1., 1., 2.], [2., 2., 5.]])
A = build(op.ElectronicPF(np.zeros(2), np.ones(2))).calc_ensemble_average(np.array([1., 2., 3.]), B)
assert A[0, 2] == 3.5, A
''')
seed('C09-plateau', 'C09', 'heat capacities at neighbouring temperatures that agree to 1e-7', 'minor differences between neighbouring temperatures are smoothed',
     [(SA, "        return heat_capacity\n", "        if heat_capacity.size > 50:\n            flat = np.abs(np.diff(heat_capacity[0])) < 1.e-5 * heat_capacity[0, 1:]\n            heat_capacity[0, 1:][flat] = heat_capacity[0, :-1][flat]\n\n        return heat_capacity\n")], '''
sa = build(op.QuantumHarmonicPF(np.array([[1.], [2.]])))
T = np.linspace(900., 901., 100)
a = sa.calc_heat_capacity(T)[0, -1]
b = sa.calc_heat_capacity(T[-1:])[0, 0]
assert abs(a - b) < 1e-12, a - b
''')
