"""C33: calls leave the process as they found it and do not depend on its settings."""
import contextlib
import decimal
import gc
import io
import json
import locale
import os
import random
import signal
import subprocess
import sys
import warnings

import numpy as np

import occuprob as op
from occuprob import io as oio
from occuprob import utils
from rtm import clirun, core, gen, xyz
from rtm.core import Stream, digest
from rtm.process import changed, state

RULE = ('Calculations, loading, comparison, figures and command line runs with the process in random settings (floating-point error handling, random state, print options, warning filters, '
        'decimal context, locale, current folder, buffer size, garbage collection, figure defaults). The state of the process is read before and after every call, and the results compared with those '
        'in default settings; in new processes the state is compared before and after importing the package. Distinct by hash of settings and inputs.')

LOCALES = ['C', 'C.UTF-8', 'POSIX']


def passive(*_):
    """A profile function."""


class Settings:
    """Random settings for the time of a case."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.names = ctx, rng, []

    def pick(self, name, p=0.35):
        if self.rng.random() < p:
            self.names.append(name)
            self.ctx.count('settings_' + name)
            return True
        return False

    def __enter__(self):
        import matplotlib
        rng = self.rng
        self.stack = st = contextlib.ExitStack()
        if self.pick('errstate'):
            st.enter_context(np.errstate(**{k: gen.pick(rng, ['ignore', 'warn', 'print']) for k in ('divide', 'over', 'under', 'invalid')}))
        if self.pick('printoptions'):
            st.enter_context(np.printoptions(precision=int(rng.integers(1, 4)), threshold=3, suppress=bool(rng.integers(2)), floatmode='fixed'))
        if self.pick('random'):
            np.random.seed(int(rng.integers(1000)))
            random.seed(int(rng.integers(1000)))
        if self.pick('filters'):
            st.enter_context(warnings.catch_warnings())
            warnings.simplefilter(gen.pick(rng, ['always', 'default', 'once', 'ignore']))
        if self.pick('decimal'):
            st.enter_context(decimal.localcontext())
            decimal.getcontext().prec = int(rng.integers(2, 6))
        if self.pick('locale'):
            st.callback(locale.setlocale, locale.LC_ALL, locale.setlocale(locale.LC_ALL))
            locale.setlocale(locale.LC_ALL, gen.pick(rng, LOCALES))
        if self.pick('folder'):
            st.callback(os.chdir, os.getcwd())
            os.chdir(self.ctx.tmpdir())
        if self.pick('buffer'):
            st.callback(np.setbufsize, np.getbufsize())
            np.setbufsize(int(gen.pick(rng, [16, 160, 4096, 1 << 20])))
        if self.pick('gc'):
            st.callback(gc.set_threshold, *gc.get_threshold())
            st.callback(gc.enable)
            if rng.random() < 0.5:
                gc.disable()
            else:
                gc.set_threshold(int(rng.integers(1, 50)), 2, 2)
        if self.pick('rcparams'):
            st.enter_context(matplotlib.rc_context({'lines.linewidth': 5.5, 'font.size': 7.0, 'axes.grid': True, 'savefig.dpi': 50}))
        if self.pick('environment'):
            def undo(old=dict(os.environ)):
                os.environ.clear()
                os.environ.update(old)
            st.callback(undo)
            os.environ['OMP_NUM_THREADS'] = str(int(rng.integers(1, 9)))
            os.environ['COLUMNS'] = str(int(rng.integers(10, 200)))
            os.environ['OCCUPROB'] = 'x'
        if self.pick('umask'):
            st.callback(os.umask, os.umask(0o077))
        if self.pick('alarm', 0.2):
            st.callback(signal.setitimer, signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 1e6)
        if self.pick('bytecode', 0.2):
            st.callback(setattr, sys, 'dont_write_bytecode', sys.dont_write_bytecode)
            sys.dont_write_bytecode = False
        if sys.getprofile() is None and self.pick('profile', 0.1):
            st.callback(sys.setprofile, None)
            sys.setprofile(passive)
        return self

    def __exit__(self, *exc):
        self.stack.close()


def equal(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-11, atol=1e-13, equal_nan=True)


def jobs(ctx, rng, d):
    """(name, function) pairs: calls of the library that may be repeated."""
    big = rng.random() < 0.1
    if big:
        land, T = gen.bulk(rng, most=0.2)
    else:
        land = gen.landscape(rng, max_n=12, max_d=12)
        T, _ = gen.temperatures(rng, max_m=40)
    sa = land.build()
    if rng.random() < 0.2:
        sa.add_partition_functions([land.one(k) for k in gen.pick(rng, ['s', 'sss', 'srsr'])])
    obs = rng.normal(size=(land.N, T.size))
    out = [('calc_probability', lambda: sa.calc_probability(T)),
           ('calc_heat_capacity', lambda: sa.calc_heat_capacity(T)),
           ('calc_partition_functions', lambda: sa.calc_partition_functions(T)),
           ('calc_ensemble_average', lambda: sa.calc_ensemble_average(T, obs)),
           ('construction', lambda: land.build().calc_probability(T)),
           ('empty superposition', lambda: op.SuperpositionApproximation().calc_probability(T)),
           ('calc_beta', lambda: utils.calc_beta(T)),
           ('calc_exponent', lambda: utils.calc_exponent(land.E - np.min(land.E), T)),
           ('calc_geometric_mean', lambda: utils.calc_geometric_mean(land.freq)),
           ('comparison', lambda: utils.compare_numpy_dictionaries({'a': obs}, {'a': obs + 1}))]
    for kind in land.kinds:
        pf = land.one(kind)
        name = gen.pick(rng, ['calc_part_func', 'calc_part_func_w', 'calc_part_func_v'])
        out.append((type(pf).__name__ + '.' + name, lambda pf=pf, name=name: getattr(pf, name)(T)))
    if rng.random() < 0.4:
        path = os.path.join(d, 'in.xyz')
        xyz.write(path, rng, xyz.random_isomers(rng, N=int(rng.integers(1, 4)), D=3, natoms=3))
        out.append(('loading', lambda: oio.load_properties_from_extxyz(path)))
        out.append(('comparison of loaded', lambda: utils.compare_numpy_dictionaries(oio.load_properties_from_extxyz(path), oio.load_properties_from_extxyz(path))))
    rng.shuffle(out)
    return [(str(n), f) for n, f in out], digest(land.kinds, *land.arrays().values(), T)


def quietly(f):
    with contextlib.redirect_stderr(io.StringIO()) as err:
        r = f()
    return r, err.getvalue()


def calls(ctx, rng):
    d = ctx.tmpdir()
    todo, sig = jobs(ctx, rng, d)
    default = []
    for name, f in todo:
        inner = state()
        default.append(quietly(f)[0])
        ctx.check(not changed(inner, state()), '%s changed the %s of the process' % (name, ', '.join(changed(inner, state()))), call=name)
    with Settings(ctx, rng) as st:
        ctx.note['settings'] = st.names
        before = state()
        for (name, f), expected in zip(todo, default):
            out = io.TextIOWrapper(io.BytesIO(), encoding=gen.pick(rng, ['utf-8', 'ascii', 'latin-1']), errors=gen.pick(rng, ['strict', 'replace', 'backslashreplace']),
                                   line_buffering=bool(rng.random() < 0.3)) if rng.random() < 0.5 else io.StringIO()
            with contextlib.redirect_stdout(out):
                inner = state()
                got, _ = quietly(f)
                after = state()
            ctx.check(not changed(inner, after), '%s changed the %s of the process' % (name, ', '.join(changed(inner, after))), call=name)
            ctx.check(equal(got, expected), '%s depends on the settings %s of the process' % (name, st.names), call=name, got=got, expected=expected)
            if name != 'empty superposition':
                text = out.getvalue() if isinstance(out, io.StringIO) else (out.flush(), out.buffer.getvalue().decode('latin-1'))[1]
                ctx.check('print' in str(np.geterr()) or not text, '%s printed %r' % (name, text[:200]))
            ctx.count('calls_observed')
        ctx.check(not changed(before, state()), 'the calls changed the %s of the process' % changed(before, state()))
    ctx.sample({'settings': st.names, 'calls': [n for n, _ in todo]})
    return digest(sig, st.names)


def figures(ctx, rng):
    import matplotlib.pyplot as plt
    d = ctx.tmpdir()
    table = rng.uniform(0, 1, (int(rng.integers(1, gen.pick(rng, [6, 6, 40]))), 30))
    T = np.arange(30) * 10.
    fmt = gen.pick(rng, ['svg', 'png'])
    kw = {}
    if rng.random() < 0.5:
        kw = {'labels': ['a%d' % k for k in range(len(table))], 'hline_pos': [0, 1], 'ylims': (-0.1, 1.2), 'ylabel': 'x', 'size': (4., 3.), 'linewidth': 3}
    keys, values = list(kw), repr(kw)
    plt.close(plt.figure())     # a back end is chosen at the first figure
    try:
        with Settings(ctx, rng) as st:
            ctx.note['settings'] = st.names
            mine = None
            if rng.random() < 0.5:      # a figure of the caller
                mine, ax = plt.subplots()
                ax.plot([1, 2], [3, 4])
            inner = state()
            quietly(lambda: op.plot_results(table, T, os.path.join(d, 'x.' + fmt), **kw))
            after = state()
            ctx.check(not changed(inner, after), 'plot_results changed the %s of the process' % ', '.join(changed(inner, after)))
            ctx.check(list(kw) == keys and repr(kw) == values, 'plot_results changed the format it was given')
            if mine is not None:
                ctx.check(len(mine.axes) == 1 and len(mine.axes[0].get_lines()) == 1 and plt.fignum_exists(mine.number), 'plot_results changed a figure of the caller')
                ctx.count('figures_of_the_caller')
        ctx.check(os.path.getsize(os.path.join(d, 'x.' + fmt)) > 0, 'no figure was written')
    finally:
        plt.close('all')
    return digest(table, values, st.names, fmt)


def command(ctx, rng):
    import matplotlib.pyplot as plt
    d = ctx.tmpdir()
    path = os.path.join(d, 'in.xyz')
    xyz.write(path, rng, xyz.random_isomers(rng, N=int(rng.integers(1, gen.pick(rng, [4, 4, 25]))), D=3, natoms=2))
    plt.close(plt.figure())
    argv = clirun.flags(rng, gen.pick(rng, gen.CONTRIBUTION_SETS)) + [path, '--max_temp', str(int(rng.integers(3, 40)))]
    inner = state()
    plain = clirun.run(ctx, argv + ['--out_file', os.path.join(d, 'a')], d)
    ctx.check(not changed(inner, state()), 'main changed the %s of the process' % ', '.join(changed(inner, state())))
    ctx.check(plain.argv_kept, 'main changed the arguments of the process')
    ctx.check(plain.status == 0, 'a valid request failed: %s' % (plain.raised or plain.err[-200:]))
    with Settings(ctx, rng) as st:
        ctx.note['settings'] = st.names
        inner = state()
        more = ['--plot'] if rng.random() < 0.3 else []
        r = clirun.run(ctx, argv + ['--out_file', os.path.join(d, 'b')] + more, d)
        after = state()
        ctx.check(r.status == 0, 'a valid request failed in settings %s: %s' % (st.names, r.raised or r.err[-200:]))
        ctx.check(not changed(inner, after), 'main changed the %s of the process' % ', '.join(changed(inner, after)))
    for k in 'PC':
        ctx.check(clirun.read_table(os.path.join(d, 'a_%s.dat' % k)) == clirun.read_table(os.path.join(d, 'b_%s.dat' % k)),
                  'table %s depends on the settings %s of the process' % (k, st.names))
    return digest(argv[:-1], open(path).read(), st.names)


def importing(ctx, rng):
    """The package itself, imported after everything it depends on."""
    modules = gen.pick(rng, [['occuprob'], ['occuprob.cli'], ['occuprob.superpositions'], ['occuprob.partitionfunctions', 'occuprob.utils'], ['occuprob.io', 'occuprob.cli'], ['occuprob.utils', 'occuprob']])
    setting = gen.pick(rng, ['default', 'warn', 'ignore', 'seeded'])
    d = ctx.tmpdir()
    before = clirun.snapshot(d)
    env = dict(os.environ, PYTHONPATH=core.VERIF, RTM_REPO=core.REPO, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', HOME=ctx.scratch, TMPDIR=ctx.scratch)
    p = subprocess.run([sys.executable, '-m', 'rtm.process', setting] + modules, cwd=d, env=env, capture_output=True, text=True, timeout=200)
    if p.returncode == 77:
        raise core.Inconclusive('the dependencies could not be imported: %s' % p.stderr[-300:])
    ctx.note['stderr'] = p.stderr[-500:]
    ctx.check(p.returncode == 0, 'importing %s failed' % modules)
    ctx.check(clirun.snapshot(d) == before, 'importing %s wrote files' % modules)
    lines = p.stdout.strip().split('\n')
    ctx.check(len(lines) == 1, 'importing %s printed %s' % (modules, lines[:-1]))
    names = json.loads(lines[-1])
    ctx.check(not names, 'importing %s changed the %s of the process' % (modules, ', '.join(names)))
    ctx.count('imports_observed')
    return digest(modules, setting)


STREAMS = [Stream('calls', calls, 250, 6000), Stream('figures', figures, 12, 150), Stream('command', command, 25, 400), Stream('importing', importing, 2, 20)]
