"""C32: runs are reproducible and do not disturb one another."""
import json
import os
import random
import subprocess
import sys
import time

import numpy as np

from rtm import clirun, core, faults, gen, xyz
from rtm.core import Stream, digest

RULE = ('(a) environments: the same request run as a real process in a plain environment and in others (hash seed, locale, text encoding, time zone, thread counts, terminal size, missing HOME, '
        'umask, text on the standard input, other current folder, matplotlibrc in it); (b) simultaneous: 2-6 runs at the same time in one folder on the same and different inputs with different prefixes and flags, with random '
        'delays injected at every file operation, and (c) sequences of runs in separate processes that leave whatever they leave in the folder and in HOME. The numbers of all tables compared with those of a run '
        'alone in a clean folder. Distinct by hash of requests and environments; orders of the file operations of simultaneous runs are counted.')


def numbers(path):
    return [[float(x) for x in row] for row in clirun.read_table(path)]


def same(ctx, path, want, what):
    ctx.check(os.path.isfile(path), 'no table %s (%s)' % (os.path.basename(path), what))
    got = numbers(path)
    ctx.check([len(r) for r in got] == [len(r) for r in want], 'table %s has another shape (%s)' % (os.path.basename(path), what))
    a, b = np.array(got), np.array(want)
    with np.errstate(invalid='ignore'):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * np.abs(b) + 1e-300)
    if not ok.all():
        k = tuple(np.argwhere(~ok)[0])
        ctx.fail('table %s has %r instead of %r in row %d (%s)' % (os.path.basename(path), float(a[k]), float(b[k]), k[0], what))
    ctx.events['oracle_decisions'] += 1
    ctx.count('tables_compared')
    ctx.count('numbers_compared', a.size)


def request(rng, d, name='in.xyz', hi=40):
    """Writes an input file; (arguments without prefix, isomers)."""
    isomers = xyz.random_isomers(rng, N=int(rng.integers(1, 7)), D=int(rng.integers(1, 7)), natoms=int(rng.integers(2, 5)))
    xyz.write(os.path.join(d, name), rng, isomers)
    return isomers


def options(rng, hi=60):
    kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
    return [clirun.flags(rng, kinds), ['--min_temp', '%d' % rng.integers(0, 3)] if rng.random() < 0.3 else [], ['--max_temp', '%d' % rng.integers(3, hi)]]


def variation(rng, d):
    """(environment changes, interpreter options, keywords)"""
    env, kw, what = {}, {}, []

    def use(p, name, **e):
        if rng.random() < p:
            env.update(e)
            what.append(name)
            return True
        return False
    env['PYTHONHASHSEED'] = str(int(rng.integers(1, 4000)))
    use(0.6, 'locale', LC_ALL=gen.pick(rng, ['C', 'C.UTF-8', 'POSIX', 'de_DE.UTF-8', 'tr_TR.UTF-8', 'xx_XX']), LANG='de_DE.UTF-8')
    use(0.2, 'ascii', PYTHONUTF8='0', PYTHONIOENCODING='ascii', LC_ALL='C')
    use(0.3, 'zone', TZ=gen.pick(rng, ['Asia/Kathmandu', 'UTC', 'America/Hermosillo']))
    use(0.3, 'threads', OMP_NUM_THREADS=gen.pick(rng, ['1', '2', '7']), OPENBLAS_NUM_THREADS=gen.pick(rng, ['1', '3']))
    use(0.3, 'terminal', COLUMNS=gen.pick(rng, ['1', '20', '500']), LINES='1', TERM='dumb')
    use(0.2, 'home', HOME=os.path.join(d, 'no such home'))
    use(0.2, 'verbose', PYTHONFAULTHANDLER='1', PYTHONDEVMODE='1', PYTHONMALLOC='debug')
    use(0.2, 'warnings', PYTHONWARNINGS='ignore')
    use(0.2, 'unbuffered', PYTHONUNBUFFERED='1')
    use(0.4, 'name', RTM_NAME=gen.pick(rng, ['/usr/local/bin/occuprob', './q', 'c.py', '__main__.py', 'qoccuprob', 'r', '']))
    use(0.3, 'debug', DEBUG='1', VERBOSE='1', OCCUPROB_DEBUG='1', CI='true', NO_COLOR='1')
    if rng.random() < 0.3:
        kw['umask'] = int(gen.pick(rng, [0o077, 0o000, 0o027]))
        what.append('umask')
    if rng.random() < 0.3:
        kw['stdin'] = gen.pick(rng, [b'', b'y\n', b'--max_temp=2\n', b'-r --min_temp=1 --max_temp=2\n', b'--out_file=other other.xyz\n', b'3\n1\n' * 20])
        what.append('stdin')
    return env, kw, what


def launch(ctx, argv, cwd, env, entry='module', umask=None, stdin=None):
    full = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', TMPDIR=ctx.scratch, HOME=ctx.scratch)
    full.update(env)
    kw = {} if umask is None else {'umask': umask}
    ctx.count('real_processes_run:' + entry)
    return subprocess.Popen([sys.executable, os.path.join(core.VERIF, 'rtm', 'clirun.py'), ctx.scratch, entry] + argv, cwd=cwd, env=full,
                            stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def environments(ctx, rng):
    d = ctx.tmpdir()
    request(rng, d)
    opts = options(rng)
    jobs, trace = [], []
    for k in range(4):
        env, kw, what = variation(rng, d) if k else ({}, {}, ['plain'])
        cwd = os.path.join(d, 'w%d' % k)
        os.makedirs(cwd)
        given = gen.pick(rng, [os.path.join(d, 'in.xyz'), '../in.xyz'])
        if k and rng.random() < 0.3:
            with open(os.path.join(cwd, 'matplotlibrc'), 'w') as f:
                f.write('lines.linewidth: 5\naxes.formatter.use_locale: False\nfigure.dpi: 60\n')
            what.append('matplotlibrc')
        prefix = gen.pick(rng, ['x', './x', os.path.join(cwd, 'x')])
        argv = clirun.interleave(rng, opts + [[given], ['--out_file', prefix]])
        if k and rng.random() < 0.4:
            kw['entry'] = 'script'
            what.append('script')
        trace.append([env, what, argv])
        jobs.append((launch(ctx, argv, cwd, env, **kw), cwd, what, kw.get('stdin')))
    ctx.note.update(runs=trace, file=open(os.path.join(d, 'in.xyz')).read()[:800])
    want = None
    for p, cwd, what, given in jobs:
        try:
            out = p.communicate(given, timeout=200)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            raise core.Inconclusive('a run did not end')
        ctx.check(p.returncode == 0, 'a valid request ended with status %d (%s): %s' % (p.returncode, what, out.decode(errors='replace')[-300:]))
        tables = [os.path.join(cwd, 'x_%s.dat' % key) for key in 'PC']
        if want is None:
            for t in tables:
                ctx.check(os.path.isfile(t), 'no table %s' % os.path.basename(t))
            want = [numbers(t) for t in tables]
        else:
            for t, w in zip(tables, want):
                same(ctx, t, w, 'environment: %s' % ', '.join(what))
            for w in what:
                ctx.count('environment:' + w)
    ctx.sample({'runs': trace})
    return digest(trace, open(os.path.join(d, 'in.xyz')).read())


def alone(ctx, d, text, opts, name):
    """Tables of a run by itself in its own folder."""
    own = os.path.join(ctx.tmpdir(), 'f')
    os.makedirs(own)
    with open(os.path.join(own, name), 'w', newline='') as f:
        f.write(text)
    status = faults.run(ctx, [a for g in opts for a in g] + [name, '--out_file', 'x'], own, environ={'HOME': own, 'TMPDIR': own})
    ctx.check(status == 0, 'a valid request ended with status %d' % status)
    return [numbers(os.path.join(own, 'x_%s.dat' % key)) for key in 'PC']


def text_of(path):
    with open(path, newline='') as f:
        return f.read()


class Delays:
    """Audit hook: sleeps at file operations and notes when they happened."""

    def __init__(self, seed, k, log):
        self.rng, self.k, self.log = random.Random(seed), k, log

    def __call__(self, event, args):
        if event in ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.truncate', 'tempfile.mkstemp', 'os.link'):
            if event == 'open' and not (isinstance(args[0], str) and (args[0].startswith(self.log[1]) or not args[0].startswith('/'))):
                return
            try:
                os.write(self.log[0], b'%c' % (65 + self.k))
            except OSError:
                pass
            time.sleep(self.rng.choice([0, 0, 0.002, 0.01, 0.03]))


def simultaneous(ctx, rng):
    d = ctx.tmpdir()
    names = ['in.xyz', 'b.xyz'][:int(rng.integers(1, 3))]
    for n in names:
        request(rng, d, n)
    n = int(rng.integers(2, 7))
    runs, trace = [], []
    for k in range(n):
        name = gen.pick(rng, names)
        opts = options(rng)
        default = name not in [r[0] for r in runs if r[3] == name[:-4]] and rng.random() < 0.4
        prefix = name[:-4] if default else gen.pick(rng, ['x%d', 'out_%d', '%d']) % k
        runs.append((name, opts, alone(ctx, d, text_of(os.path.join(d, name)), opts, name), prefix))
        trace.append(opts + [[name]] + ([] if default else [['--out_file', prefix]]))
    r, w = os.pipe()
    os.set_blocking(r, False)
    pids = [faults.start(ctx, clirun.interleave(rng, t), d, delays=Delays(int(rng.integers(1 << 30)), k, (w, d))) for k, t in enumerate(trace)]
    status = [faults.end(p) for p in pids]
    os.close(w)
    try:
        order = os.read(r, 65536).decode()
    except BlockingIOError:
        order = ''
    os.close(r)
    ctx.note.update(runs=trace, order=order, status=status)
    changes = sum(a != b for a, b in zip(order, order[1:]))
    ctx.count('file_operations_observed', len(order))
    ctx.count('alternations_between_runs', changes)
    for (name, opts, want, prefix), st in zip(runs, status):
        ctx.check(st == 0, 'a valid request ended with status %d next to %d others' % (st, n - 1))
        for key, t in zip('PC', want):
            same(ctx, os.path.join(d, '%s_%s.dat' % (prefix, key)), t, 'next to %d other runs' % (n - 1))
    ctx.count('simultaneous_runs', n)
    return digest(order, trace) if changes else None


def sequence(ctx, rng):
    """Runs in separate processes, one after another, in the same folder and HOME, on files that are replaced."""
    d = ctx.tmpdir()
    files, trace = {}, []
    ctx.note['runs'] = trace
    for k in range(int(rng.integers(3, 6))):
        name = gen.pick(rng, ['a.xyz', 'a.xyz', 'b.xyz'])
        path = os.path.join(d, name)
        if name not in files or rng.random() < 0.6:
            if name in files and rng.random() < 0.6:        # as large and as old as before
                iso, style, old = xyz.retouched(rng, files[name][0]), files[name][1], os.stat(path)
                xyz.write(path, np.random.default_rng(style), iso)
                if rng.random() < 0.6:
                    os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns))
            else:
                style = int(rng.integers(1 << 30))
                iso = xyz.random_isomers(rng, N=int(rng.integers(1, 6)), D=int(rng.integers(1, 6)), natoms=int(rng.integers(2, 5)), pool=gen.pick(rng, [None, xyz.small(), xyz.alike(rng)]))
                xyz.write(path, np.random.default_rng(style), iso)
            files[name] = iso, style
        opts = options(rng, hi=gen.pick(rng, [60, 60, 60, 900])) if not trace or rng.random() < 0.6 else opts
        if rng.random() < 0.1:
            opts = opts[:1]         # the range of temperatures by default
        env = variation(rng, d)[0]
        env['HOME'] = ctx.scratch       # kept between the runs
        trace.append([name] + opts + [env])
        status = faults.run(ctx, clirun.interleave(rng, opts + [[name]]), d, environ=env)
        ctx.check(status == 0, 'a valid request ended with status %d as run %d in its folder' % (status, k + 1))
        for key, t in zip('PC', alone(ctx, d, text_of(path), opts, name)):
            same(ctx, os.path.join(d, '%s_%s.dat' % (name[:-4], key)), t, 'run %d in its folder' % (k + 1))
    ctx.count('runs_in_sequence', len(trace))
    return digest(trace, *[text_of(os.path.join(d, n)) for n in files])


def matching(name):
    stem = name.rsplit('.', 1)[0]
    return [stem + s for s in ('.freq', '.dat', '.txt', '_1.xyz', '.log')] + ['a' + name]


NAMES = ['x', '1', '0', '2.5', '-c', '']


def undeclared(ctx, rng):
    """What the code under test looks up besides its arguments is observed, provided, and must not matter."""
    d = ctx.tmpdir()
    home, cwd, data = (os.path.join(d, n) for n in ('home', 'cwd', 'data'))
    for n in (home, cwd, data):
        os.makedirs(n)
    name = os.path.join(data, 'in.xyz')
    isomers = request(rng, data)
    opts = options(rng, hi=20)
    # what a file next to the input could tell: other frequencies, energies or isomers
    numbers_ = [' '.join('%.4f' % x for x in rng.uniform(1, 60, len(i.freq))) for i in isomers]
    other = os.path.join(ctx.tmpdir(), 'other.xyz')
    xyz.write(other, rng, xyz.retouched(rng, isomers))
    own = ['\n'.join(numbers_) + '\n', '\n'.join('%.3f' % x for x in rng.normal(size=len(isomers))) + '\n', text_of(other)]
    argv = clirun.interleave(rng, opts + [[name], ['--out_file', 'x']])
    known = {name, os.path.join(os.path.realpath(data), 'in.xyz')} | {os.path.join(os.path.realpath(cwd), 'x_%s.dat' % k) for k in 'PC'}
    r, w = os.pipe()
    status = faults.run(ctx, argv, cwd, environ={'HOME': home}, fresh=True, observer=faults.Lookups(w, [d]))
    os.close(w)
    text = b''
    while True:
        part = os.read(r, 65536)
        if not part:
            break
        text += part
    os.close(r)
    ctx.check(status == 0, 'a valid request ended with status %d' % status)
    names, paths = json.loads(text.decode() or '[[], []]')
    want = [numbers(os.path.join(cwd, 'x_%s.dat' % k)) for k in 'PC']
    probes = [{'environ': {n: str(gen.pick(rng, NAMES))}} for n in names for _ in range(3)]
    for p in paths:
        if p in known or os.path.lexists(p) or not os.path.isdir(os.path.dirname(p)):
            continue
        if p.endswith('*'):
            probes += [{'file': p[:-1] + n, 'contents': c} for n in set(matching(os.path.basename(name))) for c in own]
            p = p[:-1] + 'masses.dat'
        elif '*' in p:
            probes += [{'file': p.replace('*', ''), 'contents': c} for c in own]
            p = p.replace('*', '1')
        probes += [{'file': p, 'contents': c} for c in ('-c -r\n', '\n'.join(['1.5'] * 120) + '\n', '{}', '[DEFAULT]\nmax_temp = 3\n')]
    ctx.note.update(argv=argv, variables=names, paths=paths, file=open(name).read()[:600])
    ctx.count('variables_looked_up', len(names))
    ctx.count('paths_looked_up', len(paths))
    # some that any program might think of
    probes += [{'environ': {'OCCUPROB_' + gen.pick(rng, ['CONFIG', 'SCALE', 'OPTIONS', 'CACHE']): gen.pick(rng, NAMES)}},
               {'file': os.path.join(gen.pick(rng, [home, cwd, data]), gen.pick(rng, ['.occuprobrc', 'occuprob.cfg', 'occuprob.ini', 'setup.cfg', 'masses.dat', 'in.json', '.env'])), 'contents': '-c -r\n'}]
    for probe in probes:
        for key in 'PC':
            os.remove(os.path.join(cwd, 'x_%s.dat' % key))
        if 'file' in probe:
            with open(probe['file'], 'w') as f:
                f.write(probe['contents'])
        status = faults.run(ctx, argv, cwd, environ=dict(probe.get('environ', {}), HOME=home), fresh=True)
        what = 'with %s' % probe
        ctx.check(status == 0, 'a valid request ended with status %d %s' % (status, what))
        for key, t in zip('PC', want):
            same(ctx, os.path.join(cwd, 'x_%s.dat' % key), t, what)
        if 'file' in probe and os.path.lexists(probe['file']):
            os.remove(probe['file'])
        ctx.count('inputs_provided')
    return digest(argv, probes, want)


STREAMS = [Stream('environments', environments, 7, 110), Stream('simultaneous', simultaneous, 30, 800), Stream('sequence', sequence, 20, 600), Stream('undeclared', undeclared, 12, 300)]
