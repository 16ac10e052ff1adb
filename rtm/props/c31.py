"""C31: success is reported only for complete results."""
import os
import re
import resource
import signal
import subprocess
import sys
import time

from rtm import clirun, core, faults, gen, xyz
from rtm.core import Stream, digest

RULE = ('Valid requests run in forked children under a fault: a limit of any number of bytes on the size of files (partial writes), a full device, a folder in the place of an output file, '
        'a missing or forbidden output folder, an interruption or lack of memory at any executed line of the program, signals at any time. The outputs of a run that ends with status 0 must all be '
        'regular files with the contents that they have without the fault; a run whose fault made that impossible must have another status. Without a fault in effect the status must be 0. '
        'Distinct by hash of request and fault.')


class Request:
    """A valid request and the contents of its outputs."""

    def __init__(self, ctx, rng, plots=0.12, hi=40):
        self.d = ctx.tmpdir()
        os.chmod(self.d, 0o755)
        path = os.path.join(self.d, 'in.xyz')
        N = int(rng.integers(1, 6))
        xyz.write(path, rng, xyz.random_isomers(rng, N=N, D=int(rng.integers(1, 7)), natoms=2), plain=True)
        os.chmod(path, 0o644)
        self.kinds = gen.pick(rng, gen.CONTRIBUTION_SETS)
        groups = [clirun.flags(rng, self.kinds), [path], ['--max_temp', '%d' % rng.integers(1, hi)]]
        self.out = os.path.join(self.d, gen.pick(rng, ['out', 'a', 'a b']))
        os.makedirs(self.out)
        self.prefix = os.path.join(self.out, 'x')
        groups.append(['--out_file', self.prefix])
        self.files = [self.prefix + '_P.dat', self.prefix + '_C.dat']
        self.fmt = None
        if rng.random() < plots:
            self.fmt = gen.pick(rng, ['svg', 'png'])
            groups += [['--plot', '--plot_format', self.fmt], ['--size', '3', '2']]
            self.files += [f[:-3] + self.fmt for f in self.files]
        self.argv = clirun.interleave(rng, groups)
        status = faults.run(ctx, self.argv, self.d)
        ctx.note.update(argv=self.argv, status_without_fault=status)
        ctx.check(status == 0, 'a valid request ended with status %d' % status)
        self.want = {}
        for f in self.files:
            ctx.check(self.regular(f), 'a run with status 0 did not write %s' % os.path.basename(f))
            self.want[f] = self.contents(f)
        self.sizes = [os.path.getsize(f) for f in self.files]
        self.clear()

    @staticmethod
    def regular(f):
        return os.path.isfile(f) and os.path.isfile(os.path.realpath(f))

    def contents(self, f):
        with open(f, 'rb') as h:
            data = h.read()
        if f.endswith('.dat'):
            return [line.split() for line in data.decode().split('\n') if line.split('#')[0].strip()]
        if f.endswith('.svg'):
            return data.rstrip().endswith(b'</svg>'), len(re.findall(rb'<path', data))
        return data[-8:-4] == b'IEND', len(data)

    def clear(self):
        for f in self.files:
            if os.path.lexists(f):
                os.remove(f)

    def missing(self):
        """Outputs that are not there as they should be."""
        return [os.path.basename(f) for f in self.files if not self.regular(f) or self.contents(f) != self.want[f]]


def judge(ctx, req, status, fault, must_fail=None):
    """must_fail: the fault certainly was in effect (True) or certainly not (False)."""
    lacking = req.missing()
    ctx.note.update(fault=fault, status=status, incomplete=lacking)
    ctx.check(status != 0 or not lacking, 'a run with status 0 under a fault (%s) left %s missing or incomplete' % (fault, ', '.join(lacking)))
    if must_fail is False:
        ctx.check(status == 0, 'a valid request ended with status %d (%s, which it does not need)' % (status, fault))
    ctx.count('failed' if status else 'succeeded')
    ctx.count('incomplete_outputs', len(lacking))
    ctx.sample({'argv': req.argv, 'fault': fault, 'status': status, 'incomplete': lacking})
    return digest(req.argv[:2], req.kinds, req.sizes, fault)


def size_limit(ctx, rng):
    req = Request(ctx, rng)
    top = max(req.sizes)
    for _ in range(3):
        limit = int(gen.pick(rng, [rng.integers(0, top + 1), rng.integers(0, top + 1), 0, top - 1, min(req.sizes) - 1, min(req.sizes), top, 4096, 2 * top + 100000]))
        limit = max(limit, 0)
        status = faults.run(ctx, req.argv, req.d, limit=limit)
        sig = judge(ctx, req, status, 'no file may exceed %d of %s bytes' % (limit, req.sizes), False if limit >= 2 * top + 100000 else None)
        req.clear()
    return sig


def obstacle(ctx, rng, figures=False):
    req = Request(ctx, rng, plots=1. if figures else 0.12)
    files = req.files[2:] if figures else req.files
    victims = [f for f in files if rng.random() < 0.4] or [gen.pick(rng, files)]
    kind = gen.pick(rng, ['full', 'directory', 'dangling', 'read-only'] if figures else ['full', 'full', 'directory', 'dangling', 'gone', 'forbidden', 'read-only'])
    kw = {}
    if kind == 'gone':
        os.rmdir(req.out)
        if rng.random() < 0.5:
            open(req.out, 'w').close()      # a file in the place of the folder
    elif kind in ('forbidden', 'read-only'):
        kw['uid'] = faults.NOBODY
        os.chmod(ctx.scratch, 0o755)
        if kind == 'forbidden':
            os.chmod(req.out, 0o555)
        else:
            os.chmod(req.out, 0o777)
            for f in victims:
                open(f, 'w').close()
                os.chmod(f, 0o444)
            os.chmod(req.out, 0o1777)       # its files cannot be replaced by others
    for f in victims:
        if kind == 'full':
            os.symlink('/dev/full', f)
        elif kind == 'dangling':
            os.symlink(os.path.join(req.d, 'no', 'such'), f)
        elif kind == 'directory':
            os.makedirs(os.path.join(f, 'x'))
    status = faults.run(ctx, req.argv, req.d, **kw)
    if status == 121 and kw:
        ctx.count('no_unprivileged_runs')   # setuid refused by the sandbox
        return None
    ctx.count('obstacle:' + kind)
    return judge(ctx, req, status, '%s %s' % (kind, [os.path.basename(f) for f in victims]))


def obstructed_figures(ctx, rng):
    return obstacle(ctx, rng, True)


def interrupted(ctx, rng):
    """KeyboardInterrupt or MemoryError at the n-th line."""
    req = Request(ctx, rng, hi=12)
    n = faults.count_lines(ctx, req.argv, req.d)
    req.clear()
    sig = None
    for _ in range(3):
        k = int(rng.integers(1, n + 1)) if rng.random() < 0.5 else int(n + 1 - min(n, 2. ** rng.uniform(0, 9)))
        exc = gen.pick(rng, [KeyboardInterrupt, KeyboardInterrupt, MemoryError, OSError])
        status = faults.run(ctx, req.argv, req.d, at=faults.At(k, exc))
        sig = judge(ctx, req, status, '%s at line %d of %d' % (exc.__name__, k, n))
        ctx.count('interruption_points')
        req.clear()
    return sig


def signalled(ctx, rng):
    req = Request(ctx, rng, hi=400, plots=0.6)
    t0 = time.time()
    pid = faults.start(ctx, req.argv, req.d)
    faults.end(pid)
    span = time.time() - t0
    req.clear()
    pid = faults.start(ctx, req.argv, req.d)
    time.sleep(span * rng.uniform(0.05, 1.1))
    s = gen.pick(rng, [signal.SIGINT, signal.SIGTERM, signal.SIGHUP])
    os.kill(pid, s)         # a child that this case started and has not waited for
    status = faults.end(pid)
    ctx.count('signals_that_ended_the_run', status != 0)
    return judge(ctx, req, status, 'signal %d' % s)


def process(ctx, rng):
    """Real processes, tables of any length, also under a limit of the size of files."""
    req = Request(ctx, rng, hi=int(gen.pick(rng, [40, 3000, 9000])), plots=0.)
    for limited in (False, True):
        limit = int(gen.pick(rng, [rng.integers(0, max(req.sizes)), max(req.sizes) - 1, 4096, 8192])) if limited else 1 << 30

        def prepare():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', HOME=ctx.scratch, TMPDIR=ctx.scratch)
        try:
            p = subprocess.run([sys.executable, os.path.join(core.VERIF, 'rtm', 'clirun.py'), ctx.scratch, gen.pick(rng, ['module', 'module', 'script'])] + req.argv, cwd=req.d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=120, preexec_fn=prepare)
        except subprocess.TimeoutExpired:
            raise core.Inconclusive('a run did not end')
        ctx.count('real_processes_run')
        sig = judge(ctx, req, p.returncode, 'a real process, no file above %d of %s bytes' % (limit, req.sizes), None if limited else False)
        req.clear()
    return sig


STREAMS = [Stream('size_limit', size_limit, 40, 900), Stream('obstacle', obstacle, 50, 1500), Stream('obstructed_figures', obstructed_figures, 20, 300), Stream('interrupted', interrupted, 30, 800),
           Stream('signalled', signalled, 12, 250), Stream('process', process, 6, 60)]
