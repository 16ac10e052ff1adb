"""Runs the command line of the code under test, in process or as a real process,
inside a scratch directory, and records what it did.

A process-wide audit hook watches every file operation while the guard is up.  Operations
that would change something outside the scratch directory are refused and recorded, so
that no mistake of the code under test reaches the real file system.
"""
import contextlib
import hashlib
import io
import os
import stat
import subprocess
import sys
import warnings

try:
    from rtm import core
except ImportError:     # child process
    core = None

_guard = {'root': None, 'refused': [], 'events': None, 'also': ()}
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_PATHS = {'os.remove': (0,), 'os.rename': (0, 1), 'os.rmdir': (0,), 'os.mkdir': (0,), 'os.truncate': (0,), 'os.link': (0, 1),
          'os.symlink': (1,), 'os.chmod': (0,), 'os.chown': (0,), 'os.utime': (0,), 'shutil.rmtree': (0,), 'shutil.move': (0, 1),
          'os.mkfifo': (0,), 'os.mknod': (0,)}
_FORBIDDEN = ('os.system', 'os.exec', 'os.fork', 'os.forkpty', 'os.posix_spawn', 'os.kill', 'os.killpg')


def _inside(path):
    if isinstance(path, int):
        return True
    p = os.path.realpath(os.fsdecode(path))
    return p == '/dev/null' or p in _guard['also'] or p.startswith(_guard['root'] + os.sep)


def _audit(event, args):
    if _guard['root'] is None:
        return
    if event == 'open':
        path, mode, flags = (tuple(args) + (None, None))[:3]
        if path is None or isinstance(path, int):
            return
        writing = bool(flags & _WRITE) if isinstance(flags, int) else any(c in (mode or 'r') for c in 'wax+')
        if not writing:
            return
        paths = [path]
    elif event in _PATHS:
        paths = [args[k] for k in _PATHS[event] if k < len(args)]
    elif event in _FORBIDDEN:
        _guard['refused'].append((event, str(args)[:200]))
        raise PermissionError('refused by the monitor: %s' % event)
    else:
        return
    for p in paths:
        if p is None:
            continue
        _guard['events'].append((event, str(p)))
        if not _inside(p):
            _guard['refused'].append((event, str(p)))
            raise PermissionError('refused by the monitor: %s %s' % (event, p))


_installed = []


@contextlib.contextmanager
def guard(root, also=()):
    """Refuses changes outside root; yields the list of refused operations."""
    if not _installed:
        sys.addaudithook(_audit)
        _installed.append(True)
    _guard.update(root=os.path.realpath(root), refused=[], events=[], also=also)
    try:
        yield _guard
    finally:
        _guard['root'] = None


def snapshot(d):
    """Every path below d: directories, links and files with mode, contents and time of modification."""
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, d)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ('link', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ('dir', stat.S_IMODE(st.st_mode))
            else:
                with open(p, 'rb') as f:
                    out[rel] = ('file', stat.S_IMODE(st.st_mode), hashlib.sha1(f.read()).hexdigest(), st.st_mtime_ns)
    return out


class Run:
    """status: exit status as of a process; raised: exception text; new/gone/changed: paths."""

    def __init__(self):
        self.status, self.raised, self.out, self.err = 0, None, '', ''
        self.refused, self.new, self.gone, self.changed = [], [], [], []
        self.file_events, self.argv_kept = 0, True
        self.written = []       # paths that operations were about

    @property
    def message(self):
        return bool((self.out + self.err).strip()) or self.raised is not None

    def describe(self):
        return {'status': self.status, 'raised': self.raised, 'out': self.out[-300:], 'err': self.err[-600:],
                'new': self.new, 'gone': self.gone, 'changed': self.changed, 'refused': self.refused}


def run(ctx, argv, cwd, watch=None, process=False, entry='module'):
    """Runs `occuprob argv` in cwd; watch (default cwd) is the directory tree compared."""
    watch = watch or cwd
    r = Run()
    before = snapshot(watch)
    if process:
        env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', TMPDIR=ctx.scratch, HOME=ctx.scratch)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), ctx.scratch, entry] + argv, cwd=cwd, env=env, capture_output=True, text=True,
                           errors='replace', timeout=120)
        r.status, r.out, r.err = p.returncode, p.stdout, p.stderr
        ctx.count('real_processes_run:' + entry)
    else:
        import matplotlib.pyplot as plt
        from occuprob import cli
        out, err = io.StringIO(), io.StringIO()
        old = (sys.argv, os.getcwd(), os.environ.get('HOME'))
        os.environ['HOME'] = ctx.scratch
        sys.argv = ['occuprob'] + list(argv)
        os.chdir(cwd)
        try:
            with guard(ctx.scratch) as g, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    code = cli.main()
                    r.status = code if isinstance(code, int) else (0 if code is None else 1)
                except SystemExit as e:
                    r.status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                    if isinstance(e.code, str):
                        err.write(e.code)
                except core.Violation:
                    raise
                except Exception as e:      # noqa: BLE001
                    r.status, r.raised = 1, '%s: %s' % (type(e).__name__, e)
        finally:
            r.argv_kept = sys.argv == ['occuprob'] + list(argv)
            sys.argv = old[0]
            os.chdir(old[1])
            if old[2] is None:
                del os.environ['HOME']
            else:
                os.environ['HOME'] = old[2]
            plt.close('all')
        r.refused = list(g['refused'])
        r.file_events = len(g['events'])
        r.written = sorted({os.path.normpath(os.path.join(cwd, os.fsdecode(p))) for _, p in g['events']})
        r.out, r.err = out.getvalue(), err.getvalue()
        ctx.count('main_calls')
        ctx.count('file_operations_observed', r.file_events)
    after = snapshot(watch)
    r.new = sorted(set(after) - set(before))
    r.gone = sorted(set(before) - set(after))
    r.changed = sorted(k for k in before if k in after and before[k] != after[k])
    ctx.note['run'] = dict(r.describe(), argv=list(argv), cwd=os.path.relpath(cwd, ctx.scratch))
    return r


def flags(rng, kinds):
    """The contribution letters as command line arguments, in a random style."""
    letters = [c if rng.random() < 0.5 else c.upper() for c in kinds]
    rng.shuffle(letters)
    style = int(rng.integers(4))
    if style == 0:
        return ['-' + ''.join(letters)]
    if style == 1:
        return ['-' + c for c in letters]
    if style == 2 and len(letters) > 1:
        k = int(rng.integers(1, len(letters)))
        return ['-' + ''.join(letters[:k]), '-' + ''.join(letters[k:])]
    if rng.random() < 0.5:
        letters.append(letters[0])      # given twice
    return ['-' + c for c in letters]


def interleave(rng, groups):
    """Concatenates the groups of arguments in random order."""
    groups = [g for g in groups if g]
    return [a for k in rng.permutation(len(groups)) for a in groups[k]]


def read_table(path):
    """Rows of (text, ...) of a plain table; comment lines are skipped."""
    rows = []
    with open(path) as f:
        for line in f:
            line = line.split('#')[0].strip()
            if line:
                rows.append(line.split())
    return rows


if __name__ == '__main__':      # child process: python clirun.py SCRATCH ENTRY ARGV...
    import runpy
    root, entry = sys.argv[1:3]
    sys.argv = [os.environ.pop('RTM_NAME', 'occuprob')] + sys.argv[3:]
    sys.path[0] = os.getcwd()   # as with python -m
    with guard(root):
        if entry == 'module':
            runpy.run_module('occuprob.cli', run_name='__main__', alter_sys=False)
        else:       # as the installed script does
            from occuprob.cli import main
            sys.exit(main())
