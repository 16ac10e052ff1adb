"""Runs of the command line in forked children, with faults injected or several at once.

A forked child costs milliseconds, so that every point at which a run may fail can be
sampled: file size limits of any number of bytes, devices that are full, folders that are
missing or forbidden, exceptions at any line of the code under test, signals.
"""
import ast
import gc
import json
import os
import resource
import signal
import sys
import tempfile
import time

from rtm import clirun, core

NOBODY = 65534


class Lookups:
    """Variables of the environment and paths that the code under test asks for, whatever it does with the answer."""

    STANDARD = ('PYTHON', 'LC_', 'LANG', 'MPL', 'XDG_')
    ELSEWHERE = ('HOME', 'PATH', 'TMPDIR', 'TMP', 'TEMP', 'PWD', 'COLUMNS', 'LINES')     # varied by other streams

    def __init__(self, pipe, folders):
        self.pipe, self.folders = pipe, [os.path.realpath(f) for f in folders]
        self.names, self.paths = set(), set()
        self.mine = os.path.join(os.path.realpath(core.REPO), 'occuprob') + os.sep
        self.inside = False

    def ours(self, direct):
        """Whether the code under test asks: at all, or directly (through the standard library at most)."""
        f = sys._getframe(2)
        while f is not None:
            name = f.f_code.co_filename
            if name.startswith(self.mine):
                return True
            if direct and ('site-packages' in name):
                return False
            f = f.f_back
        return False

    def name(self, key):
        if isinstance(key, bytes):
            key = os.fsdecode(key)
        if not self.inside and isinstance(key, str) and not key.startswith(self.STANDARD) and key not in self.ELSEWHERE and self.ours(True):
            self.names.add(key)

    def path(self, path):
        if self.inside or not isinstance(path, (str, bytes, os.PathLike)):
            return
        self.inside = True
        try:
            p = os.path.abspath(os.fsdecode(path))
            p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
            if any(p.startswith(f + os.sep) for f in self.folders) and self.ours(False):
                self.paths.add(p)
        except ValueError:
            pass
        finally:
            self.inside = False

    def install(self):
        cls = type(os.environ)
        get, has = cls.__getitem__, cls.__contains__

        def getitem(env, key):
            if env is os.environ:
                self.name(key)
            return get(env, key)

        def contains(env, key):
            if env is os.environ:
                self.name(key)
            return has(env, key)
        cls.__getitem__, cls.__contains__ = getitem, contains
        for name in ('stat', 'lstat', 'access'):
            def asked(path, *args, f=getattr(os, name), **kw):
                self.path(path)
                return f(path, *args, **kw)
            setattr(os, name, asked)

        def audit(event, args):
            if event == 'open':
                mode, flags = (tuple(args) + (None, None))[1:3]
                if not (isinstance(flags, int) and flags & clirun._WRITE):
                    self.path(args[0])
            elif event == 'glob.glob' and args:
                self.path(args[0])
            elif event in ('os.listdir', 'os.scandir') and args and isinstance(args[0], (str, bytes)):
                self.listed(args[0])
        sys.addaudithook(audit)

    def listed(self, path):
        self.path(os.path.join(os.fsdecode(path), '*'))

    def report(self):
        self.inside = True
        os.write(self.pipe, json.dumps([sorted(self.names), sorted(self.paths)]).encode())


class At:
    """Raises an exception at the n-th line executed of the code under test."""

    def __init__(self, n, exc, spare=None):
        self.left, self.exc, self.spare = n, exc, spare or {}
        self.root = os.path.join(os.path.realpath(core.REPO), 'occuprob') + os.sep

    def install(self):
        def local(frame, event, arg):
            if event == 'line' and frame.f_lineno not in self.spare.get(frame.f_code.co_filename, ()):
                self.left -= 1
                if self.left == 0:
                    sys.settrace(None)
                    raise self.exc('injected')
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.root) else None
        sys.settrace(trace)


def clean_up_lines():
    """{file: lines at which Python itself cannot guarantee the clean-up that the code asks for}.

    An exception at the line of a with statement (executed again to leave it), of a try
    statement or within a finally clause or handler may keep the clean-up from being done."""
    out = {}
    folder = os.path.join(core.REPO, 'occuprob')
    for name in os.listdir(folder):
        if not name.endswith('.py'):
            continue
        path = os.path.join(folder, name)
        lines = set()
        with open(path) as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            if isinstance(node, (ast.With, ast.AsyncWith)):
                lines.update(range(node.lineno, node.body[0].lineno))
            elif isinstance(node, ast.Try):
                lines.add(node.lineno)
                for part in node.finalbody + node.handlers:
                    lines.update(range(part.lineno, part.end_lineno + 1))
        out[path] = out[os.path.realpath(path)] = lines
    return out


def count_lines(ctx, argv, cwd):
    """Number of lines of the code under test executed by a run."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        at = At(-1, None)
        try:
            _main(ctx.scratch, argv, cwd, at=at)
        finally:
            os.write(w, b'%d' % (-1 - at.left))
            os._exit(0)
    os.close(w)
    text = os.read(r, 100)
    os.close(r)
    os.waitpid(pid, 0)
    return int(text or 0)


def _main(scratch, argv, cwd, at=None, limit=None, uid=None, delays=None, umask=None, environ=None, observer=None, fresh=False):
    """In the child: the exit status that a process would have."""
    null = os.open(os.devnull, os.O_RDWR)
    for k in (0, 1, 2):
        os.dup2(null, k)
    sys.stdout = open(1, 'w', closefd=False)
    sys.stderr = open(2, 'w', closefd=False)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    os.chdir(cwd)
    os.environ['HOME'] = scratch
    if environ:
        os.environ.update(environ)
    if umask is not None:
        os.umask(umask)
    if delays is not None:
        sys.addaudithook(delays)
    if limit is not None:
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    if uid is not None:
        os.setgroups([])
        os.setgid(uid)
        os.setuid(uid)
    sys.argv = [os.environ.pop('RTM_NAME', 'occuprob')] + list(argv)
    tempfile.tempdir = None
    status = 0
    if observer is not None:
        observer.install()
    if fresh:
        for name in [n for n in sys.modules if n.split('.')[0] == 'occuprob']:
            del sys.modules[name]
    from occuprob import cli
    try:
        with clirun.guard(scratch, also=('/dev/full',)):
            try:
                if at is not None:
                    at.install()
                code = cli.main()
                status = code if isinstance(code, int) else (0 if code is None else 1)
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:       # noqa: BLE001
                status = 1
            finally:
                sys.settrace(None)
            # what the interpreter does at its end
            import threading
            for t in threading.enumerate():
                if t is not threading.current_thread() and not t.daemon:
                    t.join()
            gc.collect()
            sys.stdout.flush()
    except BaseException:               # noqa: BLE001
        status = status or 120
    if observer is not None:
        observer.report()
    return status & 0xff


def start(ctx, argv, cwd, **kw):
    """Keywords: see _main; fresh: the code under test is imported again in the child."""
    gc.freeze()         # the child only collects what it made itself
    pid = os.fork()
    if pid == 0:
        status = 121
        try:
            status = _main(ctx.scratch, argv, cwd, **kw)
        finally:
            os._exit(status)
    return pid


def end(pid, timeout=120.):
    """Exit status; negative: ended by that signal."""
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st)
        if time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise core.Inconclusive('a run did not end within %g s' % timeout)
        time.sleep(0.002)


def run(ctx, argv, cwd, **kw):
    ctx.count('forked_runs')
    return end(start(ctx, argv, cwd, **kw))
