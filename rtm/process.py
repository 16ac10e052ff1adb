"""State of the process that calls must not change.

As a program (SETTING MODULE...): state before and after importing the modules,
once all that they depend on has been imported."""
import decimal
import faulthandler
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import signal
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings

import numpy as np


def digest(*x):
    h = hashlib.blake2b(digest_size=10)
    for v in x:
        h.update(v.tobytes() if isinstance(v, np.ndarray) else repr(v).encode())
    return h.hexdigest()


def state():
    """Everything a call might leave behind in the process."""
    import ase.data
    import ase.io.formats
    import matplotlib
    import matplotlib.style
    import multiprocessing
    s = {'floating-point error handling': repr(sorted(np.geterr().items())),
         'floating-point error callback': repr(np.geterrcall()),
         'ufunc buffer size': np.getbufsize(),
         'print options': repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
         'random state of numpy': digest(np.random.get_state()[1], np.random.get_state()[2:]),
         'random state': hash(random.getstate()),
         'warning filters': repr(warnings.filters),
         'warning display': repr(warnings.showwarning) + repr(warnings.formatwarning),
         'locale': locale.setlocale(locale.LC_ALL),
         'current folder': os.getcwd(),
         'environment': repr(sorted(os.environ.items())),
         'signal handlers': repr([signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGHUP, signal.SIGUSR1, signal.SIGFPE)]),
         'module search path': repr(sys.path),
         'arguments': repr(sys.argv),
         'recursion limit': sys.getrecursionlimit(),
         'switch interval': sys.getswitchinterval(),
         'garbage collection': (gc.isenabled(), gc.get_threshold()),
         'decimal context': repr(decimal.getcontext().prec) + decimal.getcontext().rounding,
         'logging': (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable, logging.raiseExceptions),
         'thread stack size': threading.stack_size(),
         'alarms': [(t[0] > 0, t[1]) for t in (signal.getitimer(signal.ITIMER_REAL), signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF))],
         'resource limits': repr([resource.getrlimit(k) for k in (resource.RLIMIT_FSIZE, resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CPU)]),
         'priority': (os.getpriority(os.PRIO_PROCESS, 0), tuple(sorted(os.sched_getaffinity(0)))),
         'time zone': time.tzname,
         'standard streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
         'way the standard streams work': repr([[getattr(f, a, None) for a in ('encoding', 'errors', 'line_buffering', 'write_through', 'newlines', 'closed')] for f in (sys.stdout, sys.stderr)]),
         'hooks': (repr(sys.excepthook), repr(sys.displayhook), repr(sys.unraisablehook), repr(sys.gettrace()), repr(sys.getprofile()), repr(threading.excepthook)),
         'figure defaults': digest(repr(sorted((k, str(v)) for k, v in matplotlib.rcParams.items()))),
         'figure back end': matplotlib.rcParams._get('backend') if hasattr(matplotlib.rcParams, '_get') else '',
         'interactive mode of figures': matplotlib.is_interactive(),
         'data of the elements': digest(ase.data.atomic_masses, ase.data.covalent_radii, ase.data.atomic_numbers),
         'folder of temporary files': tempfile.gettempdir(),
         'functions of other modules': callables(),
         'way to start processes': multiprocessing.get_start_method(allow_none=True) or 'fork',
         'fault handler': faulthandler.is_enabled(),
         'tracing of memory': tracemalloc.get_traceback_limit() if tracemalloc.is_tracing() else 0,
         'limits of the interpreter': (sys.get_int_max_str_digits(), sys.dont_write_bytecode, sys.get_coroutine_origin_tracking_depth(), gc.get_debug()),
         'import system': repr([[repr(x) for x in v] for v in (sys.meta_path, sys.path_hooks)]),
         'levels of the loggers': repr(sorted((n, x.level, x.disabled, x.propagate) for n, x in logging.root.manager.loggerDict.items() if isinstance(x, logging.Logger) and (x.level or x.disabled or not x.propagate)
                                             and n.split('.')[0] in ('matplotlib', 'ase', 'numpy', 'pymatgen', 'PIL', 'py', 'asyncio'))),
         'formats of ASE': repr([sorted((k, id(v)) for k, v in x.items()) for x in (ase.io.formats.ioformats, ase.io.formats.extension2format)]),
         'colour maps and styles of figures': digest(sorted(matplotlib.colormaps), sorted(matplotlib.style.library)),
         'umask': os.umask(0o022)}
    os.umask(s['umask'])
    return s


KEYS = {}


def callables():
    """Functions and classes of the modules in use, as named there at the first call."""
    if not KEYS:
        import argparse, builtins, json, math, os.path, re, shutil, tempfile   # noqa: E401
        import ase
        import ase.io
        import matplotlib.axes
        import matplotlib.figure
        import matplotlib.pyplot as plt
        from pymatgen.core.structure import Molecule
        from pymatgen.symmetry.analyzer import PointGroupAnalyzer
        for x in (argparse, builtins, json, math, os, os.path, re, shutil, sys, tempfile, time, warnings, np, np.linalg, np.random, ase, ase.io, ase.Atoms, plt, matplotlib.figure.Figure,
                  matplotlib.axes.Axes, Molecule, PointGroupAnalyzer, argparse.ArgumentParser):
            KEYS[x] = [k for k, v in vars(x).items() if not k.startswith('_') and callable(v)]
    return hash(tuple(id(vars(x).get(k)) for x, names in KEYS.items() for k in names))


def changed(a, b):
    return [k for k in a if a[k] != b[k]]


def main():
    import importlib
    import json
    setting, modules = sys.argv[1], sys.argv[2:]
    try:
        import argparse, re, ase.io  # noqa: E401, F401
        import matplotlib.pyplot as plt
        from pymatgen.core.structure import Molecule  # noqa: F401
        from pymatgen.symmetry.analyzer import PointGroupAnalyzer  # noqa: F401
        plt.close(plt.figure())
    except Exception:       # noqa: BLE001
        import traceback
        traceback.print_exc()
        return 77
    sys.path[0] = os.environ['RTM_REPO']
    if setting == 'warn':
        np.seterr(all='warn')
    elif setting == 'ignore':
        np.seterr(all='ignore')
    elif setting == 'seeded':
        np.random.seed(1)
        random.seed(1)
    threads = threading.active_count()
    before = state()
    for m in modules:
        importlib.import_module(m)
    names = changed(before, state())
    if threading.active_count() != threads:
        names.append('running threads')
    print(json.dumps(names))
    return 0


if __name__ == '__main__':
    sys.exit(main())
