"""Harness shared by all the monitors.

A property module (rtm/props/cNN.py) defines

    STREAMS = [Stream(name, function, quick, thorough), ...]

where function(ctx, rng) builds one workload case from rng, drives the real code
in /repo with it and lets the oracle observe the execution.  It reports a breach
with ctx.fail(...), a case that is a listed known finding with ctx.known(key, ...)
and returns a signature of what was observed (None if the oracle had nothing to
decide on).  Cases are replayable one by one: the generator of case i of a stream
is seeded with (seed, property, stream, i) and nothing else.
"""
import collections
import contextlib
import hashlib
import importlib
import io as _io
import json
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RTM_REPO', '/repo')
OUT = os.environ.get('RTM_OUT', VERIF)           # evidence and replays; scratch for experiments

BUDGET = {'quick': 75., 'thorough': 600.}        # seconds of workload per check
WATCHDOG = {'quick': 400., 'thorough': 850.}     # wall clock: inconclusive

Stream = collections.namedtuple('Stream', 'name func quick thorough')


class Violation(Exception):
    """The oracle observed an execution that breaks the property."""


class Inconclusive(Exception):
    """The deciding observation could not be made."""


class TookTooLong(BaseException):
    """A call that goes on for too long was given up."""


def bounded(ctx, seconds, f, *args):
    """f(*args), or None, counted, if it takes longer than this (no verdict on it)."""
    def ring(*_):
        raise TookTooLong
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(*args)
    except TookTooLong:
        ctx.count('calls_given_up')
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.evaluations = 0
        self.sigs = set()
        self.samples = []
        self.events = collections.Counter()      # what the monitors actually observed
        self.known_hits = collections.Counter()
        self.known_text = {}
        self.decided = collections.Counter()     # per stream: cases with a verdict
        self.ran = collections.Counter()
        self.note = {}                           # details of the current case
        self.stream = None
        self.index = None

    # --- used by the property modules
    def count(self, name, n=1):
        self.events[name] += n

    def fail(self, msg, **details):
        self.note.update(details)
        raise Violation(msg)

    def check(self, ok, msg, **details):
        self.events['oracle_decisions'] += 1
        if not ok:
            self.fail(msg, **details)

    def known(self, key, msg):
        """A deviation with exactly the mechanism `key`; a violation unless listed."""
        if key in self.known_text:
            self.known_hits[key] += 1
        else:
            self.fail('%s [%s]' % (msg, key))

    def sample(self, obj):
        if len(self.samples) < 6:
            self.samples.append(obj)

    def rng(self, stream, index):
        import numpy as np
        return np.random.default_rng([self.seed & 0xffffffff, zlib.crc32(self.prop.encode()),
                                      zlib.crc32(stream.encode()), index])

    def tmpdir(self):
        return tempfile.mkdtemp(prefix='case', dir=self.scratch)


def brief(x, depth=0):
    """JSON-able short form of a value."""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): brief(v, depth + 1) for k, v in list(x.items())[:20]}
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'OUS':
            return [str(v) for v in x.ravel()[:24]]
        flat = x.ravel()
        out = {'shape': list(x.shape), 'dtype': str(x.dtype),
               'values': [float(v) if x.dtype.kind != 'c' else str(v) for v in flat[:48]]}
        out['values'] = [v if isinstance(v, str) or np.isfinite(v) else str(v) for v in out['values']]
        if flat.size > 48:
            out['truncated'] = True
        return out
    if isinstance(x, (list, tuple)):
        return [brief(v, depth + 1) for v in list(x)[:24]]
    if isinstance(x, (np.floating, float)):
        v = float(x)
        return v if np.isfinite(v) else str(v)
    if isinstance(x, (np.integer, int, bool)) or x is None:
        return int(x) if isinstance(x, np.integer) else x
    return str(x)[:400]


def digest(*parts):
    import numpy as np
    h = hashlib.blake2b(digest_size=10)
    for p in parts:
        if isinstance(p, np.ndarray):
            h.update(str((p.shape, p.dtype)).encode())
            h.update(np.ascontiguousarray(p).tobytes() if p.dtype != np.longdouble
                     else np.ascontiguousarray(p.astype(float)).tobytes())
        else:
            h.update(repr(p).encode())
    return h.hexdigest()


# ------------------------------------------------------------------ known findings
def load_known(prop):
    """'finding: property=C07 key=K text' lines; 'fixed:' lines suppress nothing."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + prop:
                out[w[2].split('=', 1)[1]] = w[3].strip()
    return out


# ------------------------------------------------------------------ code under test
class LineCoverage:
    """Lines of /repo/occuprob executed (sys.monitoring; each line reported once)."""

    def __init__(self):
        self.lines = collections.defaultdict(set)
        self.root = os.path.join(REPO, 'occuprob') + os.sep

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(mon.COVERAGE_ID, 'rtm')
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, self._line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def _line(self, code, line):
        fn = code.co_filename
        if fn.startswith(self.root):
            self.lines[os.path.basename(fn)].add(line)
        return sys.monitoring.DISABLE

    def report(self):
        return {k: len(v) for k, v in sorted(self.lines.items())}


def import_target(scratch):
    """Imports occuprob from REPO's working tree, never from stale bytecode."""
    mpl = os.path.join(scratch, 'mpl')
    if os.path.isdir('/opt/vp/cache/mpl'):
        shutil.copytree('/opt/vp/cache/mpl', mpl)
    else:
        os.makedirs(mpl)
    os.environ['MPLCONFIGDIR'] = mpl
    import numpy  # noqa: F401
    import ase.io  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    from pymatgen.core.structure import Molecule  # noqa: F401
    from pymatgen.symmetry.analyzer import PointGroupAnalyzer  # noqa: F401
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    sys.path.insert(0, REPO)
    cov = LineCoverage()
    import occuprob
    import occuprob.cli  # noqa: F401
    cov.start()         # after the import: only what the workload reaches
    if not os.path.realpath(occuprob.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('occuprob imported from %s' % occuprob.__file__)
    return cov


def from_target(tb):
    """True if the exception came through a frame of the code under test."""
    root = os.path.join(os.path.realpath(REPO), 'occuprob') + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


# ------------------------------------------------------------------ run
def run_case(ctx, stream, index):
    """One case. Returns None or the text of a violation."""
    ctx.stream, ctx.index, ctx.note = stream.name, index, {}
    ctx.ran[stream.name] += 1
    sink = _io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(sink), \
                contextlib.redirect_stderr(sink):
            warnings.simplefilter('ignore')
            sig = stream.func(ctx, ctx.rng(stream.name, index))
    except Violation as e:
        return str(e)
    except Exception as e:      # noqa: BLE001
        if from_target(e.__traceback__):
            ctx.note['traceback'] = traceback.format_exc()
            return 'the code under test raised %s: %s' % (type(e).__name__, e)
        if isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
            # the oracles handle every result of the documented form
            ctx.note['traceback'] = traceback.format_exc()
            return 'a result has another form than documented (%s: %s)' % (type(e).__name__, e)
        raise
    ctx.evaluations += 1
    if sig is not None:
        ctx.decided[stream.name] += 1
        ctx.sigs.add(sig)
    return None


def write_replay(ctx, msg):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d-%d.json' % (ctx.prop, ctx.stream, ctx.seed, ctx.index))
    with open(path, 'w') as f:
        json.dump({'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'stream': ctx.stream,
                   'index': ctx.index, 'reason': msg, 'observed': brief(ctx.note),
                   'how': './check %s --replay <this file>' % ctx.prop}, f, indent=1)
    return path


def run_property(prop, tier, seed, replay=None):
    t0 = time.time()
    real_stdout = sys.stdout
    scratch = tempfile.mkdtemp(prefix='rtm-')

    def bark():
        real_stdout.write('INCONCLUSIVE property=%s watchdog\n' % prop)
        real_stdout.flush()
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)

    dog = threading.Timer(WATCHDOG[tier], bark)
    dog.daemon = True
    dog.start()
    cwd = os.getcwd()
    try:
        return _run(prop, tier, seed, replay, scratch, t0)
    except Inconclusive as e:
        print('INCONCLUSIVE property=%s %s' % (prop, e))
        return 3
    except Exception:       # noqa: BLE001
        traceback.print_exc()
        print('ERROR property=%s harness error (no verdict)' % prop)
        return 2
    finally:
        dog.cancel()
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, tier, seed, replay, scratch, t0):
    cov = import_target(scratch)
    mod = importlib.import_module('rtm.props.' + prop.lower())
    ctx = Ctx(prop, tier, seed, scratch)
    ctx.known_text = load_known(prop)
    ctx.cov = cov
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    violation = None
    if replay:
        r = json.load(open(replay))
        ctx.seed = r['seed']
        stream = next(s for s in mod.STREAMS if s.name == r['stream'])
        violation = run_case(ctx, stream, r['index'])
    else:
        plan = [(s, getattr(s, tier)) for s in mod.STREAMS]
        done = [0] * len(plan)
        t1 = time.time()
        # round-robin in proportion to the planned counts, so that a slow machine
        # cuts every stream alike
        steps = 50
        for step in range(1, steps + 1):
            for k, (s, n) in enumerate(plan):
                target = -(-n * step // steps)
                while done[k] < target and violation is None:
                    if done[k] and time.time() - t1 > BUDGET[tier]:
                        break
                    violation = run_case(ctx, s, done[k])
                    done[k] += 1
            if violation is not None:
                break
        # a stream must not stay undecided because time was short
        for k, (s, n) in enumerate(plan):
            while violation is None and not ctx.decided[s.name] and done[k] < n and time.time() - t1 < 250:
                violation = run_case(ctx, s, done[k])
                done[k] += 1
    finish = getattr(mod, 'finish', None)
    if violation is None and finish and not replay:
        finish(ctx)
    code = 0
    for key, text in sorted(ctx.known_text.items()):
        if ctx.known_hits[key]:
            print('KNOWN-FINDING: property=%s %s (%d cases)' % (prop, text, ctx.known_hits[key]))
    if violation is not None:
        path = write_replay(ctx, violation)
        print('  stream %s, case %d: %s' % (ctx.stream, ctx.index, violation))
        for k, v in list(ctx.note.items())[:8]:
            print('    %s: %s' % (k, str(brief(v))[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif not replay:
        silent = [s.name for s in mod.STREAMS if not ctx.decided[s.name]]
        if silent or not ctx.events['oracle_decisions']:
            print('INCONCLUSIVE property=%s the oracle decided nothing in %s' % (prop, silent))
            code = 3
    if not replay:
        write_evidence(ctx, mod, cov, violation, time.time() - t0)
    print('%s property=%s tier=%s seed=%d: %d cases, %d distinct, %d oracle decisions, %.1f s'
          % ({0: 'HELD', 1: 'BROKEN', 3: 'INCONCLUSIVE'}[code], prop, tier, ctx.seed, ctx.evaluations,
             len(ctx.sigs), ctx.events['oracle_decisions'], time.time() - t0))
    return code


def write_evidence(ctx, mod, cov, violation, wall):
    d = os.path.join(OUT, 'evidence')
    os.makedirs(d, exist_ok=True)
    data = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ctx.evaluations,
            'distinct_nontrivial': len(ctx.sigs),
            'rule': mod.RULE,
            'samples': [brief(s) for s in ctx.samples],
            'cases_per_stream': dict(ctx.ran),
            'decided_per_stream': dict(ctx.decided),
            'observed_events': dict(ctx.events),
            'known_finding_cases': dict(ctx.known_hits),
            'repo_lines_reached_by_workload': cov.report(),
            'target': REPO,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': 0 if violation is None else 1,
    }
    with open(os.path.join(d, ctx.prop + '.json'), 'w') as f:
        json.dump(data, f, indent=1)
