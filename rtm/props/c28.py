"""C28: dictionary comparison is equality of keys, shapes and values."""
import numpy as np

import occuprob as op
from rtm import gen
from rtm.core import Stream, digest

RULE = ('Pairs of dictionaries of 0-8 arrays (0-3 dimensions, integers, doubles, long doubles, empty, scalars, up to 40000 entries) that are equal, equal within round-off, listed in another order, or differ in exactly one place: a '
        'key more, less or renamed, one shape (including shapes that broadcast or have the same size), one entry at any position; both argument orders; and chains of comparisons on '
        'dictionaries edited in between. Distinct by hash of both.')


def arrays(rng):
    d = {}
    keys = ['energy', 'multiplicity', 'frequencies', 'moments', 'symmetry', 'a', 'b', 'A', 'energy ', '1']
    if rng.random() < 0.2:      # keys of any type; different ones may read the same
        keys = [1, '1', 2, (1, 2), '(1, 2)', 'energy', None, 'None', 2.5, '2.5', b'energy', ('energy',), 0, '0', frozenset([3])]
        keys = [keys[k] for k in rng.permutation(len(keys))]
    else:
        keys = [keys[k] for k in rng.permutation(len(keys))]
    for k in keys[:int(gen.pick(rng, [0, 1, 1, 2, 3, 5, 5, 8]))]:
        ndim = int(gen.pick(rng, [0, 1, 1, 2, 2, 3]))
        shape = tuple(int(gen.pick(rng, [1, 1, 2, 3, 5, 9])) for _ in range(ndim))
        if ndim and rng.random() < 0.08:        # long ones
            shape = shape[:-1] + (int(10 ** rng.uniform(2, 4.6 - 0.7 * (ndim - 1))),)
        mode = gen.pick(rng, ['normal', 'normal', 'int', 'long', 'large', 'ones', 'equal', 'empty', 'offset', 'complex', 'flags', 'range', 'faint'])
        v = rng.normal(size=shape) + 3
        if mode == 'int':
            v = rng.integers(1, 100, shape)
        elif mode == 'long':
            v = np.asarray(v).astype(np.longdouble)
        elif mode == 'large':
            v = v * 10. ** rng.uniform(3, 9)
        elif mode == 'ones':
            v = np.ones(shape)
        elif mode == 'equal':
            v = np.full(shape, float(rng.uniform(1, 9)))
        elif mode == 'empty' and ndim:
            v = np.zeros((0,) + shape[1:])
        elif mode == 'offset':
            v = v - 4433.
        elif mode == 'complex':
            v = v + 1j * rng.normal(size=shape)
        elif mode == 'range':       # small entries next to large ones
            v = np.sign(v - 2.5) * 10. ** rng.uniform(-2, gen.pick(rng, [4, 9]), shape)
        elif mode == 'faint':       # all of them small
            v = v * 10. ** rng.uniform(-5.5, -3)
        elif mode == 'flags':
            v = np.asarray(v) > 3
        if v.dtype.kind == 'f' and rng.random() < 0.06:     # the same infinite entries
            v = np.where(rng.random(v.shape) < 0.3, gen.pick(rng, [np.inf, -np.inf]), v)
        d[k] = np.asarray(v)
    return d


def copy(d):
    return {k: v.copy() for k, v in d.items()}


def shuffled(rng, d):
    keys = list(d)
    return {keys[k]: d[keys[k]] for k in rng.permutation(len(keys))}


def perturb(rng, d):
    """Changes one thing for certain; returns what, or None if there is nothing to change."""
    if not d:
        d['new'] = np.ones(2)
        return 'extra key'
    k = gen.pick(rng, sorted(d, key=lambda k: (type(k).__name__, repr(k))))
    v = d[k]
    what = gen.pick(rng, ['entry', 'entry', 'entry', 'extra', 'missing', 'renamed', 'longer', 'broadcast', 'reshape', 'transpose', 'newaxis', 'scalar', 'row', 'swap', 'sign', 'nan'])
    if what == 'extra':
        d['new'] = gen.pick(rng, [np.ones(1), np.zeros(0), v.copy()])
    elif what == 'missing':
        del d[k]
    elif what == 'renamed':
        new = k + '_' if isinstance(k, str) and rng.random() < 0.7 else gen.pick(rng, [n for n in (repr(k), str(k), (k,)) if n not in d] or [object()])
        d[new] = d.pop(k)
    elif what == 'longer':
        if v.ndim == 0:
            return None
        d[k] = np.concatenate([v, v[-1:]]) if len(v) else np.ones((1,) + v.shape[1:])
    elif what == 'broadcast':       # same entries after broadcasting
        d[k] = np.broadcast_to(v, (int(rng.integers(1, 4)),) + v.shape).copy()
    elif what == 'reshape':
        if v.ndim == 0 or v.ravel().shape == v.shape:
            return None
        d[k] = v.ravel().copy()
    elif what == 'transpose':
        if v.ndim < 2 or v.T.shape == v.shape:
            return None
        d[k] = v.T.copy()
    elif what == 'newaxis':
        d[k] = v[..., None].copy()
    elif what == 'scalar':
        if v.ndim == 0:
            return None
        d[k] = np.asarray(v.ravel()[0] if v.size else 1.)
    elif what == 'row':
        if v.ndim == 0 or len(v) < 2:
            return None
        d[k] = v[:1].copy()
    elif what == 'swap':
        w = v.ravel().copy()
        if w.size < 2:
            return None
        i, j = rng.choice(w.size, 2, replace=False)
        if not (np.isfinite(w[i]) and np.isfinite(w[j])) or abs(1. * w[i] - 1. * w[j]) <= 0.01 * max(abs(w[i]), abs(w[j])) + 0.01:
            return None
        w[[i, j]] = w[[j, i]]
        d[k] = w.reshape(v.shape)
    else:
        w = v.astype(v.dtype if v.dtype == np.longdouble or v.dtype.kind == 'c' else float).ravel()
        if w.size == 0:
            return None
        if v.dtype.kind == 'c':
            i = int(rng.integers(w.size))
            w[i] += gen.pick(rng, [1, -1]) * gen.pick(rng, [1, 1j]) * max(0.01 * abs(w[i]), 1e-3)
            d[k] = w.reshape(v.shape)
            return 'complex %s of %s%s' % (what, k, v.shape)
        i = int(gen.pick(rng, [0, w.size - 1, rng.integers(w.size)]))
        if not np.isfinite(w[i]):
            w[i] = gen.pick(rng, [1., -w[i], np.nan])
        elif what == 'sign':
            if abs(w[i]) < 0.05:
                return None
            w[i] = -w[i]
        elif what == 'nan':
            w[i] = gen.pick(rng, [np.nan, np.inf])
        else:
            size = abs(w[i]) * gen.pick(rng, [1e-3, 0.01, 0.5, 10.])
            faint = np.abs(w).max() < 0.01
            if faint:
                size = max(size, 0.01 * abs(w[i]))
            w[i] = w[i] + gen.pick(rng, [-1, 1]) * max(size, 1e-7 if faint else 1e-3)
        d[k] = w.reshape(v.shape)
    return '%s of %s%s' % (what, k, v.shape)


def compare(ctx, a, b, expected, how):
    ra, rb = list(a), list(b)
    before = [(v.tobytes(), v.shape, v.dtype, id(v)) for v in list(a.values()) + list(b.values())]
    try:
        r = op.compare_numpy_dictionaries(a, b)
    except Exception as e:      # noqa: BLE001
        ctx.fail('the comparison raised %s: %s (%s)' % (type(e).__name__, e, how))
    ctx.check(isinstance(r, (bool, np.bool_)) or r in (0, 1), 'the comparison is %r' % (r,))
    ctx.check(bool(r) == expected, 'the comparison is %s for dictionaries that are %s' % (bool(r), how))
    after = [(v.tobytes(), v.shape, v.dtype, id(v)) for v in list(a.values()) + list(b.values())]
    ctx.check(before == after and ra == list(a) and rb == list(b), 'the comparison modified its arguments (%s)' % how)
    ctx.count('comparisons_' + str(expected))


def pair(ctx, rng):
    a = arrays(rng)
    b = shuffled(rng, copy(a))
    if rng.random() < 0.4:      # some arrays are the same objects
        b = {k: a[k] if rng.random() < 0.5 else v for k, v in b.items()}
    how = 'equal'
    mode = gen.pick(rng, ['same', 'roundoff', 'layout', 'differ', 'differ', 'differ', 'differ'])
    if mode == 'roundoff':
        for k, v in b.items():
            if v.dtype.kind == 'f' and rng.random() < 0.7:
                b[k] = np.asarray(v * (1 + rng.normal(size=v.shape) * 1e-14))
        how = 'equal within round-off'
    elif mode == 'layout':
        b = {k: (np.asfortranarray(v) if v.ndim and rng.random() < 0.5 else v.astype(np.longdouble if v.dtype.kind != 'c' else v.dtype)) for k, v in b.items()}
        for k, v in b.items():
            if v is not a[k]:
                v.flags.writeable = False
    elif mode == 'differ':
        c = perturb(rng, b)
        if c:
            how = 'different: ' + c
    expected = not how.startswith('different')
    ctx.note.update(a={k: v for k, v in a.items()}, b={k: v for k, v in b.items()}, how=how)
    compare(ctx, a, b, expected, how)
    compare(ctx, b, a, expected, how + ' (swapped)')
    compare(ctx, a, a, True, 'the same object')
    ctx.sample({'how': how, 'shapes': {k: v.shape for k, v in a.items()}})
    return digest(how, *[v for v in a.values()], *[v for v in b.values()])


def history(ctx, rng):
    """Answers follow the edits made between comparisons."""
    a = arrays(rng)
    b = copy(a)
    trace = []
    ctx.note['trace'] = trace
    for _ in range(int(rng.integers(2, 6))):
        compare(ctx, a, b, True, 'equal (after %s)' % trace)
        saved = copy(b)
        c = perturb(rng, b)
        trace.append(c)
        if c:
            compare(ctx, a, b, False, 'different: %s (after %s)' % (c, trace))
        for k in list(b):
            if k not in saved:
                del b[k]
        for k, v in saved.items():      # undone in place where possible
            if k in b and b[k].shape == v.shape and b[k].dtype == v.dtype:
                b[k][...] = v
            else:
                b[k] = v
    compare(ctx, a, b, True, 'equal (after %s)' % trace)
    return digest(trace, *[v for v in a.values()])


STREAMS = [Stream('pair', pair, 15000, 90000), Stream('history', history, 1800, 12000)]
