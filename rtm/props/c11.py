"""C11: reported W and V are the logarithmic derivatives of the partition functions."""
import numpy as np

from rtm import gen, oracle, ref
from rtm.core import Stream, digest

RULE = ('Each contribution class on its own (electronic, classical, quantum, rotational) with random parameters and temperatures; W and V compared with the analytic '
        'derivatives in extended precision, and with fourth-order numerical derivatives of the partition function (differences between minima) and of W reported by the library. '
        'Every case is decisive; distinct by hash.')


def parts(rng):
    kind = gen.pick(rng, 'escqqqrs')
    land = gen.landscape(rng, kind)
    return kind, land


def analytic(ctx, rng):
    kind, land = parts(rng)
    T, _ = gen.temperatures(rng, zero=False, N=land.N, D=land.freq.shape[1])
    return derivatives(ctx, kind, land, T)


def bulk(ctx, rng):
    kind = gen.pick(rng, 'escqqqrs')
    land, T = gen.bulk(rng, kind, zero=False)
    return derivatives(ctx, kind, land, T)


def derivatives(ctx, kind, land, T):
    ctx.note.update(land.describe(), T=T)
    pf = land.one(kind)
    model = ref.Model(land, kind)
    name = type(pf).__name__
    w = oracle.as_table(ctx, pf.calc_part_func_w(T), land.N, T.size, name + '.calc_part_func_w')
    v = oracle.as_table(ctx, pf.calc_part_func_v(T), land.N, T.size, name + '.calc_part_func_v')
    W, V = model.W(T), model.V(T)
    if kind in 'es':        # one energy origin common to all the minima
        w, W = w - w[0], W - W[0]
        scale = np.abs(model.W(T)).max(axis=0) + 1e-300
    else:
        scale = np.abs(W)
    d = np.abs(w - W)
    d = np.where(np.isnan(d), np.inf, d)
    k = np.unravel_index((d - 1e-9 * np.broadcast_to(scale, d.shape)).argmax(), d.shape)
    ctx.check((d <= 1e-9 * scale).all(), '%s.calc_part_func_w: %r at %r K for minimum %d, expected %r' % (
        name, float(w[k]), float(T[k[1]]), k[0], float(W[k])))
    oracle.close(ctx, v, V, 1e-9, 1e-290, name + '.calc_part_func_v')
    ctx.count('derivatives_' + kind, int(w.size + v.size))
    ctx.sample({'kind': kind, 'land': land.describe(), 'T': T, 'W': w, 'V': v})
    return digest(kind, *land.arrays().values(), T)


def numeric(ctx, rng):
    kind, land = parts(rng)
    T0 = 10. ** rng.uniform(0.3, 3.5, 5)
    pf = land.one(kind)
    name = type(pf).__name__
    ctx.note.update(land.describe(), T=T0)
    h = 1e-3
    steps = [-2, -1, 1, 2]
    grids = {s: T0 / (1 + s * h) for s in steps}       # beta (1 + s h)

    def diff(f):
        y = {s: f(grids[s]) for s in steps}
        return (8 * (y[1] - y[-1]) - (y[2] - y[-2])) / (12 * h)
    model = ref.Model(land, kind)
    amp = model.amplitude(T0)
    w = ref.ld(pf.calc_part_func_w(T0))
    v = ref.ld(pf.calc_part_func_v(T0))
    dw = diff(lambda T: ref.ld(pf.calc_part_func_w(T)))
    if kind in 'es':
        got, want = (dw - w) - (dw - w)[0], v
    else:
        got, want = dw - w, v
    scale = 1 + np.abs(w).max(axis=0)
    d = np.abs(got - want)
    ctx.check((d <= 1e-8 * scale).all(), '%s: V is %s but the derivative of W gives %s' % (
        name, want[:, 0].astype(float), got[:, 0].astype(float)))
    with np.errstate(all='ignore'):
        logs = {s: np.log(ref.ld(pf.calc_part_func(grids[s]))) for s in steps}
    seen = np.all([np.isfinite(x) & (np.abs(x) < 600) for x in logs.values()], axis=0)
    dz = (8 * (logs[1] - logs[-1]) - (logs[2] - logs[-2])) / (12 * h)
    got, want = dz - dz[0], w - w[0]
    ok = seen & seen[0]
    d = np.where(ok, np.abs(got - want), 0)
    ctx.check((d <= 1e-8 * scale + 1e-9).all(), '%s: W differences %s but the partition functions give %s' % (
        name, want[:, 0].astype(float), got[:, 0].astype(float)))
    ctx.count('numerical_derivatives', int(v.size + ok.sum()))
    return digest(kind, *land.arrays().values(), T0)


STREAMS = [Stream('bulk', bulk, 240, 1600), Stream('analytic', analytic, 5400, 40000), Stream('numeric', numeric, 2100, 14000)]
