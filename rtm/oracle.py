"""Oracles shared by several properties."""
import numpy as np

from rtm import ref
from rtm.ref import LD

LOW = -640.     # below this (natural logarithm) a weight may underflow in double precision


def as_table(ctx, x, N, M, what):
    ctx.check(x is not None, '%s returned None' % what)
    ctx.check(hasattr(x, 'shape') and tuple(x.shape) == (N, M),
              '%s has shape %s instead of (%d, %d)' % (what, getattr(x, 'shape', None), N, M))
    ctx.check(np.isrealobj(x) and x.dtype.kind == 'f', '%s has dtype %s' % (what, x.dtype))
    return ref.ld(x)


def distribution(ctx, P, N, M, what='calc_probability'):
    P = as_table(ctx, P, N, M, what)
    bad = ~np.isfinite(P)
    ctx.check(not bad.any(), '%s contains %s' % (what, P[bad][:3]), columns=np.nonzero(bad.any(axis=0))[0])
    ctx.check((P >= 0).all() and (P <= 1 + 1e-12).all(), '%s outside [0, 1]: min %r max %r' % (what, float(P.min()), float(P.max())))
    s = P.sum(axis=0)
    err = np.abs(s - 1).max() if s.size else 0
    ctx.check(err <= 1e-11 + 1e-15 * N, '%s adds up to %r' % (what, float(s[np.abs(s - 1).argmax()])))
    return P


def log_tol(amp):
    return 1e-9 + 4e-15 * ref.ld(amp)


def same_logP(ctx, P, logref, amp, what):
    """Observed probabilities (N, M) against reference logarithms."""
    P = ref.ld(P)
    logref = np.broadcast_to(logref, P.shape)
    with np.errstate(divide='ignore', invalid='ignore'):
        obs = np.log(P)
        seen = logref > LOW
        d = np.where(seen, np.abs(obs - logref), 0)
        d = np.where(np.isnan(d), np.inf, d)
    tol = np.broadcast_to(log_tol(amp), P.shape)
    k = np.unravel_index(np.argmax(d - tol), d.shape)
    ctx.check((d <= tol).all(), '%s: minimum %d at temperature index %d has %r, expected %r' % (
        what, k[0], k[1], float(P[k]), float(np.exp(logref[k]))),
        log_difference=float(d[k]), tolerance=float(tol[k]))
    low = ~seen
    if low.any():
        ctx.check((P[low] <= np.exp(LOW + 5)).all(), '%s: a minimum with weight below e^%d has %r' % (
            what, LOW, float(P[low].max())))
    ctx.count('probabilities_compared', int(seen.sum()))
    return d


def representable(terms, lo=-600., hi=600.):
    """Where every product of factors of the weight fits comfortably in double precision.

    exp(-500) * exp(-500) * exp(600) is lost in a product, exp(-800) * exp(300) as well."""
    rise = sum(np.where(x > 0, x, 0) for x in terms)
    fall = sum(np.where(x < 0, x, 0) for x in terms)
    return (fall > lo) & (rise < hi)


def same_ratios(ctx, Z, logref, amp, what, ok=None, whole=True):
    """Weights (N, M) against reference logarithms up to a common factor per column.

    Only representable weights are decided."""
    Z = ref.ld(Z)
    if ok is None:
        ok = representable([logref])
    cols = ok.any(axis=0)
    if not cols.any():
        return 0
    Z, logref, ok = Z[:, cols], logref[:, cols], ok[:, cols]
    amp = np.broadcast_to(amp, cols.shape)[cols]
    ctx.check(np.isfinite(Z[ok]).all() and (Z[ok] > 0).all(), '%s not finite or not positive where it is representable' % what)
    a = np.where(ok, logref, -np.inf).argmax(axis=0)
    j = np.arange(Z.shape[1])
    zt = Z[a, j]
    rel = logref - logref[a, j]
    with np.errstate(divide='ignore', invalid='ignore'):
        d = np.abs(np.log(Z) - np.log(zt) - rel)
    d = np.where(np.isnan(d), np.inf, d)
    d = np.where(ok, d, 0)
    tol = np.broadcast_to(log_tol(amp), d.shape)
    k = np.unravel_index(np.argmax(d - tol), d.shape)
    ctx.check((d <= tol).all(), '%s: weight of minimum %d relative to minimum %d is %r, expected %r' % (
        what, k[0], a[k[1]], float(Z[k] / zt[k[1]]), float(np.exp(rel[k]))), log_difference=float(d[k]))
    low = (rel < -620) & (logref < 600) if whole else np.zeros(1, bool)
    if low.any():
        with np.errstate(invalid='ignore'):
            tiny = np.where(low, Z / zt, 0)
        ctx.check((tiny <= np.exp(LD(-600))).all(), '%s: a weight below e^-620 of the largest is reported as %r of it' % (
            what, float(tiny.max())))
    ctx.count('weights_compared', int(ok.sum()))
    return int(ok.sum())


def close(ctx, obs, expected, rtol, atol, what):
    obs, expected = ref.ld(obs), ref.ld(expected)
    ctx.check(obs.shape == expected.shape, '%s has shape %s instead of %s' % (what, obs.shape, expected.shape))
    if obs.size == 0:
        return
    same = (obs == expected)
    with np.errstate(invalid='ignore'):
        d = np.abs(obs - expected)
    d = np.where(same, 0, d)
    d = np.where(np.isnan(d), np.inf, d)
    with np.errstate(invalid='ignore'):
        tol = atol + rtol * np.where(np.isfinite(expected), np.abs(expected), 0)
    ok = same | (d <= tol) | (np.isnan(obs) & np.isnan(expected))
    bad = np.argwhere(~ok)
    if len(bad):
        k = tuple(bad[0])
        ctx.check(False, '%s differs at %s: %r instead of %r' % (what, [int(v) for v in k], float(obs[k]), float(expected[k])))
    ctx.check(True, what)
    ctx.count('values_compared', int(obs.size))


def nontrivial(P):
    """Some temperature at which two minima are really occupied."""
    P = np.asarray(P)
    return P.shape[0] > 1 and bool(((P > 1e-9).sum(axis=0) > 1).any())
