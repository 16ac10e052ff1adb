"""Reference model: superposition approximation in extended precision, in logarithms.

Written from the documented formulas, independently of /repo.  Everything is evaluated
in long double with log-sum-exp; `mp_*` repeat it in 50-digit mpmath so that every check
can cross-examine the reference itself on a sample of its cases.
"""
import numpy as np

LD = np.longdouble
KB = LD('8.617333262145e-5')        # eV/K
H = LD('4.135667696e-3')            # eV/THz


def ld(x):
    return np.asarray(x).astype(LD)


def beta(T):
    T = ld(T)
    with np.errstate(divide='ignore'):
        return np.where(T > 0, 1 / (KB * np.where(T > 0, T, 1)), LD(np.inf))


def elec_log(E, g, T):
    """ln g - (E - Emin)/kT, (N, M); T = 0 and T = inf included."""
    dE = ld(E) - ld(E).min()
    b = beta(T)
    ex = np.zeros((dE.size, b.size), LD)
    nz = dE > 0
    ex[nz] = dE[nz][:, None] * b[None, :]
    return np.log(ld(g))[:, None] - ex


def classical_log(freq, T):
    return np.repeat(-np.sum(np.log(ld(freq)), axis=1)[:, None], np.size(T), axis=1)


def quantum_log(freq, T):
    """sum over modes of -x - ln(1 - exp(-2x)), T > 0."""
    out = np.empty((freq.shape[0], np.size(T)), LD)
    b = beta(T)
    for i in range(freq.shape[0]):
        x = 0.5 * H * ld(freq[i])[:, None] * b[None, :]
        out[i] = np.sum(-x - np.log(-np.expm1(-2 * x)), axis=0)
    return out


def effective_moments(moments):
    m = ld(moments)
    big = m.max(axis=1, keepdims=True)
    return np.where(m > 1e-9 * big, m, LD(1))


def rot_log(sigma, moments, T):
    w = 0.5 * np.sum(np.log(effective_moments(moments)), axis=1) - np.log(ld(sigma))
    return np.repeat(w[:, None], np.size(T), axis=1)


def quantum_w(freq, T):
    b = beta(T)
    out = np.empty((freq.shape[0], np.size(T)), LD)
    for i in range(freq.shape[0]):
        x = 0.5 * H * ld(freq[i])[:, None] * b[None, :]
        out[i] = -np.sum(x / np.tanh(x), axis=0)
    return out


def quantum_v(freq, T):
    b = beta(T)
    out = np.empty((freq.shape[0], np.size(T)), LD)
    for i in range(freq.shape[0]):
        x = 0.5 * H * ld(freq[i])[:, None] * b[None, :]
        e = np.exp(-x)
        out[i] = np.sum((x * 2 * e / -np.expm1(-2 * x)) ** 2, axis=0)
    return out


def normalize(logw):
    """ln P from ln w, (N, M)."""
    m = logw.max(axis=0)
    with np.errstate(divide='ignore'):
        return logw - (m + np.log(np.sum(np.exp(logw - m), axis=0)))


def fluctuation(logP, W, V):
    """<V> + Var(W); W is taken from that of the most probable minimum, as it may be huge."""
    P = np.exp(logP)
    P = P / P.sum(axis=0)
    j = np.arange(P.shape[1])
    W = W - W[P.argmax(axis=0), j]
    mean = np.sum(P * W, axis=0)
    return np.sum(P * V, axis=0) + np.sum(P * (W - mean) ** 2, axis=0)


class Model:
    """Reference results for a gen.Landscape and a set of kinds."""

    def __init__(self, land, kinds=None):
        self.land = land
        self.kinds = land.kinds if kinds is None else kinds

    def log_terms(self, T):
        L = self.land
        t = {}
        for k in self.kinds:
            if k == 's':
                t[k] = elec_log(L.E, L.g, T)
            elif k == 'e':
                t[k] = elec_log(L.E, np.ones(L.N), T)
            elif k == 'c':
                t[k] = classical_log(L.freq, T)
            elif k == 'q':
                t[k] = quantum_log(L.freq, T)
            elif k == 'r':
                t[k] = rot_log(L.sigma, L.moments, T)
            else:
                raise ValueError(k)
        return t

    def logw(self, T):
        return sum(self.log_terms(T).values())

    def amplitude(self, T):
        """Size of the exponents that had to be subtracted (for tolerances), (M,)."""
        T = ld(T)
        a = np.zeros(T.size, LD)
        b = np.where(np.isfinite(beta(T)), beta(T), 0)
        if 'q' in self.kinds:
            a = a + 0.5 * H * ld(self.land.freq).sum(axis=1).max() * b
        if 'e' in self.kinds or 's' in self.kinds:
            a = a + (ld(self.land.E).max() - ld(self.land.E).min()) * b
        if 'c' in self.kinds:
            a = a + np.abs(np.log(ld(self.land.freq))).sum(axis=1).max()
        return a

    def logP(self, T):
        """ln P, (N, M). T must be > 0 (inf allowed without quantum vibrations)."""
        return normalize(self.logw(T))

    def logP0(self, ignore_zpe=False):
        """Limit T -> 0+ of ln P, (N,)."""
        L = self.land
        ground = np.zeros(L.N, LD)
        if 'e' in self.kinds or 's' in self.kinds:
            ground = ground + (ld(L.E) - ld(L.E).min())
        if 'q' in self.kinds and not ignore_zpe:
            ground = ground + 0.5 * H * ld(L.freq).sum(axis=1)
        rel = ground - ground.min()
        scale = max(np.abs(ground).max(), LD(1e-30))
        # energies differ or they do not; only zero-point energies are rounded
        low = rel <= (1e-15 * scale if 'q' in self.kinds and not ignore_zpe else 0)
        w = np.zeros(L.N, LD)
        if 's' in self.kinds:
            w = w + np.log(ld(L.g))
        if 'c' in self.kinds:
            w = w - np.log(ld(L.freq)).sum(axis=1)
        if 'r' in self.kinds:
            w = w + rot_log(L.sigma, L.moments, [1.])[:, 0]
        w = np.where(low, w, -LD(np.inf))
        return normalize(w[:, None])[:, 0]

    def W(self, T):
        """beta dlnZ_a/dbeta with the full temperature dependence; energies from Emin."""
        L = self.land
        T = ld(T)
        w = np.zeros((L.N, T.size), LD)
        if 'e' in self.kinds or 's' in self.kinds:
            w = w - (ld(L.E) - ld(L.E).min())[:, None] * beta(T)[None, :]
        if 'c' in self.kinds:
            w = w - L.freq.shape[1]
        if 'q' in self.kinds:
            w = w + quantum_w(L.freq, T)
        if 'r' in self.kinds:
            w = w - LD(1.5)
        return w

    def V(self, T):
        L = self.land
        T = ld(T)
        v = np.zeros((L.N, T.size), LD)
        if 'c' in self.kinds:
            v = v + L.freq.shape[1]
        if 'q' in self.kinds:
            v = v + quantum_v(L.freq, T)
        if 'r' in self.kinds:
            v = v + LD(1.5)
        return v

    def heat_capacity(self, T):
        """C/kB, (M,), T > 0."""
        return fluctuation(self.logP(T), self.W(T), self.V(T))


# ---------------------------------------------------------------- mpmath cross-examination
def mp_logZ_terms(land, kinds, b):
    """[ln Z_a(beta)] with the full beta dependence, 60 digits."""
    import mpmath as mp
    kb_h = mp.mpf('4.135667696e-3')
    out = []
    Emin = min(mp.mpf(float(e)) for e in land.E)
    M = effective_moments(land.moments) if 'r' in kinds else None
    for a in range(land.N):
        s = mp.mpf(0)
        if 's' in kinds:
            s += mp.log(mp.mpf(float(land.g[a])))
        if 'e' in kinds or 's' in kinds:
            s -= b * (mp.mpf(float(land.E[a])) - Emin)
        if 'c' in kinds:
            s -= sum(mp.log(b * kb_h * mp.mpf(float(f))) for f in land.freq[a])
        if 'q' in kinds:
            for f in land.freq[a]:
                x = b * kb_h * mp.mpf(float(f)) / 2
                s += -x - mp.log(-mp.expm1(-2 * x))
        if 'r' in kinds:
            s += sum(mp.log(mp.mpf(float(m))) for m in M[a]) / 2 - mp.log(mp.mpf(float(land.sigma[a])))
            s -= mp.mpf(3) / 2 * mp.log(b)
        out.append(s)
    return out


def mp_results(land, kinds, T):
    """(P list, C) at one temperature by brute force: C from numerical differentiation of lnZ."""
    import mpmath as mp
    with mp.workdps(60):
        kb = mp.mpf('8.617333262145e-5')
        b0 = 1 / (kb * mp.mpf(float(T)))

        def lnz(b):
            t = mp_logZ_terms(land, kinds, b)
            m = max(t)
            return m + mp.log(sum(mp.exp(x - m) for x in t))
        t = mp_logZ_terms(land, kinds, b0)
        m = max(t)
        z = sum(mp.exp(x - m) for x in t)
        P = [float(mp.exp(x - m) / z) for x in t]
        h = b0 * mp.mpf('1e-12')
        d2 = (lnz(b0 + h) - 2 * lnz(b0) + lnz(b0 - h)) / h ** 2
        return P, float(b0 ** 2 * d2)
