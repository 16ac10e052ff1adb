"""Workload generators: landscapes (sets of minima) and temperature grids.

Swarm style: every case first draws which features are present (degeneracy, offsets,
stiff or soft modes, linear isomers, integer dtypes, odd memory layouts, ...), so that
rare combinations are reached often.
"""
import numpy as np

CONTRIBUTION_SETS = ['e', 's', 'c', 'q', 'r', 'ec', 'sc', 'eq', 'sq', 'er', 'sr', 'cr', 'qr',
                     'ecr', 'scr', 'eqr', 'sqr']


# Integers of 8 and 16 bits as well (set by the properties that are about the
# quantities concerned; one careless logarithm should not alarm every check)
SMALL = set()


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def layout(rng, a, ro=True):
    """Same values in another memory layout / read-only."""
    mode = rng.integers(6)
    if mode == 1 and a.ndim > 1:
        a = np.asfortranarray(a)
    elif mode == 2:
        big = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
        big[::2] = a
        a = big[::2]
    elif mode == 3:
        a = a[::-1].copy()[::-1]
    else:
        a = a.copy()
    if ro and rng.random() < 0.3:
        a.flags.writeable = False
    return a


def sizes(rng, heavy=False):
    r = rng.random()
    if r < 0.08:
        N = 1
    elif r < 0.35:
        N = int(rng.integers(2, 4))
    elif r < 0.85:
        N = int(rng.integers(3, 13))
    elif r < 0.97:
        N = int(rng.integers(13, 40))
    elif r < 0.995:
        N = int(rng.integers(40, 150))
    else:
        N = int(rng.integers(150, 700))
    r = rng.random()
    if r < 0.08:
        D = 1
    elif r < 0.3:
        D = int(rng.integers(2, 7))
    elif r < 0.75:
        D = pick(rng, [3, 6, 9, 9, 12, 15, 21, 30])
    elif r < 0.95 or N > 12:
        D = int(rng.integers(7, 60))
    else:
        D = int(rng.integers(60, 400))
    return N, D


def energies(rng, N):
    mode = pick(rng, ['cluster', 'cluster', 'levels', 'near', 'wide', 'equal', 'int', 'negative', 'ladder'])
    if mode == 'cluster':
        e = np.cumsum(rng.exponential(pick(rng, [0.005, 0.03, 0.1]), N))
    elif mode == 'levels':
        e = rng.choice(rng.random(max(1, N // 2)) * pick(rng, [0.02, 0.3]), N)
    elif mode == 'near':
        e = rng.random(N) * 10. ** rng.uniform(-8, -3)
    elif mode == 'wide':
        e = rng.random(N) * 10. ** rng.uniform(0, 2)
    elif mode == 'equal':
        e = np.full(N, rng.normal())
    elif mode == 'int':
        e = rng.integers(-3, 4, N)
    elif mode == 'negative':
        e = -rng.exponential(0.2, N)
    else:
        e = np.arange(N) * 10. ** rng.uniform(-4, -1)
    if mode != 'int':
        if rng.random() < 0.5:
            e = e + pick(rng, [-4433.12, -1.0, 250., 1e-3, -75000.])
        elif rng.random() < 0.2:    # an exact zero that need not be the lowest
            e = e - e[int(rng.integers(N))]
    e = np.array(e)
    if mode != 'int' and rng.random() < 0.08:
        e = e.astype(np.longdouble)
    if rng.random() < 0.75:
        rng.shuffle(e)
    return e, mode


def spins(rng, N):
    mode = rng.integers(7)
    if mode == 6:       # averages over configurations
        return np.round(rng.uniform(1, pick(rng, [6, 30]), N), pick(rng, [1, 2, 3, 12]))
    if mode == 0:
        return np.ones(N)
    if mode == 1:
        return rng.integers(1, 12, N)
    if mode == 2:
        return rng.integers(1, 12, N).astype(float)
    if mode == 3:
        return rng.integers(1, pick(rng, [12, 45]), N).astype(pick(rng, [np.uint8, np.int8, np.int16, np.int32] if 'spins' in SMALL else [np.int32, np.uint32]))
    if mode == 4:
        return rng.integers(1, 60, N) * 1.
    return rng.choice([1., 3., 5.], N)


def frequencies(rng, N, D):
    mode = pick(rng, ['metal', 'metal', 'organic', 'soft', 'const', 'int', 'scaled', 'permuted', 'stiff',
                      'pairs', 'sorted'])
    if mode in ('metal', 'sorted'):
        f = rng.uniform(0.3, 8., (N, D))
        if mode == 'sorted':
            f = np.sort(f, axis=1)
    elif mode == 'organic':
        f = rng.uniform(5., 110., (N, D))
    elif mode == 'soft':
        f = 10. ** rng.uniform(pick(rng, [-3, -3, -8]), 1.3, (N, D))
    elif mode == 'const':
        f = np.full((N, D), 10. ** rng.uniform(-1, 2))
    elif mode == 'int':
        f = rng.integers(1, 20, (N, D))
    elif mode == 'scaled':
        f = rng.uniform(0.5, 20., (1, D)) * rng.uniform(0.9, 1.1, (N, 1))
    elif mode == 'permuted':
        base = rng.uniform(0.5, 20., D)
        f = np.array([rng.permutation(base) for _ in range(N)])
    elif mode == 'stiff':
        f = rng.uniform(60., 130., (N, D))
    else:
        f = np.repeat(rng.uniform(1., 40., (N, (D + 1) // 2)), 2, axis=1)[:, :D]
    if mode != 'int' and rng.random() < 0.15:
        # a few modes of another size
        odd = rng.random((N, D)) < pick(rng, [0.05, 0.3])
        f = np.where(odd, 10. ** rng.uniform(-9, 3, (N, D)), f)
    elif mode != 'int' and D > 3 and rng.random() < 0.05:
        # the first few modes are soft, as those of rigid motions would be
        k = min(D, pick(rng, [1, 3, 5, 6, 6, 7]))
        f[:, :k] = 10. ** rng.uniform(-6, pick(rng, [-2, -1]), (N, k))
    if mode != 'int' and rng.random() < 0.2:
        f = f.astype(np.longdouble)
    return np.array(f), mode


def moments_(rng, N):
    """All moments well above zero, or linear isomers with (noisy) null moments."""
    scale = 10. ** rng.uniform(0, 4)
    m = np.sort(rng.uniform(0.1, 3., (N, 3)), axis=1) * scale
    mode = pick(rng, ['plain', 'plain', 'linear', 'noisy', 'top', 'unit', 'int', 'unsorted', 'wide', 'planar', 'thin'])
    if mode in ('linear', 'noisy'):
        lin = rng.random(N) < (1. if rng.random() < 0.3 else 0.4)
        m[lin, 1] = m[lin, 2]
        m[lin, 0] = 0. if mode == 'linear' else (rng.normal(size=lin.sum()) * 1e-15 * m[lin, 2])
    elif mode == 'top':
        m[:, 1] = m[:, 0]
    elif mode == 'unit':
        m = np.ones((N, 3))
    elif mode == 'int':
        m = rng.integers(1, 500, (N, 3))
    elif mode == 'unsorted':
        m = rng.permuted(m, axis=1)
    elif mode == 'planar':
        m[:, 2] = m[:, 0] + m[:, 1]
    elif mode == 'thin':    # nearly linear
        m[:, 0] *= 10. ** rng.uniform(-4, -1, N)
        m[:, 2] = m[:, 1] + m[:, 0] * rng.uniform(0, 1, N)
    elif mode == 'wide':
        m = m * 10. ** (rng.uniform(-1, 1, (N, 1)) * pick(rng, [1, 1, 4]))
    return np.array(m), mode


def orders(rng, N):
    s = rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 8, 10, 12, 24, 60], N)
    if rng.random() < 0.1:      # of particles or of rings of many units
        s = np.where(rng.random(N) < 0.5, rng.integers(61, 256, N), s)
    if rng.random() < 0.15:
        return s.astype(pick(rng, [np.uint8, np.int16, np.int32] if 'orders' in SMALL else [np.int32, np.uint32]))
    return s.astype(float) if rng.random() < 0.5 else s


class Landscape:
    """A set of N minima and the contributions to include (kinds: subset of e s c q r)."""

    def __init__(self, kinds, E, g, freq, moments, sigma, tags=()):
        self.kinds = kinds
        self.E, self.g, self.freq, self.moments, self.sigma = E, g, freq, moments, sigma
        self.tags = tuple(tags)
        self.N = len(E)

    def replace(self, **kw):
        d = dict(kinds=self.kinds, E=self.E, g=self.g, freq=self.freq, moments=self.moments,
                 sigma=self.sigma, tags=self.tags)
        d.update(kw)
        return Landscape(**d)

    def take(self, idx):
        return self.replace(E=self.E[idx], g=self.g[idx], freq=self.freq[idx],
                            moments=self.moments[idx], sigma=self.sigma[idx])

    def arrays(self):
        return {'E': self.E, 'g': self.g, 'freq': self.freq, 'moments': self.moments,
                'sigma': self.sigma}

    def one(self, kind):
        """A contribution object of the library."""
        import occuprob as op
        if kind == 's':
            return op.ElectronicPF(self.E, self.g)
        if kind == 'e':
            return op.ElectronicPF(self.E, np.ones_like(self.E))
        if kind == 'c':
            return op.ClassicalHarmonicPF(self.freq)
        if kind == 'q':
            return op.QuantumHarmonicPF(self.freq)
        if kind == 'r':
            return op.RotationalPF(self.sigma, self.moments)
        raise ValueError(kind)

    def parts(self, kinds=None):
        return [self.one(k) for k in (self.kinds if kinds is None else kinds)]

    def build(self, kinds=None):
        import occuprob as op
        sa = op.SuperpositionApproximation()
        sa.add_partition_functions(self.parts(kinds))
        return sa

    def describe(self):
        return {'kinds': self.kinds, 'tags': list(self.tags), 'N': self.N, 'D': self.freq.shape[1],
                'E': self.E, 'g': self.g, 'freq': self.freq, 'moments': self.moments,
                'sigma': self.sigma}


def landscape(rng, kinds=None, max_n=None, max_d=None):
    if kinds is None:
        kinds = pick(rng, CONTRIBUTION_SETS)
    N, D = sizes(rng)
    if max_n:
        N = min(N, max_n)
    if max_d:
        D = min(D, max_d)
    if 'q' in kinds and N * D > 1500:
        D = max(1, 1500 // N)
    E, em = energies(rng, N)
    f, fm = frequencies(rng, N, D)
    m, mm = moments_(rng, N)
    g, s = spins(rng, N), orders(rng, N)
    # exact ties of whole minima
    if N > 1 and rng.random() < 0.2:
        i, j = rng.choice(N, 2, replace=False)
        E, f, m = E.copy(), f.copy(), m.copy()
        E[i], f[i], m[i] = E[j], f[j], m[j]
    return Landscape(kinds, layout(rng, E), layout(rng, g), layout(rng, f), layout(rng, m),
                     layout(rng, s), (em, fm, mm))


def temperatures(rng, zero=True, inf=False, small=True, max_m=None, N=None, D=None):
    """1D grid of temperatures >= 0 in arbitrary order; (T, mode)."""
    mode = pick(rng, ['cli', 'int', 'int32', 'log', 'log', 'uniform', 'single', 'two', 'equalN', 'equalD',
                      'near', 'tight', 'cold', 'hot', 'special', 'repeated', 'desc'])
    cap = max_m or 400
    if mode == 'cli':
        T = np.arange(rng.integers(0, 2), rng.integers(5, 600), pick(rng, [1., 1., 5., 10.]))
    elif mode in ('int', 'int32'):
        T = np.arange(int(rng.integers(0, 3)), int(rng.integers(4, 1001)), int(rng.integers(1, 40)))
        if mode == 'int32':
            T = T.astype(pick(rng, [np.int32, np.int32, np.int16, np.uint16, np.uint64, np.uint32] if 'temperatures' in SMALL else [np.int32, np.uint64]))
        elif 'temperatures' in SMALL and rng.random() < 0.1:
            T = T[T < 127].astype(pick(rng, [np.uint8, np.int8]))
    elif mode == 'log':
        T = 10. ** rng.uniform(-1, 4.5, int(rng.integers(2, 40)))
    elif mode == 'uniform':
        T = rng.uniform(0, 1000, int(rng.integers(2, 60)))
    elif mode == 'single':
        T = np.array([pick(rng, [0., 1., 300., 273.15, float(rng.uniform(0.1, 2000))])])
    elif mode == 'two':
        T = np.array([0., rng.uniform(1, 1000)])
    elif mode == 'equalN':
        T = rng.uniform(0.5, 1000, N or 5)
    elif mode == 'equalD':
        T = rng.uniform(0.5, 1000, D or 9)
    elif mode == 'near':
        T = rng.uniform(10, 600) + np.arange(8) * 1e-6
    elif mode == 'tight':
        T = 10. ** rng.uniform(-3 if small else -1, 2.5) * (1 + np.arange(int(rng.integers(2, 12))) * 10. ** rng.uniform(-5, 0))
    elif mode == 'cold':
        T = 10. ** rng.uniform(-4 if small else -1, 0.7, int(rng.integers(1, 20)))
    elif mode == 'hot':
        T = 10. ** rng.uniform(3, 6, int(rng.integers(1, 20)))
    elif mode == 'special':
        T = np.array([0., 1e-3, 1., 2., 10., 100., 273.15, 298.15, 300., 500., 1000., 5000.])
        T = T[rng.random(T.size) < 0.6]
        if T.size == 0:
            T = np.array([298.15])
    elif mode == 'repeated':
        T = rng.choice(rng.uniform(0.5, 800, 4), 12)
    else:
        T = np.linspace(900, 0.5, int(rng.integers(3, 30)))
    T = T[:cap]
    if not zero:
        T = np.where(T > 0, T, 1).astype(T.dtype)
    elif T.dtype.kind == 'f' and rng.random() < 0.25:
        T = T.copy()
        T[rng.integers(T.size)] = 0.
    if inf and T.dtype.kind == 'f' and rng.random() < 0.3:
        T = T.copy()
        T[rng.integers(T.size)] = np.inf
    if mode not in ('near', 'tight', 'single') and rng.random() < 0.4:
        T = rng.permutation(T)
    return layout(rng, T), mode


def crowd(rng, kinds=None):
    """(landscape, temperatures) with thousands of minima."""
    kinds = kinds or pick(rng, ['s', 'c', 'sc', 'sr', 'e', 'r', 'ec', 'scr'])
    N = int(round(10. ** rng.uniform(3.3, 4.85)))
    D, M = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    T = 10. ** rng.uniform(0.5, 3.2, M)
    E = float(rng.normal()) * pick(rng, [0., 1., 5000.]) + 8.6e-5 * float(T.max()) * rng.uniform(0, 9, N)
    f = 10. ** rng.uniform(-0.5, 1.3, D) * (1 + rng.uniform(-0.5, 0.5, (N, D)))
    return Landscape(kinds, E, spins(rng, N), f, moments_(rng, N)[0], orders(rng, N), ('crowd',)), T


def bulk(rng, kinds=None, zero=True, most=1.):
    """(landscape, temperatures) with very many minima, modes or temperatures.

    Blocked, chunked or specialised code for large inputs starts at some size."""
    if kinds is None:
        kinds = pick(rng, CONTRIBUTION_SETS)

    def big(lo, hi):
        return int(round(np.exp(rng.uniform(np.log(lo), np.log(max(lo + 1, hi * most))))))
    shape = pick(rng, ['N', 'N', 'D', 'M', 'M', 'NM', 'all'])
    N, D, M = int(rng.integers(2, 5)), int(rng.integers(1, 7)), int(rng.integers(1, 5))
    if shape == 'N':
        N = big(100, 2600)
    elif shape == 'D':
        D = big(100, 2600)
    elif shape == 'M':
        M, D = big(300, 20000), int(rng.integers(1, 4))
        N = int(rng.integers(1, 4))
    elif shape == 'NM':
        N, M, D = big(50, 500), big(50, 500), int(rng.integers(1, 3))
    else:
        N, D, M = big(12, 60), big(12, 60), big(12, 60)
    T = 10. ** rng.uniform(-0.5, 3.5, M)
    if rng.random() < 0.4:
        T = np.sort(T)
    if zero and rng.random() < 0.4:
        T[int(rng.integers(M))] = 0.
    if rng.random() < 0.25:
        T = np.arange(M) * pick(rng, [1., 0.25, 5.]) + (0. if zero else 0.5)
    kT = 8.6e-5 * float(np.median(T))
    E = float(rng.normal()) * pick(rng, [0., 1., 5000.]) + kT * rng.uniform(0, 12, N)
    base = 10. ** rng.uniform(-0.5, 1.6, D)
    f = base * (1 + rng.uniform(-1, 1, (N, D)) * pick(rng, [0.1, 0.6, 0.9]) / np.sqrt(D))
    m, _ = moments_(rng, N)
    return Landscape(kinds, layout(rng, E), layout(rng, spins(rng, N)), layout(rng, f), layout(rng, m),
                     layout(rng, orders(rng, N)), ('bulk', shape)), layout(rng, T)
