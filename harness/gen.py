"""Generators of inputs. Every random choice comes from one numpy generator."""
import numpy as np


def rng(seed, *salt):
    return np.random.default_rng([seed] + [abs(hash_str(str(s))) for s in salt])


def hash_str(s):
    h = 2166136261
    for c in s.encode():
        h = ((h ^ c) * 16777619) & 0xFFFFFFFF
    return h


def scalar_data(r, n, scale=1.0):
    """Scalar cell values: random, sign changing, plateaus, jumps, spikes, dyadic, nearly constant."""
    kind = r.integers(0, 9)
    if kind == 0:
        v = r.uniform(-1, 1, n)
    elif kind == 1:
        v = r.integers(-4, 5, n) / 4
    elif kind == 2:  # jump
        v = np.where(np.arange(n) < r.integers(1, n + 1), r.uniform(-1, 1), r.uniform(-1, 1))
    elif kind == 3:  # spike
        v = np.full(n, r.uniform(-1, 1))
        v[r.integers(0, n)] = r.uniform(-1, 1)
    elif kind == 4:
        v = r.uniform(-1, -0.1, n)
    elif kind == 5:
        v = r.uniform(0.1, 1, n)
    elif kind == 6:  # smooth
        v = np.sin(2 * np.pi * (np.arange(n) + r.uniform()) / n) + r.uniform(-0.5, 0.5)
    elif kind == 7:  # nearly constant
        v = r.choice([-0.75, 0.25, 1.0]) + float(r.choice([1e-4, 1e-7, 1e-8, 2e-9])) * r.uniform(-1, 1, n)
    else:  # plateaus including zeros
        v = r.choice([-1.0, -0.5, 0.0, 0.0, 0.5, 1.0], n)
    return np.asarray(v, float) * scale


def swe_data(r, n, dry=0.0, calm=False):
    """Heights and discharges, shape (n, 2)."""
    kind = r.integers(0, 7)
    if kind == 0:
        h = r.uniform(0.5, 2, n)
    elif kind == 1:  # dam break
        h = np.where(np.arange(n) < r.integers(1, n + 1), r.uniform(0.2, 2), r.uniform(0.2, 2))
    elif kind == 2:
        h = r.integers(2, 9, n) / 4
    elif kind == 3:
        h = 1 + 0.3 * np.sin(2 * np.pi * (np.arange(n) + r.uniform()) / n)
    elif kind == 4:  # spike
        h = np.full(n, r.uniform(0.5, 1.5))
        h[r.integers(0, n)] = r.uniform(0.3, 3)
    elif kind == 5:  # nearly constant
        h = r.choice([0.5, 1.0, 1.75]) + float(r.choice([1e-4, 1e-7, 1e-8, 2e-9])) * r.uniform(-1, 1, n)
    else:
        h = r.uniform(0.01, 1, n)
    h = np.asarray(h, float)
    v = np.zeros(n) if calm else {0: r.uniform(-3, 3, n), 1: r.uniform(-0.2, 0.2, n),
                                  2: np.full(n, r.uniform(-2, 2)), 3: r.choice([-1.0, 0.0, 0.0, 1.0], n)}[int(r.integers(0, 4))]
    if dry:
        h[r.uniform(size=n) < dry] = 0.0
    return np.stack([h, h * v], axis=1)


def bottom(r, n, amplitude=0.3, periodic=False):
    kind = r.integers(0, 4)
    if kind == 0:
        b = r.uniform(0, amplitude, n)
    elif kind == 1:
        b = np.where(np.arange(n) < r.integers(1, n + 1), 0.0, amplitude)
    elif kind == 2:
        b = amplitude * np.exp(-((np.arange(n) - n / 2) ** 2) / 2)
    else:
        b = r.integers(0, 5, n) / 4 * amplitude
    b = np.asarray(b, float)
    if periodic:
        b[-1] = b[0]
    return b


def mix(k, m, salt=0):
    """Running through 0..m-1 in blocks of m, in an order of its own for every m and
    salt: choices derived from the same counter are balanced but independent."""
    block, i = divmod(int(k), m)
    return int(np.random.default_rng([7919, m, hash_str(str(salt)), block]).permutation(m)[i])
