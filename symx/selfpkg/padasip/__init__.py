"""Small functions, some of them wrong, on which check.py --selftest tries the machinery."""
import math

import numpy as np


def magnitude(x):
    if x < 0:
        return -x
    return x


def signs(x):
    out = np.zeros(len(x))
    for i, v in enumerate(x):
        if v > 0:
            out[i] = 1
        elif v < 0:
            out[i] = -1
    return out


def signs_wrong(x):
    return np.array([1. if v >= 0 else -1. for v in x])


def tanh(z):
    t = np.exp(-2 * abs(z))
    return np.sign(z) * (1 - t) / (1 + t)


def tanh_wrong(z):
    t = np.exp(-2 * abs(z))
    return (1 - t) / (1 + t)


def decibel(x):
    return sum(10 * math.log10(v * v) for v in x)


def root(x):
    return np.sqrt(x ** 2 + 2 * x + 1)


def solve(A, b):
    return np.linalg.solve(A, b)


def windows(x, m):
    c = np.cumsum(np.concatenate(([0], x)))
    return (c[m:] - c[:-m]) / m


def windows_wrong(x, m):
    c = np.cumsum(np.concatenate(([0], x)))
    return (c[m:] - c[:-m])[:-1] / m


def rare(x):
    if x * x > 1000000 and x < 0:
        return 2 * x
    return x


def aliased(x):
    x += 1
    return x


def spectrum(x):
    return np.fft.fft(x)
