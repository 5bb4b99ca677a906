"""Shared helpers of the harnesses (work with symbolic and with real numbers)."""
import itertools
import math


def vec(c, name, dim, lo, hi):
    return [c.real(f"{name}{i}", lo, hi) for i in range(dim)]


def mat(c, name, dim, lo, hi):
    return [[c.real(f"{name}{i}{j}", lo, hi) for j in range(dim)] for i in range(dim)]


def ivec(c, name, dim, lo, hi):
    return [c.int(f"{name}{i}", lo, hi) for i in range(dim)]


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    s = 0
    for j in range(n):
        minor = [[r[k] for k in range(n) if k != j] for r in m[1:]]
        s = s + (-1) ** j * m[0][j] * det(minor)
    return s


def regular(c, m, eps=0.125):
    """Assume the rows of m span a cell of volume >= eps."""
    d = det(m)
    c.assume(c.or_(d >= eps, d <= -eps))
    return d


def comb(coef, rows):
    """sum_i coef[i] * rows[i]"""
    dim = len(rows[0])
    out = []
    for j in range(dim):
        s = 0
        for x, r in zip(coef, rows):
            s = s + x * r[j]
        out.append(s)
    return out


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def norm2(a):
    return dot(a, a)


def rows(x):
    """Nested python lists of an array-like."""
    return x.tolist() if hasattr(x, "tolist") else [list(r) for r in x]


S3 = math.sqrt(3)

__all__ = ["vec", "mat", "ivec", "det", "regular", "comb", "dot", "sub", "add", "norm2", "rows",
           "itertools", "math", "S3"]
