"""Independent GF(2) reference (concrete matrices; right-hand sides may be symbolic)."""
from __future__ import annotations

import itertools

import numpy as np

from symx import S, s_and, s_or, s_not


def rref(m):
    m = [[int(x) & 1 for x in r] for r in m]
    piv, r = [], 0
    if not m:
        return [], []
    for c in range(len(m[0])):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        for i in range(len(m)):
            if i != r and m[i][c]:
                m[i] = [a ^ b for a, b in zip(m[i], m[r])]
        piv.append(c)
        r += 1
        if r == len(m):
            break
    return m[:r], piv


def rank(m):
    return len(rref(m)[0])


def nullspace(m, n=None):
    m = [list(r) for r in m]
    n = n if n is not None else len(m[0])
    rows, piv = rref(m)
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [0] * n
        v[f] = 1
        for r, p in zip(rows, piv):
            if r[f]:
                v[p] = 1
        out.append(v)
    return out


def dot(row, v):
    """Parity of row.v; v may contain symbolic bits."""
    s = 0
    for a, b in zip(row, v):
        if isinstance(a, S):
            s = s + a * b
        elif int(a) & 1:
            s = b + s if isinstance(b, S) else s + (b if isinstance(b, S) else int(b))
    return s % 2


def matvec(m, v):
    return [dot(r, v) for r in m]


def in_rowspace(m, v, n):
    """Condition: v is a GF(2) sum of rows of the concrete matrix m."""
    return s_and(*[S.of(dot(k, v)) == 0 for k in nullspace(m, n)]) if True else None


def span(m):
    rows, _ = rref(m)
    for cs in itertools.product((0, 1), repeat=len(rows)):
        v = [0] * len(rows[0]) if rows else []
        for c, r in zip(cs, rows):
            if c:
                v = [a ^ b for a, b in zip(v, r)]
        yield v


def in_rowspace_sym(m, v):
    """Both may be symbolic: OR over all combinations of rows."""
    n = len(v)
    conds = []
    for cs in itertools.product((0, 1), repeat=len(m)):
        acc = [0] * n
        for c, r in zip(cs, m):
            if c:
                acc = [(a + b) % 2 for a, b in zip(acc, r)]
        conds.append(s_and(*[(S.of(a) + b) % 2 == 0 for a, b in zip(acc, v)]))
    return s_or(*conds)


def rank_sym(m):
    """Rank of a small symbolic matrix as S: log2 of #combos summing to zero = rows - rank."""
    rows = [list(r) for r in m]
    zero = 0
    for cs in itertools.product((0, 1), repeat=len(rows)):
        acc = [0] * (len(rows[0]) if rows else 0)
        for c, r in zip(cs, rows):
            if c:
                acc = [(a + b) % 2 for a, b in zip(acc, r)]
        zero = zero + s_and(*[s_not(a) for a in acc])
    # zero = 2^(rows-rank)
    return zero


def symp(a, b, n):
    """Symplectic product of (x|z) vectors."""
    return (dot(a[:n], b[n : 2 * n]) + dot(a[n : 2 * n], b[:n])) % 2
