"""Minimum-weight queries over GF(2) affine spaces, decided by z3."""
from __future__ import annotations

import time

import z3

import gf2


def xor_chain(s, terms, rhs, tag):
    """s |= XOR(terms) == rhs, cut into pieces of four literals (clauses, no nested XOR)."""
    terms = list(terms)
    k = 0
    while len(terms) > 4:
        a, rest = terms[:3], terms[3:]
        t = z3.Bool(f"{tag}_{k}")
        k += 1
        _xor_clauses(s, a + [t], 0)
        terms = [t] + rest
    _xor_clauses(s, terms, rhs)


def _xor_clauses(s, v, rhs):
    n = len(v)
    if n == 0:
        if rhs:
            s.add(z3.BoolVal(False))
        return
    for m in range(1 << n):
        # forbid assignments of the wrong parity
        if bin(m).count("1") % 2 != rhs:
            s.add(z3.Or(*[z3.Not(v[i]) if (m >> i) & 1 else v[i] for i in range(n)]))


def solver():
    return z3.SolverFor("QF_FD")


def problem(checks, logicals, n, tag="e"):
    """Vectors with zero syndrome that anticommute with at least one of the given (dual) logicals."""
    s = solver()
    e = [z3.Bool(f"{tag}{i}") for i in range(n)]
    for i, r in enumerate(checks):
        xor_chain(s, [e[j] for j in range(n) if r[j]], 0, f"c{i}")
    odd = []
    for i, r in enumerate(logicals):
        o = z3.Bool(f"odd{i}")
        odd.append(o)
        xor_chain(s, [e[j] for j in range(n) if r[j]] + [o], 0, f"l{i}")
    s.add(z3.Or(*odd))
    return s, e


def dual_logicals(own, other, n):
    """A basis of ker(own)/rowspace(other): operators a member of ker(other) must anticommute with to be outside rowspace(own)."""
    base, _ = gf2.rref(other)
    base = [list(r) for r in base]
    out = []
    rk = len(base)
    for v in gf2.nullspace(own, n):
        if gf2.rank(base + [v]) > rk:
            base.append(v)
            rk += 1
            out.append(v)
    return out
