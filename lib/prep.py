"""Prepared-state instances shared by the state-preparation checks."""
from __future__ import annotations

import functools
import signal

import numpy as np

import gf2
from codescommon import code


def rows(m):
    return [[int(x) & 1 for x in r] for r in np.asarray(m)]


def state_groups(c, zero):
    """(X-type, Z-type) stabilizer group generators of the logical all-zero / all-plus state, from the check matrices alone."""
    hx, hz = rows(c.Hx), rows(c.Hz)
    if zero:
        return hx, gf2.nullspace(hx, c.n)
    return gf2.nullspace(hz, c.n), hz


class Timeout(Exception):
    pass


def with_timeout(f, sec):
    def hd(*_):
        raise Timeout

    old = signal.signal(signal.SIGALRM, hd)
    signal.alarm(sec)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def build(name, zero, prep, ver, full, sec=300):
    """(StatePrepCircuit, circuit) by the library's synthesis functions."""
    import mqt.qecc.ft_stateprep.state_prep as sp

    c = code(name)
    if prep == "heuristic":
        s = sp.heuristic_prep_circuit(c, optimize_depth=True, zero_state=zero)
    elif prep == "heuristic-serial":
        s = sp.heuristic_prep_circuit(c, optimize_depth=False, zero_state=zero)
    elif prep == "depth":
        s = sp.depth_optimal_prep_circuit(c, zero_state=zero, max_timeout=30)
    elif prep == "gate":
        s = sp.gate_optimal_prep_circuit(c, zero_state=zero, max_timeout=30)
    elif prep == "padded":  # a user's circuit: starts with CNOTs that act on |0>|0>
        from qiskit import QuantumCircuit

        b = sp.heuristic_prep_circuit(c, zero_state=zero)
        hs = {b.circ.find_bit(i.qubits[0]).index for i in b.circ.data if i.operation.name == "h"}
        free = [i for i in range(c.n) if i not in hs]
        qc = QuantumCircuit(c.n)
        for i in range(len(free) - 1):
            qc.cx(free[i], free[i + 1])
        qc.compose(b.circ, inplace=True)
        s = sp.StatePrepCircuit(qc, c, zero)
    else:
        raise ValueError(prep)
    if s is None:
        return None, None
    if ver == "none":
        return s, s.circ
    if ver == "heuristic":
        return s, sp.heuristic_verification_circuit(s, full_fault_tolerance=full)
    if ver == "heuristic-noleaders":
        return s, sp.heuristic_verification_circuit(s, find_coset_leaders=False, full_fault_tolerance=full)
    if ver == "optimal":
        return s, sp.gate_optimal_verification_circuit(s, max_timeout=30, full_fault_tolerance=full)
    if ver == "naive":
        return s, sp.naive_verification_circuit(s)
    raise ValueError(ver)
