"""Symbolic semantics of the circuits built by the library.

GF(2)-affine forms over solver variables are Python integers used as bit masks: bit 0 is the constant 1, bit i is
variable i. XOR of forms is '^'. Circuits are Clifford, so stabilizer rows and Pauli frames have concrete shape and
affine-form signs; nothing is enumerated, the fault, outcome and sign variables stay symbolic until the solver.
"""
from __future__ import annotations

import numpy as np
import z3

import dist
import gf2


class Vars:
    def __init__(self):
        self.names = ["1"]

    def new(self, name):
        self.names.append(name)
        return 1 << (len(self.names) - 1)


def ops_of(circ):
    """qiskit circuit -> list of (name, qubit indices, clbit indices, condition)."""
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    out = []
    for ins in circ.data:
        op = ins.operation
        cond = getattr(op, "condition", None)
        if cond is not None:
            reg, val = cond
            try:
                bits = [ci[b] for b in reg]
            except TypeError:
                bits = [ci[reg]]
            cond = (bits, int(val))
        out.append((op.name, [qi[q] for q in ins.qubits], [ci[c] for c in ins.clbits], cond))
    return out


class Frame:
    """Propagates Pauli errors: x[q], z[q] are affine forms (error parts), meas[c] the flip of classical bit c."""

    def __init__(self, n, m):
        self.x, self.z, self.m = [0] * n, [0] * n, [0] * m

    def gate(self, name, q, c=()):
        x, z = self.x, self.z
        if name == "h":
            x[q[0]], z[q[0]] = z[q[0]], x[q[0]]
        elif name in ("cx", "cnot"):
            x[q[1]] ^= x[q[0]]
            z[q[0]] ^= z[q[1]]
        elif name == "cz":
            z[q[1]] ^= x[q[0]]
            z[q[0]] ^= x[q[1]]
        elif name in ("s", "sdg"):
            z[q[0]] ^= x[q[0]]
        elif name == "swap":
            for v in (x, z):
                v[q[0]], v[q[1]] = v[q[1]], v[q[0]]
        elif name in ("x", "y", "z", "barrier", "id"):
            pass
        elif name == "measure":
            self.m[c[0]] = x[q[0]]
            z[q[0]] = 0
        elif name == "reset":
            x[q[0]] = z[q[0]] = 0
        else:
            raise NotImplementedError(name)


class Tableau:
    """Stabilizer state with affine-form signs (destabilizers + stabilizers, Aaronson-Gottesman)."""

    def __init__(self, n):
        self.n = n
        self.X = np.zeros((2 * n, n), dtype=np.uint8)
        self.Z = np.zeros((2 * n, n), dtype=np.uint8)
        for i in range(n):
            self.X[i, i] = 1
            self.Z[n + i, i] = 1
        self.s = [0] * (2 * n)  # affine forms

    def flip(self, rows, form=1):
        for i in np.flatnonzero(rows):
            self.s[i] ^= form

    def gate(self, name, q):
        X, Z = self.X, self.Z
        a = q[0]
        if name == "h":
            self.flip(X[:, a] & Z[:, a])
            X[:, a], Z[:, a] = Z[:, a].copy(), X[:, a].copy()
        elif name == "s":
            self.flip(X[:, a] & Z[:, a])
            Z[:, a] ^= X[:, a]
        elif name == "sdg":
            self.flip(X[:, a] & (Z[:, a] ^ 1))
            Z[:, a] ^= X[:, a]
        elif name == "x":
            self.flip(Z[:, a])
        elif name == "z":
            self.flip(X[:, a])
        elif name == "y":
            self.flip(X[:, a] ^ Z[:, a])
        elif name in ("cx", "cnot"):
            b = q[1]
            self.flip(X[:, a] & Z[:, b] & (X[:, b] ^ Z[:, a] ^ 1))
            X[:, b] ^= X[:, a]
            Z[:, a] ^= Z[:, b]
        elif name == "cz":
            self.gate("h", [q[1]])
            self.gate("cx", q)
            self.gate("h", [q[1]])
        elif name == "swap":
            b = q[1]
            for v in (X, Z):
                v[:, [a, b]] = v[:, [b, a]]
        elif name in ("id", "barrier"):
            pass
        else:
            raise NotImplementedError(name)

    def pauli(self, x, z, form):
        """Apply the Pauli (x|z) raised to the affine form."""
        anti = (self.Z @ np.asarray(x, dtype=np.uint8) + self.X @ np.asarray(z, dtype=np.uint8)) % 2
        self.flip(anti, form)

    def _g(self, h, i):
        """Exponent of i when multiplying row i into row h (h <- i * h), mod 4, without the affine signs."""
        x1, z1, x2, z2 = (a.astype(int) for a in (self.X[i], self.Z[i], self.X[h], self.Z[h]))
        return int((x1 * z1 * (z2 - x2) + x1 * (1 - z1) * z2 * (2 * x2 - 1) + (1 - x1) * z1 * x2 * (1 - 2 * z2)).sum()) % 4

    def rowmult(self, h, i):
        g = self._g(h, i)
        self.s[h] ^= self.s[i] ^ (1 if g == 2 else 0)
        self.X[h] ^= self.X[i]
        self.Z[h] ^= self.Z[i]

    def value(self, x, z):
        """Affine form of the outcome of measuring the Hermitian Pauli (x|z) (i^{x.z} phase convention: Y positive); None if random."""
        x, z = np.asarray(x, dtype=np.uint8), np.asarray(z, dtype=np.uint8)
        n = self.n
        anti = (self.X @ z + self.Z @ x) % 2
        if anti[n:].any():
            return None
        # product of the stabilizers whose destabilizer anticommutes
        px, pz, ps, ph = np.zeros(n, dtype=int), np.zeros(n, dtype=int), 0, 0
        for i in np.flatnonzero(anti[:n]):
            x1, z1 = self.X[n + i].astype(int), self.Z[n + i].astype(int)
            ph += int((x1 * z1 * (pz - px) + x1 * (1 - z1) * pz * (2 * px - 1) + (1 - x1) * z1 * px * (1 - 2 * pz)).sum())
            px, pz, ps = px ^ x1, pz ^ z1, ps ^ self.s[n + i]
        assert (px == x).all() and (pz == z).all()
        assert ph % 2 == 0
        return ps ^ ((ph // 2) % 2)

    def measure(self, q, fresh):
        """Measure Z_q; returns the affine form of the outcome; fresh() names a new random outcome."""
        n = self.n
        z = np.zeros(n, dtype=np.uint8)
        z[q] = 1
        p = next((i for i in range(n, 2 * n) if self.X[i, q]), None)
        if p is None:
            return self.value(np.zeros(n), z), False
        for i in range(2 * n):
            if i != p and self.X[i, q]:
                if i < n:
                    # destabilizer signs are irrelevant
                    self.X[i] ^= self.X[p]
                    self.Z[i] ^= self.Z[p]
                else:
                    self.rowmult(i, p)
        self.X[p - n], self.Z[p - n], self.s[p - n] = self.X[p].copy(), self.Z[p].copy(), self.s[p]
        self.X[p], self.Z[p] = 0, z
        f = fresh()
        self.s[p] = f
        return f, True

    def reset(self, q, fresh):
        f, _ = self.measure(q, fresh)
        x = np.zeros(self.n, dtype=np.uint8)
        x[q] = 1
        self.pauli(x, np.zeros(self.n), f)


def run_tableau(circ, vs, initial=None):
    """Ideal run: returns (tableau, classical bits as affine forms, list of random outcome forms)."""
    n = circ.num_qubits
    t = Tableau(n)
    if initial:
        initial(t)
    cl = [0] * circ.num_clbits
    rnd = []

    def fresh():
        f = vs.new(f"r{len(rnd)}")
        rnd.append(f)
        return f

    for name, q, c, cond in ops_of(circ):
        if cond is not None:
            bits, val = cond
            if len(bits) == 1 and name in ("x", "y", "z"):
                f = cl[bits[0]] ^ (0 if val else 1)
                x, z = np.zeros(n, dtype=np.uint8), np.zeros(n, dtype=np.uint8)
                x[q[0]] = name in "xy"
                z[q[0]] = name in "yz"
                t.pauli(x, z, f)
                continue
            raise NotImplementedError("classically controlled " + name)
        if name == "measure":
            cl[c[0]], _ = t.measure(q[0], fresh)
        elif name == "reset":
            t.reset(q[0], fresh)
        else:
            t.gate(name, q)
    return t, cl, rnd


def faulty_frame(circ, vs, data=None, after=None):
    """Every operation may fail: returns (Frame, locations); a location is (description, list of variable masks, apply info)."""
    n = circ.num_qubits
    fr = Frame(n, circ.num_clbits)
    locs = []
    touched = set()

    def pauli(q, tag):
        fx, fz = vs.new(f"{tag}.x{q}"), vs.new(f"{tag}.z{q}")
        fr.x[q] ^= fx
        fr.z[q] ^= fz
        return [fx, fz]

    for k, (name, q, c, cond) in enumerate(ops_of(circ)):
        if cond is not None:
            raise NotImplementedError("conditional")
        if name == "barrier":
            continue
        for a in q:
            if a not in touched:  # preparation
                touched.add(a)
                locs.append((f"prep q{a}", pauli(a, f"p{a}"), ("before", k, [a])))
        fr.gate(name, q, c)
        if name == "measure":
            f = vs.new(f"g{k}.m")
            fr.m[c[0]] ^= f
            locs.append((f"readout {k} c{c[0]}", [f], ("readout", k, [c[0]])))
            # the measured qubit may be used again: error after the measurement
            locs.append((f"after measure {k} q{q[0]}", pauli(q[0], f"g{k}"), ("after", k, q)))
        else:
            v = [m for a in q for m in pauli(a, f"g{k}")]
            locs.append((f"gate {k} {name} {q}", v, ("after", k, q)))
    return fr, locs


def to_stim(circ, faults=()):
    """(stim circuit text) of the qiskit circuit with Pauli faults: faults = [(('before'|'after'|'readout', k, qubits), {q: 'X'|'Y'|'Z'})]."""
    import stim

    before, after, ro = {}, {}, set()
    for (kind, k, q), p in faults:
        if kind == "readout":
            ro.add(k)
        else:
            (before if kind == "before" else after).setdefault(k, []).append(p)
    out = stim.Circuit()
    order = []
    for k, (name, q, c, _cond) in enumerate(ops_of(circ)):
        for p in before.get(k, []):
            for a, s in p.items():
                out.append(s, [a])
        nm = {"cx": "CX", "h": "H", "cz": "CZ", "s": "S", "sdg": "S_DAG", "x": "X", "y": "Y", "z": "Z", "measure": "M", "reset": "R", "swap": "SWAP", "id": "I"}.get(name)
        if nm == "M":
            out.append("M", [q[0]] if k not in ro else [stim.target_inv(q[0])])
            order.append(c[0])
        elif nm:
            out.append(nm, q)
        for p in after.get(k, []):
            for a, s in p.items():
                out.append(s, [a])
    return out, order


class Query:
    """z3 solver over the variables of a Vars allocator with affine-form constraints."""

    def __init__(self, vs):
        self.vs = vs
        self.s = dist.solver()
        self.b = {}
        self.k = 0

    def var(self, i):
        if i not in self.b:
            self.b[i] = z3.Bool(f"v{i}_{self.vs.names[i]}")
        return self.b[i]

    def terms(self, form):
        return [self.var(i) for i in range(1, form.bit_length()) if (form >> i) & 1]

    def equal(self, form, rhs):
        self.k += 1
        dist.xor_chain(self.s, self.terms(form), (form & 1) ^ rhs, f"x{self.k}")

    def lit(self, form):
        """A Boolean equal to the affine form."""
        t = self.terms(form)
        if not t:
            return z3.BoolVal(bool(form & 1))
        if len(t) == 1:
            return z3.Not(t[0]) if form & 1 else t[0]
        self.k += 1
        v = z3.Bool(f"lit{self.k}")
        dist.xor_chain(self.s, t + [v], form & 1, f"x{self.k}")
        return v

    def at_most(self, locs, j):
        act = []
        for i, (_d, vs, _a) in enumerate(locs):
            a = z3.Bool(f"act{i}")
            self.s.add(a == z3.Or(*[x for f in vs for x in self.terms(f)]))
            act.append(a)
        self.s.add(z3.PbLe([(a, 1) for a in act], j))
        return act

    def model_faults(self, locs):
        m = self.s.model()
        on = lambda f: any(z3.is_true(m.eval(x, model_completion=True)) for x in self.terms(f))  # noqa: E731
        out = []
        for d, vs, (kind, k, q) in locs:
            if kind == "readout":
                if on(vs[0]):
                    out.append([d, [kind, k, q], {}])
                continue
            p = {}
            for i, a in enumerate(q):
                x, z = on(vs[2 * i]), on(vs[2 * i + 1])
                if x or z:
                    p[a] = "Y" if x and z else "X" if x else "Z"
            if p:
                out.append([d, [kind, k, q], p])
        return out


def low_weight_syndromes(dual, n, w):
    """Set of values of (dual @ e) for all e of weight <= w."""
    cols = [sum(int(r[j]) << i for i, r in enumerate(dual)) for j in range(n)]
    cur = {0}
    allv = {0}
    for _ in range(w):
        cur = {v ^ c for v in cur for c in cols} - allv
        allv |= cur
    return allv


def exclude(q, lits, values):
    """No listed value: one clause per value."""
    for v in values:
        q.s.add(z3.Or(*[z3.Not(l) if (v >> i) & 1 else l for i, l in enumerate(lits)]))
