"""C11: flagged stabilizer measurements."""
from __future__ import annotations

import numpy as np
import z3

import circ as C
from runner import Harness

ASSUMPTIONS = ["fault model: any Pauli after every operation on its qubits, any Pauli on a qubit at its preparation, flipped readouts", "operators act on distinct data qubits; ancilla and flags start in |0>"]
OUTSIDE = ["weights above the stated bound", "fault budgets the library rejects with NotImplementedError (t >= 3)"]
FN = ["measure_flagged", "_measure_stab_one_flagged", "measure_stab_two_flagged", "measure_flagged_4/6/8", "_measure_stab_unflagged", "_ancilla_cnot", "_flag_init", "_flag_measure"]


def gadget(w, t, zm, n=None, order=None):
    """The library's circuit for an operator on w of n data qubits: (circuit, operator qubits, ancilla bit index)."""
    import mqt.qecc.ft_stateprep.state_prep as sp
    from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister

    n = n or w
    q, a, c = QuantumRegister(n, "d"), AncillaRegister(1, "a"), ClassicalRegister(1, "m")
    qc = QuantumCircuit(q, a, c)
    stab = order or list(range(w))
    sp.measure_flagged(qc, [q[i] for i in stab], a[0], c[0], t, z_measurement=zm)
    return qc, stab


def ideal(w, t, zm, order=None, n=None):
    def f(rep):
        nn = n or w
        qc, stab = gadget(w, t, zm, nn, order)
        inp = {"weight": w, "t": t, "z_measurement": zm, "qubits": stab}
        N = qc.num_qubits
        vs = C.Vars()
        # data qubits maximally entangled with references: every input state at once
        tab = C.Tableau(N + nn)
        signs = {}
        for i in range(nn):
            tab.gate("h", [N + i])
            tab.gate("cx", [N + i, i])
        # arbitrary Pauli before the gadget: covers both values of every commuting observable
        for i in range(nn):
            x, z = np.zeros(N + nn, dtype=np.uint8), np.zeros(N + nn, dtype=np.uint8)
            x[i] = 1
            z2 = x.copy()
            signs[i] = (vs.new(f"x{i}"), vs.new(f"z{i}"))
            tab.pauli(x, z, signs[i][0])
            tab.pauli(z, z2, signs[i][1])
        rnd = []

        def fresh():
            v = vs.new(f"r{len(rnd)}")
            rnd.append(v)
            return v

        cl = {}
        for name, qs, cs, cond in C.ops_of(qc):
            assert cond is None
            if name == "measure":
                cl[cs[0]], _ = tab.measure(qs[0], fresh)
            elif name == "reset":
                tab.reset(qs[0], fresh)
            else:
                tab.gate(name, qs)
        q = C.Query(vs)

        def must_zero(form, what):
            if form is None:
                bad.append(f"{what} is not determined")
            elif form == 0:
                rep.trivial(what.split(":")[0])
            else:
                r = rep.solve(q.s, q.lit(form), what=what)
                if r == "sat":
                    bad.append(what)
                else:
                    rep.proved(what.split(":")[0])

        bad = []
        m = cl[0]
        for c in range(1, qc.num_clbits):
            must_zero(cl[c], f"flag: {c} is 0")
        S = set(stab)
        # post-measurement state: commuting pairs survive unchanged, the operator has the reported value
        for i in range(nn):
            for typ in "xz":
                same = (typ == "z") == zm
                sets = [[i]] if same or i not in S else []
                if not same and i in S and i != stab[0]:
                    sets = [[i, stab[0]]]
                for qs in sets:
                    x, z = np.zeros(N + nn, dtype=np.uint8), np.zeros(N + nn, dtype=np.uint8)
                    v = x if typ == "x" else z
                    sg = 0
                    for a in qs:
                        v[a] = v[N + a] = 1
                        sg ^= signs[a][1] if typ == "x" else signs[a][0]
                    f_ = tab.value(x, z)
                    must_zero(None if f_ is None else f_ ^ sg, f"commuting: observable {typ}{qs}")
        for ref in (False, True):
            x, z = np.zeros(N + nn, dtype=np.uint8), np.zeros(N + nn, dtype=np.uint8)
            v = z if zm else x
            sg = 0
            for a in stab:
                v[(N if ref else 0) + a] = 1
                if ref:
                    sg ^= signs[a][0] if zm else signs[a][1]
            f_ = tab.value(x, z)
            must_zero(None if f_ is None else f_ ^ sg ^ m, "outcome: equals the operator's value")
        if bad:
            w_ = stim_check(qc, nn, stab, zm)
            if w_:
                rep.violation("fault-free measurement", inp, f"{bad[:3]}; stim: {w_}")
            else:
                rep.notes.append(f"candidate not reproduced: {inp} {bad[:3]}")
        rep.sample({**inp, "flags": qc.num_clbits - 1, "operations": len(qc.data)})

    return f


def stim_check(qc, n, stab, zm):
    import stim

    N = qc.num_qubits
    base, order = C.to_stim(qc)
    out = []
    for seed in range(6):
        sim = stim.TableauSimulator(seed=seed)
        for i in range(n):
            sim.h(N + i)
            sim.cx(N + i, i)
        sim.do(base)
        rec = dict(zip(order, (int(b) for b in sim.current_measurement_record())))
        if any(v for k, v in rec.items() if k):
            out.append("flag raised")
        for off in (0, N):
            p = stim.PauliString(N + n)
            for a in stab:
                p[off + a] = "Z" if zm else "X"
            if sim.peek_observable_expectation(p) != (-1 if rec[0] else 1):
                out.append("outcome differs from the operator's value")
        for i in range(n):
            for typ in "XZ":
                same = (typ == "Z") == zm
                qs = [i] if same or i not in stab else [i, stab[0]] if i != stab[0] else []
                if not qs:
                    continue
                p = stim.PauliString(N + n)
                for a in qs:
                    p[a] = typ
                    p[N + a] = typ
                if sim.peek_observable_expectation(p) != 1:
                    out.append(f"observable {typ}{qs} disturbed")
    return sorted(set(out))[:4]


def ft(w, t, zm, order=None):
    def f(rep):
        qc, stab = gadget(w, t, zm, w, order)
        for j in range(1, t + 1):
            vs = C.Vars()
            fr, locs = C.faulty_frame(qc, vs)
            q = C.Query(vs)
            for c in range(1, qc.num_clbits):
                q.equal(fr.m[c], 0)
            ex, ez = [q.lit(a) for a in fr.x[:w]], [q.lit(a) for a in fr.z[:w]]
            for inv in (False, True):
                wt = []
                for i in range(w):
                    a = z3.Bool(f"w{inv}{i}")
                    x = z3.Not(ex[i]) if inv and not zm else ex[i]
                    z = z3.Not(ez[i]) if inv and zm else ez[i]
                    q.s.add(a == z3.Or(x, z))
                    wt.append(a)
                q.s.add(z3.PbGe([(a, 1) for a in wt], j + 1))
            q.at_most(locs, j)
            q.s.set("timeout", 500000)
            lab = f"{j} unflagged fault(s) leave at most {j} errors modulo the operator"
            r = rep.solve(q.s, what=lab)
            if r == "unsat":
                rep.proved("fault tolerance")
            elif r == "sat":
                fl = q.model_faults(locs)
                ok, why = replay(qc, w, fl, zm, j)
                inp = {"weight": w, "t": t, "z_measurement": zm, "faults": [[d, p] for d, _, p in fl]}
                if ok:
                    rep.violation(lab, inp, why)
                else:
                    rep.notes.append(f"candidate not reproduced: {inp} {why}")
        rep.sample({"weight": w, "t": t, "z": zm, "fault locations": len(locs), "flags": qc.num_clbits - 1})

    return f


def replay(qc, w, faults, zm, j):
    """Push each fault Pauli through the rest of the circuit with stim; measured qubits' flips are read at their measurement."""
    import stim

    ops = C.ops_of(qc)
    N = qc.num_qubits
    data = stim.PauliString(N)
    flips = [0] * qc.num_clbits
    for _, (kind, k, q), p in faults:
        if kind == "readout":
            flips[q[0]] ^= 1
            continue
        ps = stim.PauliString(N)
        for a, s in p.items():
            ps[int(a)] = s
        for name, qs, cs, _ in ops[(k if kind == "before" else k + 1):]:
            if name == "measure":
                flips[cs[0]] ^= int(ps[qs[0]] in (1, 2))
            elif name == "reset":
                ps[qs[0]] = 0
            else:
                g = {"cx": "CX", "h": "H"}[name]
                ps = ps.after(stim.Circuit(f"{g} {' '.join(map(str, qs))}"))
        data *= ps
    if any(flips[1:]):
        return False, "flagged"
    op = stim.PauliString(("Z" if zm else "X") * w + "_" * (N - w))
    wt = lambda s: sum(1 for i in range(w) if s[i])  # noqa: E731
    d = min(wt(data), wt(data * op))
    return d > j, f"data error {str(data)[:w+1]} has weight {d} modulo the operator"


def harnesses(tier):
    th = tier == "thorough"
    out = []
    W = range(1, 15 if th else 11)
    for t in (1, 2):
        for w in W:
            for zm in (True, False):
                out.append(Harness(f"w={w} t={t} {'Z' if zm else 'X'} ideal", ideal(w, t, zm), kind="direct", functions=FN, must_reach=["outcome"], bounds="every input state"))
                out.append(Harness(f"w={w} t={t} {'Z' if zm else 'X'} faults", ft(w, t, zm), kind="direct", functions=FN, must_reach=["fault tolerance"], bounds=f"all combinations of up to {t} faults"))
    for zm in (True, False):
        for t in (1, 2):
            for order in ([3, 0, 5, 1], [4, 2, 0, 1, 5, 3], [6, 1, 3, 0, 4]):
                out.append(Harness(f"order {order} t={t} {'Z' if zm else 'X'} ideal", ideal(len(order), t, zm, order, 7), kind="direct", functions=FN, must_reach=["outcome"], bounds="every input state"))
    return out
