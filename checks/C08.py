"""C08: preparation circuits prepare the logical basis state."""
from __future__ import annotations

import numpy as np
import z3

import circ as C
import gf2
from codescommon import code
from prep import build, state_groups
from runner import Harness

ASSUMPTIONS = ["the synthesis routines' internal SAT calls run on z3 as they are; the circuit they return is what is decided", "ideal gates; qubits start in |0>"]
OUTSIDE = ["codes and options other than the listed ones"]
FN = ["heuristic_prep_circuit", "depth_optimal_prep_circuit", "gate_optimal_prep_circuit", "_build_circuit_from_list_and_checks", "heuristic_verification_circuit", "gate_optimal_verification_circuit",
      "naive_verification_circuit", "_measure_ft_stabs"]


def stim_values(circ, obs):
    import stim

    sc, order = C.to_stim(circ)
    out = []
    for seed in range(4):
        sim = stim.TableauSimulator(seed=seed)
        sim.do(sc)
        rec = [int(b) for b in sim.current_measurement_record()]
        for i, (x, z) in enumerate(obs):
            p = stim.PauliString.from_numpy(xs=np.array(x, dtype=bool), zs=np.array(z, dtype=bool))
            if sim.peek_observable_expectation(p) != 1:
                out.append(f"observable {i}")
        out += [f"classical bit {c} = 1" for c, b in zip(order, rec) if b]
    return sorted(set(out))


def decide(rep, c, zero, circ, inp):
    n, N = c.n, circ.num_qubits
    if n > N:
        rep.violation("circuit acts on all data qubits", inp, f"{N} < {n}")
        return
    gx, gz = state_groups(c, zero)
    pad = lambda v: np.array(list(v) + [0] * (N - n), dtype=np.uint8)  # noqa: E731
    zv = np.zeros(N, dtype=np.uint8)
    obs = [(pad(g), zv) for g in gx] + [(zv, pad(g)) for g in gz]
    vs = C.Vars()
    t, cl, _rnd = C.run_tableau(circ, vs)
    q = C.Query(vs)
    bad = []
    forms = []
    for i, (x, z) in enumerate(obs):
        f = t.value(x, z)
        if f is None:
            bad.append(f"observable {i} is random")
        else:
            forms.append((f"observable {i}", f))
    forms += [(f"classical bit {i}", f) for i, f in enumerate(cl)]
    for what, f in forms:
        if f == 0:
            rep.trivial("value")
            continue
        r = rep.solve(q.s, q.lit(f), what=what)
        if r == "sat":
            bad.append(what)
        else:
            rep.proved("value")
    if bad:
        w = stim_values(circ, obs)
        if w:
            rep.violation("prepared state and measurement outcomes", inp, f"{bad[:4]}; stim: {w[:4]}")
        else:
            rep.notes.append(f"candidate not reproduced: {inp} {bad[:4]}")


def prep(name, zero, p, ver, full):
    def f(rep):
        c = code(name)
        s, circ = build(name, zero, p, ver, full)
        inp = {"code": name, "zero_state": zero, "prep": p, "verification": ver, "full": full}
        if circ is None:
            rep.truncated("the synthesis returned nothing within its time limit")
            rep.reach("value")
            return
        decide(rep, c, zero, circ, inp)
        rep.sample({**inp, "qubits": circ.num_qubits, "operations": len(circ.data), "measurements": circ.num_clbits})

    return f


def allcodes(r, n, which):
    """Every CSS state given by an r x n check matrix (solver-guided forking over the entries)."""

    def f(ctx):
        import mqt.qecc.ft_stateprep.state_prep as sp

        bits = [[ctx.choice(f"h{i}_{j}", [0, 1]) for j in range(n)] for i in range(r)]
        m = np.array([[int(b) for b in row] for row in bits], dtype=np.int8)
        ctx.assume(m.any(axis=0).any())
        if gf2.rank([list(map(int, x)) for x in m]) < r:
            ctx.assume(False)

        class K:
            pass

        for zero in (True, False):
            k = K()
            k.n = n
            other = np.array(gf2.nullspace([list(map(int, x)) for x in m], n), dtype=np.int8).reshape(-1, n)
            k.Hx, k.Hz = (m, other) if zero else (other, m)
            k.Lx = k.Lz = np.zeros((0, n), dtype=np.int8)
            k.distance = k.x_distance = k.z_distance = 1
            s = sp.heuristic_prep_circuit(k, optimize_depth=(which == "depth"), zero_state=zero)
            vs = C.Vars()
            t, cl, _ = C.run_tableau(s.circ, vs)
            ok = True
            z = np.zeros(n, dtype=np.uint8)
            for g in k.Hx:
                ok &= t.value(np.array(g, dtype=np.uint8), z) == 0
            for g in k.Hz:
                ok &= t.value(z, np.array(g, dtype=np.uint8)) == 0
            ctx.check(ok, "prepared state for every check matrix", str(m.tolist()))

    return f


def harnesses(tier):
    th = tier == "thorough"
    inst = []
    names = ["steane", "hex3", "shor", "surface3", "steane_mixed", "tetrahedral", "hamming", "carbon", "422", "redundant", "sqoct5", "hex5", "asym"]
    for nm in names:
        for z in (True, False):
            inst.append((nm, z, "heuristic", "none", False))
            inst.append((nm, z, "heuristic-serial", "none", False))
            if nm not in ("asym", "sqoct5", "hex5"):
                inst.append((nm, z, "heuristic", "heuristic", True))
                inst.append((nm, z, "heuristic-serial", "heuristic-noleaders", False))
                if (nm, z) != ("tetrahedral", True):  # needs 3-flagged measurements: rejected with NotImplementedError
                    inst.append((nm, z, "heuristic-serial", "naive", True))
    for nm in ("golay", "surface5", "hex7", "sqoct7"):
        for z in (True, False):
            inst.append((nm, z, "heuristic", "none", False))
    for nm in ("steane", "shor", "surface3", "422", "redundant", "onecx") if th else ("steane", "422", "redundant", "onecx"):
        for z in (True, False):
            inst.append((nm, z, "gate", "none", False))
            inst.append((nm, z, "depth", "none", False))
            if nm != "onecx":
                inst.append((nm, z, "gate", "optimal", True))
    for nm in ("steane", "shor", "surface3"):
        for z in (True, False):
            inst.append((nm, z, "heuristic", "optimal", True))
            inst.append((nm, z, "heuristic", "optimal", False))
    if th:
        for nm in ("sqoct5", "hex5"):
            for z in (True, False):
                inst.append((nm, z, "heuristic", "heuristic", True))
                inst.append((nm, z, "heuristic", "naive", True))
    out = [Harness(f"{nm} {'zero' if z else 'plus'} {p}/{v} {'full' if full else 'partial'}", prep(nm, z, p, v, full), kind="direct", functions=FN, must_reach=["value"],
                   bounds="all measurement outcomes; all stabilizers and logicals of the state") for nm, z, p, v, full in inst]
    for r, n in ([(1, 4), (2, 4), (3, 4), (2, 5)] + ([(3, 5)] if th else [])):
        for w in ("depth", "serial"):
            out.append(Harness(f"every {r}x{n} check matrix {w}", allcodes(r, n, w), functions=FN[:1] + FN[3:4], must_reach=["prepared state for every check matrix"], paths=70000, seconds=500,
                               bounds=f"all full-rank {r}x{n} binary check matrices, zero and plus state"))
    return out
