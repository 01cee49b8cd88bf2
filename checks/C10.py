"""C10: verified preparation circuits are fault tolerant."""
from __future__ import annotations

import numpy as np

import circ as C
import gf2
from codescommon import code
from prep import build, rows, state_groups
from runner import Harness

ASSUMPTIONS = [
    "the synthesis routines' internal SAT calls run on z3 as they are; the circuit they return is what is decided",
    "fault model: after every gate any Pauli on its qubits, any Pauli after preparation and after measurement, flipped readouts; idle errors equal errors after the previous operation on that qubit",
]
OUTSIDE = ["codes and synthesis options other than the listed ones", "codes of distance 1 (no correctable error)"]
FN = ["heuristic_prep_circuit", "depth_optimal_prep_circuit", "gate_optimal_prep_circuit", "heuristic_verification_circuit", "gate_optimal_verification_circuit", "naive_verification_circuit",
      "StatePrepCircuit.compute_fault_set", "combine_faults", "_hook_errors", "_measure_ft_x/_z", "measure_flagged"]


def replay(circ, n, faults, gx, gz, typ, wmax):
    """Independent simulation (stim) of the circuit with the faults: undetected, and no error of weight <= wmax explains the state."""
    import stim

    sc, order = C.to_stim(circ, [(tuple(a), {int(q): s for q, s in p.items()}) for _, a, p in faults])
    sim = stim.TableauSimulator()
    sim.do(sc)
    rec = sim.current_measurement_record()
    if any(rec):
        return False, "detected"
    gens = gz if typ == "x" else gx  # generators that see errors of this type
    synd = 0
    for i, g in enumerate(gens):
        p = stim.PauliString(sim.num_qubits)
        for j in range(n):
            if g[j]:
                p[j] = "Z" if typ == "x" else "X"
        v = sim.peek_observable_expectation(p)
        if v == 0:
            return True, f"state not stabilised up to sign by generator {i}"
        synd |= (v == -1) << i
    return synd not in C.low_weight_syndromes(gens, n, wmax), f"syndrome of the residual {typ} error: {synd:b}"


def ft(name, zero, prep, ver, full, tmax=None, scale=True):
    def f(rep):
        c = code(name)
        sp, circ = build(name, zero, prep, ver, full)
        if circ is None:
            rep.truncated("the synthesis returned nothing within its time limit")
            return
        decide(rep, c, zero, circ, full, ver, {"code": name, "zero_state": zero, "prep": prep, "verification": ver, "full": full}, tmax)

    return f


def decide(rep, c, zero, circ, full, ver, inp, tmax):
    n = c.n
    gx, gz = state_groups(c, zero)
    gx, gz = gf2.rref(gx)[0], gf2.rref(gz)[0]
    detect = c.distance == 2
    t = c.distance // 2 if detect else (c.distance - 1) // 2
    t = min(t, tmax or t)
    types = ["x", "z"] if full else (["x"] if zero else ["z"])
    if ver == "none":
        types = ["z"] if zero else ["x"]
    for typ in types:
        d_err = c.x_distance if typ == "x" else c.z_distance
        mw = max((d_err - 1) // 2, 1) // max((c.distance - 1) // 2, 1)
        for j in range(1, t + 1):
            vs = C.Vars()
            fr, locs = C.faulty_frame(circ, vs)
            q = C.Query(vs)
            for m in fr.m:
                q.equal(m, 0)
            gens = gz if typ == "x" else gx
            err = fr.x[:n] if typ == "x" else fr.z[:n]
            lits = []
            for g in gens:
                a = 0
                for i in range(n):
                    if g[i]:
                        a ^= err[i]
                lits.append(q.lit(a))
            w = mw * j
            C.exclude(q, lits, C.low_weight_syndromes(gens, n, w))
            q.at_most(locs, j)
            q.s.set("timeout", 600000)
            lab = f"{j} undetected fault(s) leave {typ} weight <= {w}"
            r = rep.solve(q.s, what=lab)
            if r == "unsat":
                rep.proved("bounded")
            elif r == "sat":
                fl = q.model_faults(locs)
                ok, why = replay(circ, n, fl, gx, gz, typ, w)
                bad = {**inp, "faults": [[d, p] for d, _, p in fl]}
                if ok:
                    rep.violation(lab, bad, why)
                else:
                    rep.notes.append(f"candidate not reproduced: {bad} {why}")
    rep.sample({**inp, "qubits": circ.num_qubits, "operations": len(circ.data), "fault locations": len(locs)})


def harnesses(tier):
    th = tier == "thorough"
    inst = []
    for nm in ("steane", "hex3", "shor", "surface3", "steane_mixed", "tetrahedral", "hamming", "carbon", "422", "redundant"):
        for z in (True, False):
            inst.append((nm, z, "heuristic", "heuristic", True))
            inst.append((nm, z, "heuristic-serial", "heuristic-noleaders", False))
    for nm in ("steane", "shor", "surface3"):
        for z in (True, False):
            inst.append((nm, z, "heuristic", "optimal", True))
            inst.append((nm, z, "heuristic", "naive", True))
    for nm in ("sqoct5", "hex5"):
        for z in (True, False):
            inst.append((nm, z, "heuristic", "heuristic", False))
            inst.append((nm, z, "heuristic", "heuristic", True))
    for nm in ("steane", "surface3", "shor"):
        inst += [(nm, True, "padded", "heuristic", True), (nm, False, "padded", "heuristic", True)]
    if th:
        for z in (True, False):
            for nm in ("steane", "shor", "surface3", "422"):
                inst.append((nm, z, "gate", "optimal", True))
                inst.append((nm, z, "depth", "heuristic", True))
            for nm in ("carbon", "hamming", "tetrahedral", "redundant"):
                inst.append((nm, z, "heuristic-serial", "heuristic", True))
            for nm in ("sqoct5", "hex5"):
                inst.append((nm, z, "heuristic", "naive", True))
                inst.append((nm, z, "heuristic-serial", "heuristic-noleaders", True))
                inst.append((nm, z, "heuristic-serial", "heuristic", True))
    out = []
    for nm, z, p, v, full in inst:
        out.append(Harness(f"{nm} {'zero' if z else 'plus'} {p}/{v} {'full' if full else 'logical only'}", ft(nm, z, p, v, full), kind="direct", functions=FN, must_reach=["bounded"],
                           bounds="all combinations of up to t faults, t from the code distance"))
    return out
