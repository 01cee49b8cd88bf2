"""C29: optimal synthesis of preparation and verification circuits returns optimal circuits."""
from __future__ import annotations

import numpy as np
import z3

import gf2
from codescommon import code
from prep import rows, state_groups
from runner import Harness

ASSUMPTIONS = [
    "no internal search runs into its time limit (every search is given 400 s; an instance in which one does is reported as undecided)",
    "the candidate circuits are those of the documented form: Hadamards on some qubits, then CNOTs; candidate verifications are products of the stabilizers the library measures (the rows of x_checks / z_checks)",
    "the fault set of each layer is the one computed by StatePrepCircuit (decided by C09)",
]
OUTSIDE = ["codes other than the listed ones; searches that hit their time limit; the parameters beyond max_gates/max_depth"]
FN_P = ["gate_optimal_prep_circuit", "depth_optimal_prep_circuit", "_optimal_circuit", "_generate_circ_with_bounded_gates", "_generate_circ_with_bounded_depth", "_column_addition_constraint", "_final_matrix_constraint",
        "iterative_search_with_timeout"]
FN_V = ["gate_optimal_verification_stabilizers", "verification_stabilizers", "_vars_to_stab", "_odd_overlap", "iterative_search_with_timeout"]


def xor(l):
    x = z3.BoolVal(False)
    for a in l:
        x = z3.Xor(x, a)
    return x


class Limits:
    """Runs the library's searches in this process without a time limit (as long as they are called through _run_with_timeout), so that load cannot change their outcome."""

    def __enter__(self):
        import mqt.qecc.ft_stateprep.state_prep as sp

        self.sp, self.old = sp, getattr(sp, "_run_with_timeout", None)
        if self.old is not None:
            sp._run_with_timeout = lambda func, *args, **_k: func(*args)

    def __exit__(self, *_):
        if self.old is not None:
            self.sp._run_with_timeout = self.old


# ---------------------------------------------------------------- preparation circuits


def network(checks, steps, layered):
    """Solver for: `steps` CNOTs (or layers of disjoint CNOTs) turn |+>^r|0>^(n-r) on some choice of the r qubits into the state stabilised by the X-type rows `checks`.

    Written forwards on the generator matrix: it starts with n-r zero columns and ends as `checks`; CNOT i->j adds column i to column j."""
    r, n = len(checks), len(checks[0])
    s = z3.Solver()
    col = [[[z3.Bool(f"a{k}_{q}_{i}") for i in range(r)] for q in range(n)] for k in range(steps + 1)]
    g = [[[z3.Bool(f"g{k}_{i}_{j}") if i != j else None for j in range(n)] for i in range(n)] for k in range(steps)]
    start = [z3.Bool(f"h{q}") for q in range(n)]
    for q in range(n):
        for i in range(r):
            s.add(z3.Implies(z3.Not(start[q]), z3.Not(col[0][q][i])))
            s.add(col[steps][q][i] == bool(checks[i][q]))
    s.add(z3.PbLe([(h, 1) for h in start], r))
    for k in range(steps):
        allg = [g[k][i][j] for i in range(n) for j in range(n) if i != j]
        if layered:
            for q in range(n):
                s.add(z3.AtMost(*[g[k][q][j] for j in range(n) if j != q], *[g[k][i][q] for i in range(n) if i != q], 1))
        else:
            s.add(z3.AtMost(*allg, 1))
        for q in range(n):
            for i in range(r):
                add = z3.Or([z3.And(g[k][p][q], col[k][p][i]) for p in range(n) if p != q])
                s.add(col[k + 1][q][i] == z3.Xor(col[k][q][i], add))
    return s, g, start


def decode(m, g, start):
    n = len(start)
    on = [q for q in range(n) if z3.is_true(m.eval(start[q], model_completion=True))]
    gates = [[(i, j) for i in range(n) for j in range(n) if i != j and z3.is_true(m.eval(gk[i][j], model_completion=True))] for gk in g]
    return on, gates


def prepares(n, gx, gz, zero, on, gates):
    """Independent simulation (stim): the decoded circuit prepares the state."""
    import stim

    sim = stim.TableauSimulator()
    sim.do(stim.Circuit("R " + " ".join(map(str, range(n)))))
    for q in range(n):
        if (q in on) == zero:
            sim.h(q)
    for layer in gates:
        for i, j in layer:
            sim.cx(i, j) if zero else sim.cx(j, i)
    for b, letter in ((gx, "X"), (gz, "Z")):
        for v in b:
            p = stim.PauliString(n)
            for q in range(n):
                if v[q]:
                    p[q] = letter
            if sim.peek_observable_expectation(p) != 1:
                return False
    return True


def cnots(circ):
    return [tuple(circ.find_bit(q).index for q in i.qubits) for i in circ.data if i.operation.name == "cx"]


def depth_of(gates, n):
    d = [0] * n
    for a, b in gates:
        d[a] = d[b] = max(d[a], d[b]) + 1
    return max(d, default=0)


def form_ok(circ):
    names = [i.operation.name for i in circ.data]
    return set(names) <= {"h", "cx", "barrier"}


def optimum(rep, c, zero, metric, inp, limit=600):
    import mqt.qecc.ft_stateprep.state_prep as sp

    with Limits():
        if metric == "gates":
            s = sp.gate_optimal_prep_circuit(c, zero_state=zero, max_gates=inp.get("max", 10), max_timeout=400, min_timeout=400)
        else:
            s = sp.depth_optimal_prep_circuit(c, zero_state=zero, max_depth=inp.get("max", 10), max_timeout=400, min_timeout=400)
    checks = gf2.rref(rows(c.Hx if zero else c.Hz))[0]
    gx, gz = state_groups(c, zero)
    top = inp.get("max", 10)
    if s is None:
        k = top + 1
    else:
        if not form_ok(s.circ):
            rep.truncated("the circuit is not of the documented form")
            return
        cx = cnots(s.circ)
        k = len(cx) if metric == "gates" else depth_of(cx, c.n)
    if k <= 1 and s is not None:
        rep.trivial("optimal")
        return
    sv, g, start = network(checks, k - 1, metric == "depth")
    sv.set("timeout", limit * 1000)
    r = rep.solve(sv, what=f"{inp}: fewer than {k}")
    if r == "unsat":
        rep.proved("optimal")
    elif r == "sat":
        on, gates = decode(sv.model(), g, start)
        if prepares(c.n, gx, gz, zero, on, gates):
            rep.violation(f"preparation circuit has the minimal {'number of CNOTs' if metric == 'gates' else 'CNOT depth'}", inp,
                          f"returned {'nothing' if s is None else k}, but {k - 1} suffice: H/|+> on {on}, CNOT layers {gates}")
        else:
            rep.notes.append(f"candidate not reproduced: {inp}")
    rep.sample({**inp, "value": None if s is None else k})


def prep_harness(name, zero, metric, top=10):
    def f(rep):
        optimum(rep, code(name), zero, metric, {"code": name, "zero_state": zero, "metric": metric, "max": top})

    return f


class Small:
    """A CSS code given by its X checks alone, as much of it as the synthesis needs."""

    def __init__(self, m, zero):
        self.n = m.shape[1]
        other = np.array(gf2.nullspace([list(map(int, x)) for x in m], self.n), dtype=np.int8).reshape(-1, self.n)
        self.Hx, self.Hz = (m, other) if zero else (other, m)
        self.Lx = self.Lz = np.zeros((0, self.n), dtype=np.int8)
        self.distance = self.x_distance = self.z_distance = 1


def small(r, n, metric, zero, top=10):
    """Every full-rank r x n check matrix in reduced echelon form (every state) whose state is not a product of |0>, |+>."""
    import itertools

    def f(rep):
        seen = set()
        for piv in itertools.combinations(range(n), r):
            free = [(i, j) for i in range(r) for j in range(n) if j > piv[i] and j not in piv]
            for bits in itertools.product((0, 1), repeat=len(free)):
                if not any(bits):
                    continue  # a product state
                m = np.zeros((r, n), dtype=np.int8)
                for i, p in enumerate(piv):
                    m[i, p] = 1
                for (i, j), b in zip(free, bits):
                    m[i, j] = b
                key = tuple(sorted(map(tuple, m.T.tolist())))  # the order of the qubits does not matter to the optimum
                if key in seen:
                    continue
                seen.add(key)
                # a generator matrix that is not reduced, so that the routine starts from sums of rows
                w = m.copy()
                for i in range(r - 1):
                    w[i] = (w[i] + w[i + 1]) % 2
                optimum(rep, Small(w, zero), zero, metric, {"checks": w.tolist(), "zero_state": zero, "metric": metric, "max": top})

    return f


# ---------------------------------------------------------------- verification stabilizers


def better(gens, faults, anc, weight):
    """Solver for: at most `anc` products of `gens` of total weight at most `weight` detect every fault."""
    s = z3.Solver()
    n = gens.shape[1]
    m = [[z3.Bool(f"m{a}_{q}") for q in range(n)] for a in range(anc)]
    for a in range(anc):
        sel = [z3.Bool(f"c{a}_{i}") for i in range(len(gens))]
        for q in range(n):
            s.add(m[a][q] == xor([sel[i] for i in range(len(gens)) if gens[i][q]]))
    for f in faults:
        s.add(z3.Or([xor([m[a][q] for q in range(n) if f[q]]) for a in range(anc)]))
    s.add(z3.PbLe([(x, 1) for r in m for x in r], weight))
    return s, m


def detects(meas, faults):
    return all(any(int(np.dot(v, f)) % 2 for v in meas) for f in faults)


def ver(name, zero, x_errors, extra=0, max_anc=None, limit=600, nf=None):
    def f(rep):
        import mqt.qecc.ft_stateprep.state_prep as sp

        c = code(name)
        s = sp.heuristic_prep_circuit(c, zero_state=zero)
        gens = np.array(s.z_checks if x_errors else s.x_checks, dtype=int)
        add = None
        if extra:
            rng = np.random.default_rng(extra)
            add = (rng.random((nf or [6, 1, 2, 12][extra % 4], c.n)) < 0.4).astype(np.int8)
            add = add[[bool((gens @ e % 2).any()) for e in add]]
        inp = {"code": name, "zero_state": zero, "x_errors": x_errors, "additional_faults": None if add is None else add.tolist(), "max_ancillas": max_anc}
        with Limits():
            layers = sp.gate_optimal_verification_stabilizers(s, x_errors=x_errors, max_timeout=400, min_timeout=400, max_ancillas=max_anc, additional_faults=add)
        s.compute_fault_sets()
        sets = s.combine_faults(add, x_errors) if add is not None else (s.x_fault_sets if x_errors else s.z_fault_sets)
        top = max_anc or (s.max_z_measurements if x_errors else s.max_x_measurements)
        for k in range(1, s.max_errors + 1):
            faults = np.array(sets[k], dtype=int)
            lay = layers[k - 1] if k - 1 < len(layers) else None
            label = "verification layer"
            if len(faults) == 0:
                if lay:
                    rep.violation("no measurement where there is no fault to detect", {**inp, "layer": k}, str(lay))
                else:
                    rep.trivial(label)
                continue
            if not lay:  # claims that nothing detects all faults
                sv, m = better(gens, faults, top, gens.size)
                r = rep.solve(sv, what=f"{inp} layer {k}")
                if r == "unsat":
                    rep.proved(label)
                elif r == "sat":
                    mm = sv.model()
                    meas = [[int(z3.is_true(mm.eval(b, model_completion=True))) for b in row] for row in m]
                    if detects(np.array(meas), faults):
                        rep.violation("verification is found when there is one", {**inp, "layer": k}, f"returned none, but {meas} detects all faults")
                continue
            lay = [np.array(v, dtype=int) for v in lay]
            W, A = int(sum(v.sum() for v in lay)), len(lay)
            if A > top:
                rep.violation("at most max_ancillas measurements", {**inp, "layer": k}, f"{A} > {top}")
            # the returned operators are products of the checks
            rk = gf2.rank(rows(gens))
            inspan = all(gf2.rank(rows(gens) + [list(map(int, v))]) == rk for v in lay)
            if not inspan or not detects(lay, faults):
                rep.violation("the measurements are stabilizers that detect every fault of the layer", {**inp, "layer": k}, str([v.tolist() for v in lay]))
                continue
            for what, a, w in (("fewest CNOTs", top, W - 1), ("fewest measurements", A - 1, W)):
                if a < 1 or w < 1:
                    rep.trivial(label)
                    continue
                sv, m = better(gens, faults, a, w)
                sv.set("timeout", limit * 1000)
                r = rep.solve(sv, what=f"{inp} layer {k} {what}")
                if r == "unsat":
                    rep.proved(label)
                elif r == "sat":
                    mm = sv.model()
                    meas = np.array([[int(z3.is_true(mm.eval(b, model_completion=True))) for b in row] for row in m])
                    ok = detects(meas, faults) and int(meas.sum()) <= w and all(gf2.rank(rows(gens) + [list(map(int, v))]) == rk for v in meas)
                    if ok:
                        rep.violation(f"verification layer uses the {what}", {**inp, "layer": k},
                                      f"returned {A} measurements with {W} CNOTs, but {int(meas.any(axis=1).sum())} with {int(meas.sum())} detect all faults: {meas.tolist()}")
                    else:
                        rep.notes.append(f"candidate not reproduced: {inp}")
            rep.sample({**inp, "layer": k, "faults": len(faults), "CNOTs": W, "measurements": A})
        if s.max_errors == 0:
            rep.trivial("verification layer")

    return f


def harnesses(tier):
    th = tier == "thorough"
    out = []
    P = [("422", "gates"), ("422", "depth"), ("steane", "depth"), ("redundant", "gates"), ("redundant", "depth"), ("onecx", "depth"), ("surface3", "depth"), ("shor", "depth")]
    for nm, me in P:
        for z in (True, False):
            out.append(Harness(f"{nm} {'zero' if z else 'plus'} {me}", prep_harness(nm, z, me), kind="direct", functions=FN_P, must_reach=["optimal"], bounds="all CNOT circuits with one CNOT (layer) less"))
    for r, n in [(1, 3), (1, 4), (2, 4), (3, 4), (2, 5), (3, 5)] + ([(1, 5), (4, 5), (2, 6)] if th else []):
        for z in (True, False):
            for me in ("gates", "depth"):
                out.append(Harness(f"every {r}x{n} state {'zero' if z else 'plus'} {me}", small(r, n, me, z), kind="direct", functions=FN_P, must_reach=["optimal"], bounds=f"every CSS state given by an {r}x{n} matrix, up to the order of the qubits"))
    for r, n, top in [(2, 4, 3), (2, 5, 3), (2, 5, 5)] + ([(3, 5, 5), (3, 5, 6), (3, 5, 7)] if th else []):
        for z in (True, False):
            for me in ("gates", "depth") if top == 3 else ("gates",):
                out.append(Harness(f"every {r}x{n} state {'zero' if z else 'plus'} {me} at most {top}", small(r, n, me, z, top), kind="direct", functions=FN_P, must_reach=["optimal"], bounds=f"every CSS state given by an {r}x{n} matrix, up to the order of the qubits; maximum {top}"))
    V = ["422", "steane", "heavy", "surface3", "shor", "tetrahedral", "carbon"] + (["hamming", "hex5", "sqoct5"] if th else [])
    for nm in V:
        for z in (True, False):
            for xe in (True, False):
                if nm in ("hamming", "hex5", "sqoct5") and xe != z:
                    continue
                out.append(Harness(f"verification {nm} {'zero' if z else 'plus'} {'x' if xe else 'z'}", ver(nm, z, xe), kind="direct", functions=FN_V, must_reach=["verification layer"], bounds="all choices of measured products of checks"))
    for nm in ("surface3", "shor", "steane", "heavy") + (("carbon",) if th else ()):
        for z in (True, False):
            for xe in (True, False):
                for ex in range(1, 17 if th else 9):
                    out.append(Harness(f"verification {nm} {'zero' if z else 'plus'} {'x' if xe else 'z'} with additional faults {ex}", ver(nm, z, xe, ex), kind="direct", functions=FN_V, must_reach=["verification layer"],
                                       bounds="all choices of measured products of checks"))
    many = [("surface3", False, False, 100241, 20), ("surface3", True, True, 200294, 20), ("surface3", True, True, 400134, 14), ("surface3", False, False, 257, 20), ("shor", True, True, 1, 30), ("shor", True, True, 2, 30),
            ("shor", False, False, 3, 30), ("surface3", True, False, 4, 12), ("surface3", False, True, 5, 12), ("steane", True, True, 6, 12), ("heavy", True, True, 7, 20), ("heavy", False, False, 8, 20)]
    for nm, z, xe, sd, nf in many:
        out.append(Harness(f"verification {nm} {'zero' if z else 'plus'} {'x' if xe else 'z'} with {nf} additional faults ({sd})", ver(nm, z, xe, sd, nf=nf), kind="direct", functions=FN_V, must_reach=["verification layer"],
                           bounds="all choices of measured products of checks"))
    for nm in ("surface3", "shor"):
        for z in (True, False):
            out.append(Harness(f"verification {nm} {'zero' if z else 'plus'} with at most one ancilla", ver(nm, z, z, 2, 1), kind="direct", functions=FN_V, must_reach=["verification layer"], bounds="all choices of one measured product of checks"))
    return out
