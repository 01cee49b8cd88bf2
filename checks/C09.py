"""C09: fault sets contain exactly the dangerous propagated faults."""
from __future__ import annotations

import itertools

import numpy as np
import z3

import circ as C
import gf2
from codescommon import code
from prep import build, rows, state_groups
from runner import Harness
from symx import patch

ASSUMPTIONS = [
    "a fault is any Pauli on the qubits of one operation (or a preparation error) of the preparation circuit; only its part of the requested type matters",
    "numpy's unique, vstack and boolean indexing are used concretely: the fault set computed by the code is a concrete list that the solver quantifies over",
]
OUTSIDE = ["circuits whose non-Hadamard gates are not CNOTs", "codes other than the listed ones"]
FN = ["StatePrepCircuit.compute_fault_set(s)", "combine_faults", "_propagate_error", "_remove_trivial_faults", "_remove_stabilizer_equivalent_faults", "_coset_leader", "_hook_errors"]


def scale(c, x):
    d = c.x_distance if x else c.z_distance
    return max((d - 1) // 2, 1) // max((c.distance - 1) // 2, 1)


def syn(gens, v):
    return sum((sum(int(a) & int(b) for a, b in zip(g, v)) & 1) << i for i, g in enumerate(gens))


def frame(circ, vs, x, extra=()):
    """Affine forms of the final data error of one type, the fault locations; extra = additional one-fault errors."""
    fr, locs = C.faulty_frame(circ, vs)
    n = circ.num_qubits
    err = (fr.x if x else fr.z)[:n]
    for i, e in enumerate(extra):
        v = vs.new(f"extra{i}")
        locs.append((f"extra {i}", [v], ("extra", i, [])))
        err = [a ^ (v if int(b) else 0) for a, b in zip(err, e)]
    return err, locs


def lits_of(q, gens, err):
    out = []
    for g in gens:
        a = 0
        for i, b in enumerate(g):
            if b:
                a ^= err[i]
        out.append(q.lit(a))
    return out


def propagate(circ, faults, x):
    """Concrete replay of a fault list (plain Pauli propagation with stim's tableau simulator, independent of circ.Frame)."""
    import stim

    n = circ.num_qubits
    sc = []
    tot = np.zeros(n, dtype=int)
    for fl in faults:
        p, k = fl
        ps = stim.PauliString(n)
        for a, s in p.items():
            ps[int(a)] = s
        for name, q, _c, _ in C.ops_of(circ)[k:]:
            g = {"cx": "CX", "h": "H"}[name]
            ps = ps.after(stim.Circuit(f"{g} {' '.join(map(str, q))}"))
        xs, zs = ps.to_numpy()
        tot ^= (xs if x else zs).astype(int)
    return tot


def fs(name, zero, prep, hooks=False, reduce=True):
    def f(rep):
        import mqt.qecc.ft_stateprep.state_prep as sp

        c = code(name)
        s, circ = build(name, zero, prep, "none", False)
        if s is None:
            rep.truncated("the synthesis returned nothing")
            return
        n = c.n
        gx, gz = state_groups(c, zero)
        gx, gz = gf2.rref(gx)[0], gf2.rref(gz)[0]
        detect = c.distance == 2
        t = c.distance // 2 if detect else (c.distance - 1) // 2
        for x in (True, False):
            gens, same = (gz, gx) if x else (gx, gz)
            extra = []
            if hooks:
                # every suffix and every prefix class of the other type's generators, as the verification synthesis would pass them
                extra = [r for g in gens[:2] for r in suffixes(g)]
                sets = s.combine_faults(np.array(extra, dtype=np.int8), x_errors=x)
            else:
                s.compute_fault_sets(reduce=reduce)
                sets = s.x_fault_sets if x else s.z_fault_sets
            for j in range(1, t + 1):
                mem = rows(sets[j]) if sets[j] is not None and len(sets[j]) else []
                w = scale(c, x) * j
                lab0 = f"{'X' if x else 'Z'} faults, {j} at a time"
                inp = {"code": name, "zero_state": zero, "prep": prep, "num_errors": j, "type": "x" if x else "z"}
                # (a) completeness
                vs = C.Vars()
                err, locs = frame(circ, vs, x, extra)
                q = C.Query(vs)
                lits = lits_of(q, gens, err)
                C.exclude(q, lits, C.low_weight_syndromes(gens, n, w) | {syn(gens, m) for m in mem})
                q.at_most(locs, j)
                q.s.set("timeout", 600000)
                r = rep.solve(q.s, what=lab0)
                if r == "unsat":
                    rep.proved("complete")
                elif r == "sat":
                    m = q.s.model()
                    tot = np.zeros(n, dtype=int)
                    fl = []
                    for d, vv, (kind, k, qq) in locs:
                        on = [any(z3.is_true(m.eval(y, model_completion=True)) for y in q.terms(v)) for v in vv]
                        if not any(on):
                            continue
                        fl.append(d)
                        if kind == "extra":
                            tot ^= np.array(extra[k], dtype=int)
                        else:
                            p = {a: "IXZY"[on[2 * i] + 2 * on[2 * i + 1]] for i, a in enumerate(qq) if on[2 * i] or on[2 * i + 1]}
                            tot ^= propagate(circ, [(p, k if kind == "before" else k + 1)], x)
                    sv = syn(gens, tot)
                    if sv not in {syn(gens, y) for y in mem} and sv not in C.low_weight_syndromes(gens, n, w):
                        rep.violation(lab0 + ": a dangerous fault is missing", {**inp, "faults": fl}, f"residual {tot.tolist()}")
                    else:
                        rep.notes.append(f"candidate not reproduced {inp} {fl}")
                # (b) soundness + (c) minimal representatives
                vs = C.Vars()
                err, locs = frame(circ, vs, x, extra)
                q = C.Query(vs)
                lits = lits_of(q, gens, err)
                q.at_most(locs, j)
                basis = same
                v2 = C.Vars()
                q2 = C.Query(v2)
                cs = [v2.new(f"c{i}") for i in range(len(basis))]
                ts = [v2.new(f"m{i}") for i in range(n)]
                rep_l = []
                for i in range(n):
                    a = ts[i]
                    for cf, b in zip(cs, basis):
                        if b[i]:
                            a ^= cf
                    rep_l.append(q2.lit(a))
                tv = [q2.lit(y) for y in ts]
                for mm in mem:
                    a = [l if (syn(gens, mm) >> i) & 1 else z3.Not(l) for i, l in enumerate(lits)]
                    r = rep.solve(q.s, *a, what=f"{lab0}: reachability of a member")
                    if r == "sat":
                        rep.proved("members caused by faults")
                    elif r == "unsat":
                        rep.violation(lab0 + ": a member that no such faults cause", {**inp, "member": mm})
                        break
                    wt = sum(mm)
                    if wt <= w:
                        rep.violation(lab0 + ": a harmless member", {**inp, "member": mm})
                        break
                    # smaller member of the class: as a fresh assertion in a push/pop
                    q2.s.push()
                    q2.s.add(z3.PbLe([(l, 1) for l in rep_l], wt - 1))
                    r = rep.solve(q2.s, *[l if b else z3.Not(l) for l, b in zip(tv, mm)], what=f"{lab0}: minimal member")
                    if r == "sat":
                        m = q2.s.model()
                        alt = [int(z3.is_true(m.eval(l, model_completion=True))) for l in rep_l]
                        if sum(alt) < wt and syn(gens, alt) == syn(gens, mm):
                            rep.violation(lab0 + ": representative is not of minimum weight", {**inp, "member": mm, "lighter": alt})
                            break
                    elif r == "unsat":
                        rep.proved("minimum-weight representatives")
                    q2.s.pop()
                if reduce and not hooks:
                    k = {syn(gens, y) for y in mem}
                    if len(k) != len(mem):
                        rep.violation(lab0 + ": equivalent members kept by the reduction", inp)
                rep.reach("sets")
            rep.sample({"circuit": f"{name} zero={zero} {prep}", "x": x, "members": [len(sets[j]) for j in range(1, t + 1)]})

    return f


def suffixes(g):
    g = list(g)
    out = []
    for i in range(len(g)):
        if g[i]:
            g = g[:i] + [0] + g[i + 1 :]
            if any(g):
                out.append(list(g))
    return out


class _Err(np.ndarray):
    """Object array of Booleans that survives the code's cast to bool."""

    def astype(self, *_a, **_k):
        return self


class _Opt:
    """Stands in for z3.Optimize: records what the code asks for."""

    last = None

    def __init__(self):
        self.asserts, self.obj = [], None
        _Opt.last = self

    def add(self, *a):
        self.asserts += list(a)

    def minimize(self, e):
        self.obj = e

    def check(self):
        raise _Stop

    def set(self, *a, **k):
        pass


class _Stop(Exception):
    pass


def leader(gens):
    """The optimisation problem built by _coset_leader is 'minimum weight over error + span(generators)' for every error."""

    def f(rep):
        import mqt.qecc.ft_stateprep.state_prep as sp

        n = len(gens[0])
        ev = [z3.Bool(f"in{i}") for i in range(n)]
        e = np.empty(n, dtype=object)
        e[:] = ev
        e = e.view(_Err)

        class Z:
            Optimize = _Opt

            def __getattr__(self, k):
                return getattr(z3, k)

        _Opt.last = None
        undo = patch((sp, "z3", Z()))()
        try:
            sp._coset_leader(e, np.array(gens, dtype=np.int8))
            cap = False
        except _Stop:
            cap = True
        except Exception as ex:  # noqa: BLE001
            rep.notes.append(f"encoding not captured: {type(ex).__name__}: {ex}")
            cap = False
        finally:
            undo()
        if not cap or _Opt.last is None or _Opt.last.obj is None:
            return concrete(rep)
        o = _Opt.last
        lead = [z3.Bool(f"e_{i}") for i in range(n)]
        names = {str(d) for a in o.asserts for d in _vars(a)}
        if not {str(l) for l in lead} <= names or not _vars(o.obj) <= set(map(str, lead)):
            return concrete(rep)  # variables were renamed
        rest = [z3.Bool(x) for x in sorted(names - {str(l) for l in lead} - {str(v) for v in ev})]
        A = z3.And(*o.asserts)
        # 1. every model of the assertions is a member of the class  2. every member is a model (for some coefficients)
        dual = gf2.nullspace([list(g) for g in gens], n)
        inclass = z3.And(*[z3.Not(_xor([z3.Xor(ev[i], lead[i]) for i in range(n) if d[i]])) for d in dual])
        s = z3.Solver()
        s.add(A, z3.Not(inclass))
        r = rep.solve(s)
        ok = r == "unsat"
        s = z3.Solver()
        s.add(inclass, z3.ForAll(rest, z3.Not(A)) if rest else z3.Not(A))
        s.set("timeout", 60000)
        r2 = rep.solve(s)
        ok2 = r2 == "unsat"
        s = z3.Solver()
        s.add(o.obj != z3.Sum([z3.If(l, 1, 0) for l in lead]))
        r3 = rep.solve(s)
        if ok and ok2 and r3 == "unsat":
            for _ in range(3):
                rep.proved("leader encoding")
        else:
            rep.notes.append(f"encoding differs ({r}, {r2}, {r3}); deciding on the computed leaders instead")
        return concrete(rep)

    def concrete(rep):
        """All errors: the leader that the real code computes is in the class and no lighter member exists (solver)."""
        import mqt.qecc.ft_stateprep.state_prep as sp

        n = len(gens[0])
        dual = gf2.nullspace([list(g) for g in gens], n)
        basis = gf2.rref([list(g) for g in gens])[0]
        for bits in itertools.product([0, 1], repeat=len(basis) and n):
            if n > 5 and sum(bits) not in (1, 2, n - 1):
                continue
            l = [int(b) for b in sp._coset_leader(np.array(bits, dtype=np.int8), np.array(gens, dtype=np.int8))]
            s = z3.Solver()
            cs = [z3.Bool(f"k{i}") for i in range(len(basis))]
            mem = [_xor([z3.BoolVal(bool(bits[i]))] + [cs[k] for k, b in enumerate(basis) if b[i]]) for i in range(n)]
            s.add(z3.PbLe([(m, 1) for m in mem], sum(l) - 1))
            r = rep.solve(s)
            if r == "sat" or syn(dual, l) != syn(dual, bits):
                rep.violation("coset leader is the lightest member of the class", {"generators": [list(g) for g in gens], "error": list(bits)}, f"returned {l}")
                return
            rep.proved("leaders")

    return f


def _xor(l):
    out = z3.BoolVal(False)
    for a in l:
        out = z3.Xor(out, a)
    return out


def _vars(e):
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(x))
        st += x.children()
    return out


def hook(n):
    """_hook_errors against the propagation of an ancilla error through the measurement the library builds."""

    def f(rep):
        import mqt.qecc.ft_stateprep.state_prep as sp
        from qiskit import QuantumCircuit

        for mask in range(1, 1 << n):
            stab = np.array([(mask >> i) & 1 for i in range(n)], dtype=np.int8)
            got = {tuple(int(b) & 1 for b in r) for r in sp._hook_errors([stab])}
            for zm in (True, False):
                class Sp:
                    num_qubits, circ, zero_state, max_x_errors, max_z_errors = n, QuantumCircuit(n), zm, 1, 1

                qc = sp._measure_ft_stabs(Sp, [] if zm else [stab], [stab] if zm else [], full_fault_tolerance=False)
                vs = C.Vars()
                fr, locs = C.faulty_frame(qc, vs)
                q = C.Query(vs)
                for m_ in fr.m:
                    q.equal(m_, 0)
                err = (fr.z if zm else fr.x)[:n]
                el = [q.lit(a) for a in err]
                # a single fault outside the data qubits' own weight-one errors: class modulo the measured operator
                q.at_most(locs, 1)
                q.s.add(z3.PbGe([(e, 1) for e in el], 2))
                st = tuple(int(b) for b in stab)
                allowed = set()
                for g in got | {st}:
                    comp = tuple(a ^ b for a, b in zip(g, st))
                    for base in (g, comp):
                        allowed.add(base)
                        # together with the data part of the same two-qubit fault
                        for i in range(n):
                            allowed.add(tuple(b ^ (1 if k == i else 0) for k, b in enumerate(base)))
                ok_hooks = {g for g in got} | {tuple(a ^ b for a, b in zip(g, st)) for g in got} | {st}
                for a in ok_hooks:
                    q.s.add(z3.Or(*[z3.Not(l) if b else l for l, b in zip(el, a)]))
                r = rep.solve(q.s)
                if r == "unsat":
                    rep.proved("hooks")
                elif r == "sat":
                    m = q.s.model()
                    bad = [int(z3.is_true(m.eval(l, model_completion=True))) for l in el]
                    rep.violation("every hook error of a verification measurement is listed", {"stabilizer": list(st), "z_measurement": zm, "hook": bad}, f"listed {sorted(got)}")
                    return

    return f


def harnesses(tier):
    th = tier == "thorough"
    out = []
    inst = []
    names = ["steane", "hex3", "shor", "surface3", "steane_mixed", "tetrahedral", "hamming", "carbon", "422", "redundant", "asym", "sqoct5", "hex5"]
    for nm in names:
        for z in (True, False):
            inst.append((nm, z, "heuristic"))
            if th or nm in ("steane", "shor", "surface3", "hamming"):
                inst.append((nm, z, "heuristic-serial"))
    for nm in ("steane", "surface3", "shor"):
        inst += [(nm, True, "padded"), (nm, False, "padded")]
    if th:
        for nm in ("steane", "shor", "surface3", "422"):
            for z in (True, False):
                inst += [(nm, z, "gate"), (nm, z, "depth")]
    for nm, z, p in inst:
        if code(nm).distance < 2:
            continue
        out.append(Harness(f"{nm} {'zero' if z else 'plus'} {p}", fs(nm, z, p), kind="direct", functions=FN, must_reach=["sets", "complete"], bounds="all combinations of up to t faults of the circuit"))
        if p == "heuristic" and nm in ("steane", "shor", "surface3", "hamming", "carbon", "sqoct5"):
            out.append(Harness(f"{nm} {'zero' if z else 'plus'} {p} with additional faults", fs(nm, z, p, hooks=True), kind="direct", functions=FN, must_reach=["sets", "complete"],
                               bounds="all combinations of up to t faults of the circuit and of the additional errors (all suffixes of two generators)"))
            out.append(Harness(f"{nm} {'zero' if z else 'plus'} {p} unreduced", fs(nm, z, p, reduce=False), kind="direct", functions=FN, must_reach=["sets", "complete"], bounds="as above, reduce=False"))
    for k, g in enumerate([[[1, 1, 0, 0], [0, 1, 1, 1]], [[1, 1, 1, 1]], [[1, 1, 0], [0, 1, 1], [1, 0, 1]], [[1, 1, 0, 1, 0], [0, 1, 1, 0, 1], [1, 1, 1, 1, 1]],
                           [[1, 0, 1, 0, 1, 0, 1], [0, 1, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]], [[0, 0, 1], [0, 0, 0]]]):
        out.append(Harness(f"coset leader {k}", leader(g), kind="direct", functions=["_coset_leader", "_vars_to_stab", "_symbolic_vector_add", "_symbolic_vector_eq"], must_reach=["leaders"], bounds=f"every error on {len(g[0])} qubits, generators {g}"))
    for n in (3, 5) if not th else (3, 5, 7):
        out.append(Harness(f"hook errors n={n}", hook(n), kind="direct", functions=["_hook_errors", "_measure_ft_stabs"], must_reach=["hooks"], bounds=f"all operators on {n} qubits, all single faults of their measurement"))
    return out
