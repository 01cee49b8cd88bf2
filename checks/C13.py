"""C13: the noisy preparation simulator simulates the given circuit and counts exactly what happens."""
from __future__ import annotations

import numpy as np
import z3

import circ as C
import dist
import gf2
import symx
from codescommon import code
from prep import build, rows, state_groups
from runner import Harness
from symx import NumpyProxy, R, S, ite, patch, s_and, s_iff, s_not, s_or, symarray

ASSUMPTIONS = [
    "stim executes the circuit it is given; sampled outcomes are replaced by arbitrary (symbolic) outcomes",
    "noise model as documented: 2p/3 initialisation and measurement flips, DEPOLARIZE2(p) after CX, DEPOLARIZE1(2p/3) after H and on idle qubits; idling in the last layer is not specified",
]
OUTSIDE = ["plots", "circuits with operations other than H, CX, measure, reset", "more than three batches of two shots"]
FN = ["NoisyNDFTStatePrepSimulator.__init__", "set_p", "to_stim_circ", "measure_stabilizers", "measure_z", "measure_x", "logical_error_rate", "_simulate_batch", "LutDecoder"]


class Rec:
    """Recording stand-in for stim.Circuit; noise probabilities may be symbolic."""

    def __init__(self, *a):
        if a:
            raise symx.Unsupported("stim program text")
        self.ops = []

    def append_operation(self, name, targets=(), arg=None):
        t = [targets] if isinstance(targets, (int, np.integer)) else list(targets)
        if arg is not None and isinstance(arg, (list, tuple)):
            arg = arg[0] if len(arg) else None
        self.ops.append((str(name), [int(x) for x in t], arg))

    append = append_operation

    @property
    def num_qubits(self):
        return 1 + max([q for _, t, _ in self.ops for q in t], default=-1)

    @property
    def num_measurements(self):
        return sum(len(t) for n, t, _ in self.ops if n in ("M", "MR", "MX", "MRX", "MZ", "MRZ"))

    def __iadd__(self, o):
        self.ops += o.ops
        return self


class StimMod:
    Circuit = Rec


def flat(ops):
    out = []
    for n, t, a in ops:
        n = {"CNOT": "CX", "MZ": "M", "MRZ": "MR", "RZ": "R", "ZCX": "CX"}.get(n, n)
        if n == "TICK":
            continue
        k = 2 if n in ("CX", "DEPOLARIZE2") else 1
        for i in range(0, len(t), k):
            out.append((n, t[i:i + k], a))
    return out


NOISE = {"X_ERROR": "x", "Z_ERROR": "z", "Y_ERROR": "y", "DEPOLARIZE1": "d1", "DEPOLARIZE2": "d2"}


def stim_ops(sim):
    sc = sim.stim_circ
    if isinstance(sc, Rec):
        return flat(sc.ops)
    return flat([(i.name, [t.value for t in i.targets_copy()], (i.gate_args_copy() or [None])[0]) for i in sc.flattened()])


def make_sim(circ, c, zero, parallel, p):
    import mqt.qecc.ft_stateprep.simulation as sim

    if isinstance(p, R):
        undo = patch((sim, "stim", StimMod))()
        try:
            return sim.NoisyNDFTStatePrepSimulator(circ, c, p, zero_state=zero, parallel_gates=parallel)
        finally:
            undo()
    return sim.NoisyNDFTStatePrepSimulator(circ, c, p, zero_state=zero, parallel_gates=parallel)


def layers(ops, nq, nc):
    """ASAP levels of the given operations (data dependencies on quantum and classical wires)."""
    ql, cl, out = [0] * nq, [0] * nc, []
    for name, q, cb, _ in ops:
        if name == "barrier":
            lv = max(ql[a] for a in q)
            for a in q:
                ql[a] = lv
            out.append(None)
            continue
        lv = max([ql[a] for a in q] + [cl[b] for b in cb])
        for a in q:
            ql[a] = lv + 1
        for b in cb:
            cl[b] = lv + 1
        out.append(lv)
    return out


class Expect:
    """The documented noise of the given circuit: sites (class, qubits, positions) with position = operations done on the qubit."""

    def __init__(self, orig, ops, nq, nc, parallel):
        self.sites = {}
        self.optional = {}
        level_of = dict(zip(map(id, orig), layers(orig, nq, nc)))
        lv = [level_of.get(id(o)) for o in ops]
        for i in reversed(range(len(ops))):  # collapsed Hadamards act together with the operation that follows
            if lv[i] is None:
                lv[i] = lv[i + 1] if i + 1 < len(ops) else max([x for x in level_of.values() if x is not None], default=0)
        # positions and lives follow the order in which operations are executed: layer by layer
        order = sorted((i for i in range(len(ops)) if lv[i] is not None), key=lambda i: (lv[i], i))
        pos = [0] * nq
        live = [False] * nq
        measured = [False] * nq
        top = max([x for x in level_of.values() if x is not None], default=-1)
        for level in range(top + 1):
            used = set()
            for i in [i for i in order if lv[i] == level]:
                name, q, _c, _ = ops[i]
                physical = True
                if name == "h" and not live[q[0]]:
                    pos[q[0]] += 1
                    continue
                if name in ("cx", "measure"):
                    for a in q:
                        if not live[a]:
                            live[a] = True
                            self.add("init", [a], [pos[a]])
                if name == "measure":
                    self.add("mflip", q, [pos[q[0]]])
                    measured[q[0]] = True
                for a in q:
                    pos[a] += 1
                if name == "h":
                    self.add("d1", q, [pos[q[0]]])
                elif name == "cx":
                    self.add("d2", q, [pos[a] for a in q])
                if name == "reset":
                    physical = live[q[0]]
                if name in ("measure", "reset"):
                    live[q[0]] = False
                if physical:
                    used |= set(q)
            if parallel and used:
                for a in range(nq):
                    if live[a] and a not in used:
                        (self.add if level < top else self.opt)("d1", [a], [pos[a]])
        for a in range(nq):
            if not live[a] and not measured[a]:
                self.opt("init", [a], [pos[a]])

    def add(self, cls, q, pos):
        k = (cls, tuple(q), tuple(pos))
        self.sites[k] = self.sites.get(k, 0) + 1

    def opt(self, cls, q, pos):
        k = (cls, tuple(q), tuple(pos))
        self.optional[k] = self.optional.get(k, 0) + 1


def normal(ops):
    """Hadamards on a qubit that has not been used yet collapse to at most one, placed before its first use; resets of fresh qubits vanish."""
    used, pend, out = {}, {}, []

    def flush(a, like):
        if pend.pop(a, 0):
            out.append(like("h", a))

    for op in ops:
        nm, t = op[0], op[1]
        if nm == "barrier":
            continue
        like = (lambda n_, a: (n_, [a], [], None)) if len(op) == 4 else (lambda n_, a: (n_.upper(), [a], None))
        if nm in ("h", "H") and not used.get(t[0]):
            pend[t[0]] = pend.get(t[0], 0) ^ 1
            continue
        if nm in ("reset", "R") and not used.get(t[0]):
            pend.pop(t[0], None)
            continue
        for a in t:
            flush(a, like)
            used[a] = True
        out.append(op)
        if nm in ("measure", "reset", "M", "MR", "MRX", "R"):
            used[t[0]] = False
    for a in sorted(pend):
        flush(a, like)
    return out


def sequential(exp, ops, nq, _n):
    """Sequential mode: after every operation each other live qubit idles once (in the order of the simulated circuit)."""
    live, pos = [False] * nq, [0] * nq
    k = len(ops) - 1
    while ops[k][0] not in NOISE:  # the preparation part ends with its last noise operation or its last measurement
        k -= 1
    for nm, t, _a in ops[:k + 1]:
        if nm in ("X_ERROR", "Z_ERROR"):
            live[t[0]] = True
        if nm in NOISE:
            continue
        first = nm == "H" and not live[t[0]]
        for a in t:
            pos[a] += 1
        if nm in ("MR", "M", "R"):
            live[t[0]] = False
        if not first:
            for a in range(nq):
                if live[a] and a not in t:
                    exp.add("d1", [a], [pos[a]])


def circuit(cname, zero, mk, parallel, valid=True):
    def f(rep):
        c = code(cname)
        circ = mk(c)
        n, nq, nc = c.n, circ.num_qubits, circ.num_clbits
        try:
            pz = z3.Real("p")
            sim = make_sim(circ, c, zero, parallel, R(pz))
        except (symx.Unsupported, AttributeError, TypeError):
            pz = 0.0078125
            sim = make_sim(circ, c, zero, parallel, pz)
        ops = stim_ops(sim)
        inp = {"code": cname, "zero_state": zero, "parallel": parallel}
        orig = C.ops_of(circ)
        given = normal(orig)
        ops = normal(ops)
        exp = Expect(orig, given, nq, nc, parallel)
        if not parallel:
            sequential(exp, ops, nq, sum(1 for o in given if o[0] not in ("h", "barrier")) + 0)
        # number of operations of the preparation part
        n_prep_meas = sum(1 for nm, *_ in given if nm == "measure")
        hx, hz = rows(c.Hx), rows(c.Hz)

        # ---- the simulated circuit, with one symbolic Pauli per noise site
        vs = C.Vars()
        nst = 1 + max(max(t) for _, t, _ in ops)
        nst = max(nst, nq)
        fr = C.Frame(nst, 1)
        meas = []
        cnt = [0] * nst
        inject = {}  # (qubit, position) -> (x form, z form) of the faults before the next operation
        inject_m = {}
        sites, locs, probs = {}, [], {}
        # everything up to the first stabilizer measurement is the preparation; it ends after the last noise site / prep op
        total_given = [0] * nst
        for nm, q, _c, _ in given:
            if nm != "barrier":
                for a in q:
                    total_given[a] += 1
        started = [False] * nst
        for nm, t, a in ops:
            if nm in NOISE:
                key_pos = [cnt[x] for x in t]
                if nm in ("DEPOLARIZE1", "DEPOLARIZE2"):
                    cls = NOISE[nm]
                    vv = []
                    for x in t:
                        fx, fz = vs.new(f"s{len(locs)}.x{x}"), vs.new(f"s{len(locs)}.z{x}")
                        vv += [fx, fz]
                        fr.x[x] ^= fx
                        fr.z[x] ^= fz
                        px, pz_ = inject.get((x, cnt[x]), (0, 0))
                        inject[(x, cnt[x])] = (px ^ fx, pz_ ^ fz)
                else:
                    x = t[0]
                    fm = vs.new(f"s{len(locs)}.{NOISE[nm]}{x}")
                    vv = [fm]
                    ex, ez = (fm if NOISE[nm] in "xy" else 0), (fm if NOISE[nm] in "zy" else 0)
                    fr.x[x] ^= ex
                    fr.z[x] ^= ez
                    px, pz_ = inject.get((x, cnt[x]), (0, 0))
                    inject[(x, cnt[x])] = (px ^ ex, pz_ ^ ez)
                    cls = "mflip" if started[x] else "init"
                    started[x] = True
                k = (cls, tuple(t), tuple(key_pos))
                sites.setdefault(k, []).append((nm, a))
                locs.append((f"{nm} {t}", vv, None))
            elif nm in ("MR", "M"):
                meas.append((fr.x[t[0]], t[0], "z", len(meas)))
                if nm == "MR":
                    fr.x[t[0]] = 0
                    started[t[0]] = False
                fr.z[t[0]] = 0
                cnt[t[0]] += 1
            elif nm in ("MRX", "MX"):
                meas.append((fr.z[t[0]], t[0], "x", len(meas)))
                if nm == "MRX":
                    fr.z[t[0]] = 0
                fr.x[t[0]] = 0
                cnt[t[0]] += 1
            elif nm == "R":
                fr.x[t[0]] = fr.z[t[0]] = 0
                started[t[0]] = False
                cnt[t[0]] += 1
            else:
                fr.gate(nm.lower(), t)
                for a_ in t:
                    cnt[a_] += 1
        # ---- noise sites: exactly the documented ones, with the documented probability for every p
        want = {"init": 2, "mflip": 2, "d1": 2, "d2": 3}
        s = dist.solver() if not isinstance(pz, float) else None
        for k, occ in sites.items():
            lo = exp.sites.get(k, 0)
            if not lo <= len(occ) <= lo + exp.optional.get(k, 0):
                rep.violation("noise is added exactly where documented", {**inp, "site": str(k)}, f"{len(occ)} noise operations, documented {lo}")
                return
            for nm, a in occ:
                ok = _prob(rep, s, a, pz, want[k[0]])
                if not ok:
                    rep.violation("noise has the documented strength", {**inp, "site": str(k)}, f"{nm} with probability {a}")
                    return
        missing = [k for k in exp.sites if k not in sites]
        if missing:
            rep.violation("noise is added exactly where documented", {**inp, "site": str(missing[0])}, "missing")
            return
        rep.trivial("noise sites")
        # ---- the given circuit with the same faults
        g = C.Frame(nst, max(nc, 1))
        gm = []
        gpos = [0] * nst

        def put(x):
            ex, ez = inject.pop((x, gpos[x]), (0, 0))
            g.x[x] ^= ex
            g.z[x] ^= ez

        for nm, q, cb, _ in given:
            if nm == "barrier":
                continue
            for x in q:
                put(x)
            if nm == "measure":
                gm.append((g.x[q[0]], q[0]))
                g.z[q[0]] = 0
            else:
                g.gate(nm, q)
            for x in q:
                gpos[x] += 1
        for x in range(nst):
            put(x)
        ver = sorted(sim.x_verification_measurements + sim.z_verification_measurements)
        if ver != list(range(n_prep_meas)):
            rep.violation("acceptance uses every verification outcome", inp, f"verification indices {ver}, {n_prep_meas} measurements")
            return
        rep.trivial("verification indices")
        q = C.Query(vs)
        for m in range(n_prep_meas):
            q.equal(meas[m][0], 0)  # accepted runs
        by_q = {}
        for m in range(n_prep_meas):
            by_q.setdefault(meas[m][1], []).append(meas[m][0])
        diffs = []
        occ = {}
        acc_g = []
        for form, x in gm:
            k = occ.get(x, 0)
            occ[x] = k + 1
            fs = by_q.get(x, [])
            acc_g.append(("verification outcome", form, fs[k] if k < len(fs) else None))
        for lab, form, got in acc_g:
            if got is None:
                rep.violation("the simulated circuit is the given circuit", inp, "a measurement is missing")
                return
            diffs.append((lab, form ^ got))
        xm, zm, dm = sim.x_measurements, sim.z_measurements, sim.data_measurements
        if len(xm) != len(hx) or len(zm) != len(hz) or len(dm) != n:
            rep.violation("every generator and every data qubit is measured once", inp, f"{len(xm)}, {len(zm)}, {len(dm)}")
            return
        for ixs, h, comp, lab in ((xm, hx, g.z, "X stabilizer measurement"), (zm, hz, g.x, "Z stabilizer measurement")):
            for i, r in zip(ixs, h):
                form = 0
                for j in range(n):
                    if r[j]:
                        form ^= comp[j]
                diffs.append((lab, meas[i][0] ^ form))
        # data outcomes: propagated on the given circuit up to stabilizers of the state (X-type measurement randomises nothing visible)
        for j, i in enumerate(dm):
            diffs.append(("data measurement", meas[i][0] ^ (g.x[j] if zero else g.z[j])))
        for lab, d in diffs:
            r = rep.solve(q.s, q.lit(d), what=lab) if d else "unsat"
            if not d:
                rep.trivial(lab)
            elif r == "unsat":
                rep.proved(lab)
            elif r == "sat":
                rep.violation(f"faults act as in the given circuit: {lab}", inp, [l[0] for l in locs if any(z3.is_true(q.s.model().eval(x, model_completion=True)) for v in l[1] for x in q.terms(v))])
                return
        # ---- noise-free run: accepted, no logical error
        _noiseless(rep, ops, sim, c, zero, nst, n, ver, circ, inp, valid)
        rep.sample({**inp, "noise sites": len(locs), "measurements": len(meas)})

    return f


def _prob(rep, s, a, p, num):
    from fractions import Fraction

    k = Fraction(2, 3) if num == 2 else Fraction(1)
    if s is None:
        return a is not None and abs(float(a) - float(k) * p) < 1e-12
    if isinstance(a, R):
        a = a.e
    elif a is None:
        return False
    else:
        a = z3.RealVal(str(a))
    e = z3.simplify(a - z3.RealVal(f"{k.numerator}/{k.denominator}") * p)
    if z3.is_rational_value(e):
        rep.trivial("strength")
        return abs(float(e.as_fraction())) < 1e-12
    return rep.solve(s, p > 0, p < 1, z3.Or(e > z3.RealVal("1e-12"), e < -z3.RealVal("1e-12")), what="strength") == "unsat"


def _noiseless(rep, ops, sim, c, zero, nst, n, ver, circ, inp, valid):
    vs = C.Vars()
    t = C.Tableau(nst)
    rnd = []

    def fresh():
        rnd.append(vs.new(f"r{len(rnd)}"))
        return rnd[-1]

    out = []
    for nm, q, _a in ops:
        if nm in NOISE:
            continue
        if nm in ("MRX", "MX"):
            t.gate("h", q)
            out.append(t.measure(q[0], fresh)[0])
            if nm == "MRX":
                x = np.zeros(nst, dtype=np.uint8)
                x[q[0]] = 1
                t.pauli(x, np.zeros(nst), out[-1])
            t.gate("h", q)
        elif nm in ("MR", "M"):
            out.append(t.measure(q[0], fresh)[0])
            if nm == "MR":
                x = np.zeros(nst, dtype=np.uint8)
                x[q[0]] = 1
                t.pauli(x, np.zeros(nst), out[-1])
        elif nm == "R":
            t.reset(q[0], fresh)
        else:
            t.gate(nm.lower(), q)
    if len(out) != sim.n_measurements:
        rep.violation("measurements are numbered as they occur", inp, f"{len(out)} outcomes, {sim.n_measurements} counted")
        return
    if not valid:
        return
    q = C.Query(vs)
    bad = [("accepted", out[v]) for v in ver]
    bad += [("syndrome zero", out[v]) for v in (sim.z_measurements if zero else sim.x_measurements)]
    for row in rows(c.Lz if zero else c.Lx):
        f = 0
        for j in range(n):
            if row[j]:
                f ^= out[sim.data_measurements[j]]
        bad.append(("no logical error", f))
    for lab, f in bad:
        if f == 0:
            rep.trivial("noise-free " + lab)
        elif rep.solve(q.s, q.lit(f), what="noise-free " + lab) == "sat":
            rep.violation("noise-free " + lab, inp)
            return
        else:
            rep.proved("noise-free " + lab)


# ------------------------------------------------------------------ end to end: single faults
def end_to_end(cname, zero, prep, ver, parallel):
    def f(rep):
        c = code(cname)
        _sp, circ = build(cname, zero, prep, ver, False)
        sim = make_sim(circ, c, zero, parallel, 0.0078125)
        ops = stim_ops(sim)
        vs = C.Vars()
        nst = 1 + max(max(t) for _, t, _ in ops)
        fr = C.Frame(nst, 1)
        meas, locs = [], []
        for nm, t, _a in ops:
            if nm in NOISE:
                vv = []
                for x in t:
                    if nm != "Z_ERROR":
                        v = vs.new(f"s{len(locs)}.x{x}")
                        fr.x[x] ^= v
                        vv.append(v)
                    if nm != "X_ERROR":
                        v = vs.new(f"s{len(locs)}.z{x}")
                        fr.z[x] ^= v
                        vv.append(v)
                locs.append((f"{nm} {t}", vv, None))
            elif nm in ("MR", "M", "MRX", "MX"):
                a, b = (fr.x, fr.z) if nm in ("MR", "M") else (fr.z, fr.x)
                meas.append(a[t[0]])
                b[t[0]] = 0
                if nm in ("MR", "MRX"):
                    a[t[0]] = 0
            else:
                fr.gate(nm.lower(), t)
        q = C.Query(vs)
        q.at_most(locs, 1)
        for m in sim.x_verification_measurements + sim.z_verification_measurements:
            q.equal(meas[m], 0)
        ix = sim.z_measurements if zero else sim.x_measurements
        synd = [q.lit(meas[i]) for i in ix]
        h = rows(c.Hz if zero else c.Hx)
        log = rows(c.Lz if zero else c.Lx)
        dec = sim.decoder.decode_x if zero else sim.decoder.decode_z
        n = c.n
        span = {tuple([0] * len(h))}
        for j in range(n):
            span |= {tuple(a ^ r[j] for a, r in zip(v, h)) for v in span}
        for li, row in enumerate(log):
            form = 0
            for j in range(n):
                if row[j]:
                    form ^= meas[sim.data_measurements[j]]
            lit = q.lit(form)
            flips = [v for v in span if sum(int(b) & r for b, r in zip(dec(np.array(v, dtype=np.int8)), row)) & 1]
            fl = z3.Or(*[z3.And(*[s if b else z3.Not(s) for s, b in zip(synd, v)]) for v in flips])
            bad = z3.Bool(f"bad{li}")
            q.s.add(bad == z3.Xor(lit, fl))
            r = rep.solve(q.s, bad, what="one fault")
            if r == "unsat":
                rep.proved("one fault: discarded or no logical error")
            elif r == "sat":
                m = q.s.model()
                on = [l[0] for l in locs if any(z3.is_true(m.eval(x, model_completion=True)) for v in l[1] for x in q.terms(v))]
                rep.violation("one fault: discarded or no logical error", {"code": cname, "zero_state": zero, "fault": on, "logical": li})
                return
        rep.sample({"code": cname, "zero": zero, "noise sites": len(locs)})

    return f


# ------------------------------------------------------------------ counting
class Sampler:
    def __init__(self, batches):
        self.batches = batches
        self.calls = []

    def compile_sampler(self, **_k):
        return self

    def sample(self, shots=None, **_k):
        self.calls.append(int(shots))
        b = self.batches[len(self.calls) - 1]
        assert b.shape[0] == shots, "more shots drawn than requested"
        return b


def _conc(a):
    return a


def reference(sim, c, zero, ev):
    """Per shot: (accepted, logical error) from the outcomes alone; decoding by the table's own corrections."""
    out = []
    ver = list(sim.x_verification_measurements) + list(sim.z_verification_measurements)
    ix = sim.z_measurements if zero else sim.x_measurements
    h = rows(c.Hz if zero else c.Hx)
    log = rows(c.Lz if zero else c.Lx)
    dec = sim.decoder.decode_x if zero else sim.decoder.decode_z
    span = {tuple([0] * len(h))}
    for j in range(c.n):
        span |= {tuple(a ^ r[j] for a, r in zip(v, h)) for v in span}
    table = {v: [int(b) for b in dec(np.array(v, dtype=np.int8))] for v in span}
    for shot in range(ev.shape[0]):
        o = lambda i: ev[shot, i]  # noqa: E731
        acc = s_not(s_or(*[o(i) for i in ver])) if ver else True
        bad = False
        for row in log:
            par = S(0)
            for j in range(c.n):
                if row[j]:
                    par = par ^ S.of(o(sim.data_measurements[j]))
            fl = [v for v, e in table.items() if sum(a & b for a, b in zip(e, row)) & 1]
            corr = s_or(*[s_and(*[o(i) if b else s_not(o(i)) for i, b in zip(ix, v)]) for v in fl]) if fl else False
            bad = s_or(bad, s_not(s_iff(par, corr)))
        out.append((acc, s_and(acc, bad)))
    return out, span, ix


def counting(cname, zero, ver, shots, batch, at_least=False, min_errors=1, nbatches=None, free=None):
    def f(ctx):
        c = code(cname)
        sim = _cache(cname, zero, ver)
        nb = nbatches or -(-shots // batch)
        nm = sim.n_measurements
        keep = free or range(nm)
        batches = []
        for b in range(nb):
            arr = [[ctx.bit(f"b{b}s{i}m{m}") if m in set(keep(sim) if callable(keep) else keep) else S(0) for m in range(nm)] for i in range(batch)]
            batches.append(symarray(np.array(arr, dtype=object)) if not isinstance(ctx, symx.ConcCtx) else np.array([[bool(x) for x in r] for r in arr]))
        refs = [reference(sim, c, zero, b) for b in batches]
        # syndromes outside the column span never occur
        for (r, span, ix), b in zip(refs, batches):
            if len(span) < 2 ** len(ix):
                for s in range(batch):
                    ctx.assume(s_or(*[s_and(*[b[s, i] if v else s_not(b[s, i]) for i, v in zip(ix, w)]) for w in span]))
        num = [sum((ite(e, 1, 0) for _a, e in r), S(0)) for r, _s, _i in refs]
        accs = [sum((ite(a, 1, 0) for a, _e in r), S(0)) for r, _s, _i in refs]
        if at_least:
            tot = S(0)
            for x in num:
                tot = tot + x
            ctx.assume(tot >= min_errors)
        sam = Sampler(batches)
        old = sim.stim_circ
        sim.stim_circ = sam
        try:
            p_l, r_a, n_err, total = sim.logical_error_rate(shots=shots, shots_per_batch=batch, at_least_min_errors=at_least, min_errors=min_errors)
        finally:
            sim.stim_circ = old
        used = len(sam.calls)
        if at_least:
            part = S(0)
            for i in range(used):
                ctx.check(part < min_errors, "stops once enough errors are found")
                part = part + num[i]
            ctx.check(part >= min_errors, "runs until enough errors are found")
        else:
            ctx.check(used == nb, "as many batches as needed for the shots", {"batches": used})
        err, acc = S(0), S(0)
        for i in range(used):
            err, acc = err + num[i], acc + accs[i]
        ctx.check(total == used * batch, "number of shots used", {"reported": str(total)})
        ctx.check(S.of(int(n_err)) == err if not isinstance(n_err, S) else n_err == err, "number of logical errors")
        ctx.check(_close(r_a, acc, used * batch), "acceptance rate")
        same = s_and(*[accs[i] == accs[0] for i in range(used)])
        # p_l * k * accepted == errors (all batches accepting equally many shots, where mean of rates and rate of totals agree)
        if used == 1:
            ctx.check(s_or(acc == 0, _close(p_l * c.k, err, acc)), "logical error rate")
        else:
            ctx.check(s_or(s_not(same), acc == 0, _close(p_l * c.k, err, acc)), "logical error rate")
        ctx.check(s_or(s_not(acc == 0), _close(p_l, S(0), 1)), "logical error rate without accepted shots")

    return f


def _close(value, num, den):
    """value == num/den (up to float rounding when value is concrete)."""
    num, den = S.of(num), S.of(den)
    if isinstance(value, R):
        return value * R.of(den) == R.of(num)
    if isinstance(value, S):
        return value * den == num
    from fractions import Fraction

    v = Fraction(float(value)).limit_denominator(10**6)
    return den * v.numerator == num * v.denominator


_SIM = {}


def _cache(cname, zero, ver):
    k = (cname, zero, ver)
    if k not in _SIM:
        import mqt.qecc.ft_stateprep.simulation as simm

        undo = patch((simm, "np", np))()
        try:
            _sp, circ = build(cname, zero, "heuristic", ver, ver == "naive")
            sim = make_sim(circ, code(cname), zero, True, 0.0078125)
            sim.decoder.generate_x_lut()
            sim.decoder.generate_z_lut()
        finally:
            undo()
        _SIM[k] = sim
    return _SIM[k]


def setup():
    import mqt.qecc.ft_stateprep.simulation as sim

    return patch((sim, "np", NumpyProxy()))()


# ------------------------------------------------------------------ circuits
def built(cname, zero, prep, ver, full=False):
    return lambda c: build(cname, zero, prep, ver, full)[1]


def late_h(c):
    """|0>_L of the code prepared with redundant operations: Hadamards in pairs, on targets, on measured qubits; reuse of an ancilla."""
    from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister

    base = build(c._vname, True, "heuristic", "none", False)[1]
    q, a, m = QuantumRegister(c.n, "q"), AncillaRegister(2, "a"), ClassicalRegister(4, "m")
    qc = QuantumCircuit(q, a, m)
    qc.h(q[0])
    qc.h(q[0])
    qc.compose(base, qubits=list(q), inplace=True)
    hz = rows(c.Hz)
    hx = rows(c.Hx)
    for k in range(3):  # one ancilla, three lives
        for j in range(c.n):
            if hz[k % len(hz)][j]:
                qc.cx(q[j], a[0])
        qc.measure(a[0], m[k])
    qc.h(a[1])
    for j in range(c.n):
        if hx[0][j]:
            qc.cx(a[1], q[j])
    qc.h(a[1])
    qc.measure(a[1], m[3])
    return qc


def mixed_reuse(c):
    """One ancilla measures an X generator, then (after reset) a Z generator, then an X generator again."""
    from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister

    base = build(c._vname, True, "heuristic", "none", False)[1]
    q, a, m = QuantumRegister(c.n, "q"), AncillaRegister(1, "a"), ClassicalRegister(3, "m")
    qc = QuantumCircuit(q, a, m)
    qc.compose(base, qubits=list(q), inplace=True)
    hx, hz = rows(c.Hx), rows(c.Hz)
    for k, (typ, row) in enumerate((("x", hx[0]), ("z", hz[0]), ("x", hx[-1]))):
        if typ == "x":
            qc.h(a[0])
        for j in range(c.n):
            if row[j]:
                qc.cx(*((a[0], q[j]) if typ == "x" else (q[j], a[0])))
        if typ == "x":
            qc.h(a[0])
        qc.measure(a[0], m[k])
        qc.reset(a[0])
    return qc


def h_then_target(c):
    """Not a preparation of the code state: exercises Hadamards on targets and on qubits without any CX."""
    from qiskit import QuantumCircuit

    qc = QuantumCircuit(c.n)
    qc.h(0)
    qc.h(1)
    qc.cx(0, 1)
    qc.h(2)
    qc.cx(3, 0)
    qc.h(0)
    qc.cx(0, 3)
    return qc


def named(cname, g):
    def mk(c):
        c._vname = cname
        return g(c)

    return mk


def harnesses(tier):
    th = tier == "thorough"
    out = []
    B = "every Pauli at every noise site (symbolic), every error rate"
    M = ["noise sites", "data measurement"]
    insts = [("steane", z, pr, v, fu) for z in (True, False) for pr in ("heuristic", "heuristic-serial") for v, fu in (("none", False), ("heuristic", False), ("optimal", False), ("heuristic", True))]
    insts += [("shor", z, "heuristic", v, fu) for z in (True, False) for v, fu in (("none", False), ("heuristic", False), ("heuristic", True))]
    insts += [("surface3", z, "heuristic", v, False) for z in (True, False) for v in ("none", "heuristic")]
    insts += [("steane", True, "heuristic", "naive", False), ("422", True, "heuristic", "none", False), ("redundant", True, "heuristic", "none", False), ("carbon", True, "heuristic", "heuristic", False), ("steane", True, "padded", "heuristic", False)]
    if th:
        insts += [("tetrahedral", z, "heuristic", "heuristic", fu) for z in (True, False) for fu in (False, True)]
        insts += [("hamming", True, "heuristic", "none", False), ("carbon", False, "heuristic", "heuristic", True), ("hex5", True, "heuristic", "none", False)]
    for nm, z, pr, v, fu in insts:
        for par in (True, False) if nm in ("steane", "shor") else (True,):
            out.append(Harness(f"circuit {nm} {'zero' if z else 'plus'} {pr}/{v}{' full' if fu else ''}{'' if par else ' sequential'}", circuit(nm, z, built(nm, z, pr, v, fu), par), kind="direct", functions=FN, must_reach=M, bounds=B))
    for nm in ("steane", "surface3"):
        for par in (True, False):
            tag = "" if par else " sequential"
            out.append(Harness(f"circuit {nm} reused ancilla{tag}", circuit(nm, True, named(nm, late_h), par), kind="direct", functions=FN, must_reach=M, bounds=B))
            out.append(Harness(f"circuit {nm} mixed ancilla{tag}", circuit(nm, True, named(nm, mixed_reuse), par), kind="direct", functions=FN, must_reach=M, bounds=B))
            out.append(Harness(f"circuit {nm} bare hadamards{tag}", circuit(nm, True, named(nm, h_then_target), par, valid=False), kind="direct", functions=FN, must_reach=M, bounds=B))
    for nm, z, v in [("steane", True, "heuristic"), ("steane", False, "heuristic"), ("steane", True, "optimal"), ("shor", True, "heuristic"), ("shor", False, "heuristic"), ("surface3", True, "heuristic"), ("surface3", False, "heuristic")] + ([("tetrahedral", True, "heuristic")] if th else []):
        for par in (True, False):
            out.append(Harness(f"one fault {nm} {'zero' if z else 'plus'} {v}{'' if par else ' sequential'}", end_to_end(nm, z, "heuristic", v, par), kind="direct", functions=FN, must_reach=["one fault: discarded or no logical error"], bounds="any single fault of the simulated circuit"))
    CB = "all outcomes of every measurement, "
    cf = dict(setup=setup, functions=FN, must_reach=["number of logical errors", "acceptance rate"])
    for nm, z, v in [("steane", True, "heuristic"), ("steane", False, "heuristic"), ("422", True, "none"), ("422", False, "none"), ("surface3", False, "heuristic"), ("shor", True, "heuristic"), ("steane_mixed", False, "heuristic")]:
        out.append(Harness(f"count {nm} {'zero' if z else 'plus'} 1 shot", counting(nm, z, v, 1, 1), bounds=CB + "one shot", **cf))
    # few free outcomes: one verification bit, one syndrome bit, one data bit
    few = lambda sim: {(sim.x_verification_measurements + sim.z_verification_measurements)[0], sim.z_measurements[0], sim.data_measurements[0]}  # noqa: E731
    out.append(Harness("count steane 2 shots", counting("steane", True, "heuristic", 2, 2, free=few), bounds="verification, syndrome and data bit free; two shots", **cf))
    out.append(Harness("count steane 3 batches", counting("steane", True, "heuristic", 3, 1, free=few), bounds="verification, syndrome and data bit free; three batches of one", **cf))
    out.append(Harness("count steane uneven batches", counting("steane", True, "heuristic", 3, 2, free=few), bounds="three shots in batches of two", **cf))
    out.append(Harness("count steane until 1 error", counting("steane", True, "heuristic", 1, 1, at_least=True, min_errors=1, nbatches=3, free=few), bounds="until one error, at most three batches", **cf))
    out.append(Harness("count steane until 2 errors", counting("steane", True, "heuristic", 2, 1, at_least=True, min_errors=2, nbatches=3, free=few), bounds="until two errors, at most three batches", **cf))
    both = lambda sim: {x[i] for x in (sim.x_verification_measurements, sim.z_verification_measurements) for i in (0, -1)} | {sim.z_measurements[0], sim.x_measurements[0], sim.data_measurements[0]}  # noqa: E731
    for nm, z in (("steane", True), ("steane", False), ("422", True)):
        out.append(Harness(f"count {nm} {'zero' if z else 'plus'} both kinds of verification", counting(nm, z, "naive", 1, 1, free=both), bounds="first and last X and Z verification bit, one syndrome bit of each type and one data bit free; one shot", **cf))
    if th:
        out.append(Harness("count steane 2 shots all", counting("steane", True, "heuristic", 2, 2), bounds=CB + "two shots", paths=100000, seconds=600, **cf))
    return out
