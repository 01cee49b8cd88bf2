"""C30: the ECC wrapper builds the requested noise, reports the counts and passes its options on."""
from __future__ import annotations

import functools
import inspect
import itertools
import re
import shutil
import sys
import tempfile
from pathlib import Path
from types import SimpleNamespace

import numpy as np
import z3

import symx
from runner import Harness
from symx import R, S, patch, s_and, s_iff

ASSUMPTIONS = [
    "Pauli, depolarizing and amplitude damping channels of the simulator library are their textbook Pauli transfer matrices with symbolic entries (composition = matrix product, tensor = Kronecker product); replays use the library itself",
    "the square root in amplitude damping is an uninterpreted function of its argument",
    "shot counts are reals (integrality is not used)",
    "main: the simulator, the mapper and the noise channels are stand-ins that record what they are given; circuits and files are real",
]
OUTSIDE = ["the cut after 1000 printed outcomes", "an empty string of error letters", "classical registers other than the first"]
FN = ["create_noise_model", "compose_error", "print_simulation_results", "main"]
ONE = ("u1", "u2", "u3", "h", "id", "t", "tdg", "sdg", "rx", "ry", "rz", "s")
ALL = {**{g: 1 for g in ONE}, "cx": 2, "swap": 2, "cswap": 3}
LETTERS = ["D", "B", "A", "P", "C", "d", " "]
SQ = z3.Function("sqrt1m", z3.RealSort(), z3.RealSort())
PAULI = "IXYZ"


def W():
    import mqt.qecc.ecc_qiskit_wrapper as w

    return w


def sq(p):
    """sqrt(1-p)"""
    return R(SQ(z3.simplify(p.e))) if isinstance(p, R) else float(1 - p) ** 0.5


class Chan:
    """Channel as a sparse Pauli transfer matrix; the first factor is the least significant."""

    def __init__(self, n, m):
        self.num_qubits, self.m = n, m

    def after(self, first):
        """The channel: first, then self."""
        out = {}
        for (i, k), a in self.m.items():
            for (l, j), b in first.m.items():
                if k == l:
                    out[i, j] = out[i, j] + a * b if (i, j) in out else a * b
        return Chan(self.num_qubits, out)

    def compose(self, other, qargs=None, front=False):
        if qargs is not None or other.num_qubits != self.num_qubits:
            raise symx.Unsupported("compose on some qubits")
        return self.after(other) if front else other.after(self)

    def __and__(self, other):
        return self.compose(other)

    def dot(self, other, qargs=None):
        return self.compose(other, qargs, front=True)

    def __matmul__(self, other):
        return self.dot(other)

    def tensor(self, other):
        d = 4**other.num_qubits
        return Chan(self.num_qubits + other.num_qubits, {(i * d + k, j * d + l): a * b for (i, j), a in self.m.items() for (k, l), b in other.m.items()})

    def expand(self, other):
        return other.tensor(self)

    __xor__ = tensor

    def power(self, n):
        return functools.reduce(lambda a, _: a.compose(self), range(n - 1), self)

    def copy(self):
        return self


def pauli_error(terms, **_k):
    m = {}
    for p, pr in terms:
        if len(p) != 1:
            raise symx.Unsupported("Pauli error on several qubits")
        for i, q in enumerate(PAULI):
            s = pr if p == "I" or q in ("I", p) else -pr
            m[i, i] = m[i, i] + s if (i, i) in m else s
    return Chan(1, m)


def depolarizing_error(p, n, **_k):
    return Chan(n, {(i, i): 1 - p if i else 1 for i in range(4**n)})


def amplitude_damping_error(g, excited_state_population=0, **_k):
    if not isinstance(excited_state_population, int) or excited_state_population != 0:
        raise symx.Unsupported("thermal population")
    return Chan(1, {(0, 0): 1, (1, 1): sq(g), (2, 2): sq(g), (3, 0): g, (3, 3): 1 - g})


class Noise:
    """Stand-in of the noise model: gate name -> channel."""

    def __init__(self, basis_gates=None, **_k):
        self.by = {}

    def add_all_qubit_quantum_error(self, error, instructions, warnings=True):
        for g in [instructions] if isinstance(instructions, str) else instructions:
            self.by[g] = self.by[g].compose(error) if g in self.by else error

    def to_dict(self):
        return self.by


def stand_ins():
    return [(W(), "pauli_error", pauli_error), (W(), "depolarizing_error", depolarizing_error), (W(), "amplitude_damping_error", amplitude_damping_error), (W(), "NoiseModel", Noise), (W(), "QuantumError", Chan)]


def setup():
    return patch(*stand_ins())()


def setup_print():
    def show(self, *_a):
        toks.append(self)
        return f"@{len(toks) - 1}@"

    return patch((R, "__str__", show), (R, "__format__", show))()


toks = []


def chan_of(nm, gate):
    """Pauli transfer matrix of a gate's noise in either kind of model (None: no noise)."""
    if isinstance(nm, Noise):
        return nm.by.get(gate)
    from qiskit.quantum_info import PTM

    e = nm._default_quantum_errors.get(gate)  # noqa: SLF001
    if e is None:
        return None
    a = np.asarray(PTM(e).data).real
    return Chan(e.num_qubits, {(i, j): float(a[i, j]) for i, j in zip(*np.nonzero(np.abs(a) > 1e-12))})


def gates_of(nm):
    return set(nm.by) if isinstance(nm, Noise) else set(nm._default_quantum_errors)  # noqa: SLF001


def want(letters, p):
    """The composition of the named channels in the given order."""
    e = None
    for ch in letters:
        n = {"B": lambda: pauli_error([("X", p), ("I", 1 - p)]), "P": lambda: pauli_error([("Z", p), ("I", 1 - p)]), "D": lambda: depolarizing_error(p, 1), "A": lambda: amplitude_damping_error(p)}[ch]()
        e = n if e is None else n.after(e)
    return e


def same(a, b, n):
    """Equality of two channels (None = identity)."""
    idn = Chan(n, {(i, i): 1 for i in range(4**n)})
    a, b = a or idn, b or idn
    if a.num_qubits != n:
        return S(0)
    out = []
    for k in set(a.m) | set(b.m):
        x, y = a.m.get(k, 0), b.m.get(k, 0)
        if isinstance(x, R) or isinstance(y, R):
            x, y = R.of(x), R.of(y)
            if not z3.is_true(z3.simplify(x.e == y.e)):
                out.append(x == y)
        elif abs(float(x) - float(y)) > 1e-9:
            return S(0)
    return s_and(*out) if out else S(1)


def noise(length):
    def f(ctx):
        letters = "".join(ctx.choice(f"letter{i}", LETTERS) for i in range(length))
        p = ctx.real("p", 0, 1, strict_lo=True)
        p = p if isinstance(p, R) else float(p)
        if not set(letters) <= set("BDAP"):
            ctx.check(S(int(bool(ctx.expect_raise(ValueError, lambda: W().create_noise_model(letters, p))))), "unknown error letters are refused", repr(letters))
            return
        nm = W().create_noise_model(n_model=letters, p_error=p)
        one = want(letters, p)
        ctx.check(S(int(gates_of(nm) <= set(ALL))), "only the listed gates are noisy", str(sorted(gates_of(nm))))
        groups = {}
        for g, n in ALL.items():
            c = chan_of(nm, g)
            groups.setdefault((id(c) if isinstance(nm, Noise) else g, n), (g, n, c))
        full = {1: one, 2: one.tensor(one), 3: one.tensor(one).tensor(one)}
        for g, n, c in groups.values():
            ctx.check(same(c, full[n], n), "the noise of a gate is the ordered composition of the named channels on each operand", f"{letters} {g}")

    return f


def report(keys):
    def f(ctx):
        toks.clear()
        counts = {k: ctx.real(f"n{i}", 0, 1000) for i, k in enumerate(keys)}
        extra = ctx.real("lost", 0, 10)
        th = ctx.real("threshold", 0, 1)
        vals = list(counts.values())
        shots = functools.reduce(lambda a, b: a + b, vals) + extra
        ctx.assume(shots >= 1)
        lines = []
        undo = patch((W(), "print", lambda *a, **k: lines.append(k.get("sep", " ").join(map(str, a)))))()
        try:
            W().print_simulation_results(SimpleNamespace(get_counts=lambda *_a: dict(counts)), shots, th)
        finally:
            undo()
        got = []
        for ln in lines:
            m = re.fullmatch(r"State \|([01]+)> probability (\S+)", ln)
            ctx.check(S(int(m is not None)), "each line names an outcome and its probability", ln)
            t = re.fullmatch(r"@(\d+)@", m[2])
            got.append((m[1], toks[int(t[1])] if t else float(m[2])))
        names = [n for n, _ in got]
        total = {}
        for k, v in counts.items():
            s = k.split(" ")[-1]
            total[s] = total[s] + v if s in total else v
        ctx.check(S(int(names == sorted(set(names)) and set(names) <= set(total))), "the outcomes are listed once and in order", str(names))
        for n, v in got:
            w = total[n]
            ok = (R.of(v) * R.of(shots) == R.of(w)) if isinstance(v, R) else S(int(abs(v * float(shots) - float(w)) < 1e-6 * max(1.0, float(shots))))
            ctx.check(ok, "the probability of an outcome is its share of the shots", n)
        first = min(total)
        ctx.check(S(int(first in names)), "at least one outcome is printed")
        for n, w in total.items():
            if n != first:
                above = w / shots > th
                ctx.check(s_iff(above, S(int(n in names))), "exactly the outcomes above the threshold are printed", n)

    return f


QASM = 'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[2];\ncreg c[2];\nh q[0];\ncx q[0],q[1];\n'


def command(ctx):
    from qiskit import QuantumCircuit
    from qiskit.qasm2 import loads

    import mqt.qecc

    w = W()
    kind = ctx.choice("circuit", ["measured", "partly", "unmeasured"])
    ecc = ctx.choice("ecc", ["Q7Steane", "none", "None", "Q9Shor", "Q3Shor"])
    p = ctx.choice("p", ["0.125", "0", "-1"])
    chans = ctx.choice("channels", [None, "PB"])
    fs = ctx.choice("simulator", [None, "none", "statevector"])
    opts = ctx.choice("numbers", [0, 1])
    export = bool(ctx.choice("export", [0, 1]))
    ok = bool(ctx.choice("completed", [1, 0]))
    text = QASM + {"measured": "measure q[0] -> c[1];\nmeasure q[1] -> c[0];\n", "partly": "measure q[1] -> c[0];\n", "unmeasured": ""}[kind]
    scratch = Path(tempfile.mkdtemp(prefix="c30"))
    (scratch / "in.qasm").write_text(text)
    argv = ["wrapper", "-f", str(scratch / "in.qasm"), "-ecc", ecc, "-p", p]
    argv += ["-m", chans] if chans else []
    argv += ["-fs", fs] if fs else []
    argv += ["-n", "64", "-s", "5", "-fq", "3"] if opts else []
    argv += ["-e", str(scratch / "out.qasm")] if export else []
    n, seed, freq = (64, 5, 3) if opts else (2000, 0, 100)
    mapped = 'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg qq[3];\ncreg cc[2];\nx qq[2];\nmeasure qq[2] -> cc[1];\n'
    log, lines = [], []

    def mapper(circuit_name, ecc_name, ecc_frequency=100):
        log.append(("map", circuit_name, ecc_name, ecc_frequency))
        return {"circ": mapped}

    class Sim:
        def __init__(self, *a, **k):
            self.k = {**dict(zip(("configuration", "properties"), a)), **k}

        def set_options(self, **k):
            self.k.update(k)

        def run(self, circ, **k):
            k.pop("validate", None)
            log.append(("run", circ, {**self.k, **{x: y for x, y in k.items() if x not in ("shots", "seed_simulator")}}, k.get("shots", self.k.get("shots")), k.get("seed_simulator", self.k.get("seed_simulator"))))
            res = SimpleNamespace(status="COMPLETED" if ok else "ERROR", success=ok, get_counts=lambda *_a: {"01": n // 4, "11": n - n // 4})
            return SimpleNamespace(result=lambda *_a: res)

    undo = patch(*stand_ins(), (w, "apply_ecc", mapper), (mqt.qecc, "apply_ecc", mapper), (w, "AerSimulator", Sim), (w, "print", lambda *a, **k: lines.append(k.get("sep", " ").join(map(str, a)))), (sys, "argv", argv))()
    raised = None
    out = None
    try:
        w.main()
    except RuntimeError as e:
        raised = e
    finally:
        undo()
        if (scratch / "out.qasm").exists():
            out = (scratch / "out.qasm").read_text()
        shutil.rmtree(scratch)
    plain = loads(text)
    if kind == "unmeasured":
        plain.measure_all()
    none = ecc.lower() == "none"
    maps = [e for e in log if e[0] == "map"]
    runs = [e for e in log if e[0] == "run"]

    def is_(circ, ref):
        if isinstance(circ, str):
            circ = loads(circ)
        return isinstance(circ, QuantumCircuit) and circ == ref

    ctx.check(S(int(len(maps) == (not none))), "the circuit is mapped once if a code is requested", str(len(maps)))
    for m in maps:
        ctx.check(S(int(is_(m[1], plain))), "the mapper gets the circuit, measured on all qubits if it had no measurement")
        ctx.check(S(int(m[2] == ecc and m[3] == freq)), "the mapper gets the requested code and frequency", f"{m[2]} {m[3]}")
    final = plain if none else loads(mapped)
    if export:
        ctx.check(S(int(not runs and raised is None)), "an exported circuit is not simulated")
        ctx.check(S(int(out is not None and is_(out, final))), "the exported file holds the mapped circuit", str(out)[:200])
        return
    ctx.check(S(int(len(runs) == 1 and out is None)), "the circuit is simulated once")
    _, circ, conf, shots, sd = runs[0]
    ctx.check(S(int(is_(circ, final))), "the mapped circuit is simulated")
    ctx.check(S(int(shots == n and sd == seed)), "shots and seed are passed on", f"{shots} {sd}")
    ctx.check(S(int(conf.get("method") == {None: "stabilizer", "none": None}.get(fs, fs))), "the requested simulator is used", str(conf.get("method")))
    nm = conf.get("noise_model")
    pr = float(p)
    if pr <= 0:
        ctx.check(S(int(nm is None or not nm.by)), "no noise at rate zero")
    else:
        one = want(chans or "D", pr)
        ctx.check(s_and(*[same(nm.by.get(g), {1: one, 2: one.tensor(one), 3: one.tensor(one).tensor(one)}[k], k) for g, k in ALL.items()]), "the simulation uses the requested noise", f"{chans} {p}")
    if not ok:
        ctx.check(S(int(raised is not None)), "a failed simulation is an error")
    else:
        shown = [x for x in lines if x.startswith("State |")]
        ctx.check(S(int(raised is None and shown == [f"State |01> probability {(n // 4) / n}", f"State |11> probability {(n - n // 4) / n}"])), "the counts of the simulation are reported", str(shown))


def harnesses(tier):
    deep = tier == "thorough"
    hs = [Harness(f"noise model {k} letters", noise(k), setup=setup, functions=FN[:2], fallback=False, paths=20000, bounds=f"all strings of {k} letters over {LETTERS}, every rate in (0, 1]",
                  must_reach=["the noise of a gate is the ordered composition of the named channels on each operand", "unknown error letters are refused"]) for k in ((1, 2, 3, 4) if deep else (1, 2, 3))]
    sets = {"one register": ["0", "1"], "two bits": ["11", "00", "10", "01"], "two registers": ["1 0", "0 0", "0 1", "1 1"], "three registers": ["0 1 01", "1 0 01", "0 0 00", "1 1 10"], "one outcome": ["101"]}
    if deep:
        sets["three bits"] = ["".join(x) for x in itertools.product("10", repeat=3)]
        sets["wide"] = ["00 1 0", "01 1 1", "10 0 1", "11 1 0", "00 0 0", "11 0 1"]
    for nm, keys in sets.items():
        hs.append(Harness(f"report {nm}", report(keys), setup=setup_print, functions=FN[2:3], fallback=False, paths=5000, bounds=f"every count of the outcomes {keys}, every threshold in [0, 1]", must_reach=["at least one outcome is printed"]))
    hs.append(Harness("command line", command, functions=FN[3:], fallback=False, paths=20000, bounds="every combination of the listed options, circuits and results", must_reach=["the circuit is simulated once", "an exported circuit is not simulated"]))
    return hs
