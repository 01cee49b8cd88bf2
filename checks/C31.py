"""C31: the stored evaluation circuits are what their names say; the estimation script simulates the circuit it is asked for."""
from __future__ import annotations

import functools
import inspect
import shutil
import sys
import tempfile
from pathlib import Path
from types import SimpleNamespace

import stim
from qiskit import QuantumCircuit

import C08
import C10
from runner import Harness
from symx import S, patch

ASSUMPTIONS = [
    "the code of a circuit is the one the estimation script takes for the name of its directory",
    "fault model as in C10; only errors of the type that can change the prepared state have to stay correctable (the library's notion without full fault tolerance)",
    "the script: argument parser, synthesis functions and simulator are stand-ins that record what they are given; files exist or not by a free choice",
]
OUTSIDE = ["optimality of the stored circuits", "faults beyond the number the code corrects"]
FN = ["ft_stateprep/eval/circuits", "estimate_logical_error_rate.main"]


def root():
    import mqt.qecc.ft_stateprep as m

    return Path(m.__file__).parent / "eval" / "circuits"


@functools.lru_cache(None)
def dircode(d):
    from mqt.qecc import CSSCode
    from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode

    if d == "cc_4_8_8":
        return SquareOctagonColorCode(5)
    if d == "cc_6_6_6":
        return HexagonalColorCode(5)
    if d.startswith("rotated_surface_d"):
        return CSSCode.from_code_name("surface", int(d[len("rotated_surface_d"):]))
    return CSSCode.from_code_name(d)


def from_stim(text):
    c = stim.Circuit(text).flattened()
    nm = sum(len(i.targets_copy()) for i in c if i.name in ("M", "MR"))
    qc = QuantumCircuit(c.num_qubits, nm)
    k = 0
    for i in c:
        t = [x.value for x in i.targets_copy()]
        if i.name in ("CX", "CZ"):
            for a, b in zip(t[::2], t[1::2]):
                (qc.cx if i.name == "CX" else qc.cz)(a, b)
        elif i.name in ("H", "S", "X", "Y", "Z"):
            for a in t:
                getattr(qc, i.name.lower())(a)
        elif i.name in ("R", "M", "MR"):
            for a in t:
                if i.name != "R":
                    qc.measure(a, k)
                    k += 1
                if i.name != "M":
                    qc.reset(a)
        elif i.name not in ("TICK", "QUBIT_COORDS"):
            raise NotImplementedError(i.name)
    return qc


def load(p):
    return QuantumCircuit.from_qasm_file(str(p)) if p.suffix == ".qasm" else from_stim(p.read_text())


def stored(rel):
    def f(rep):
        p = root() / rel
        d = p.parent.name
        c = dircode(d)
        zero = p.name.startswith("zero")
        inp = {"file": rel}
        try:
            qc = load(p)
        except Exception as e:  # noqa: BLE001
            rep.violation("the stored file holds a circuit", inp, f"{type(e).__name__}: {str(e)[-150:]}")
            rep.reach("value")
            return
        if qc.num_qubits < c.n:
            rep.violation("the stored circuit acts on the qubits of the code", inp, f"{qc.num_qubits} qubits for a code on {c.n}")
            rep.reach("value")
            return
        C08.decide(rep, c, zero, qc, inp)
        if "non_ft" not in p.name:
            C10.decide(rep, c, zero, qc, False, "stored", inp, None)
        rep.sample({**inp, "qubits": qc.num_qubits, "operations": len(qc.data), "measurements": qc.num_clbits})

    return f


def script(ctx):
    """main(): every combination of options, every stored file present or not."""
    import mqt.qecc.ft_stateprep.eval.estimate_logical_error_rate as E

    log = []

    class Tok:
        def __init__(self, what, **kw):
            self.what, self.kw = what, kw

        def __getattr__(self, n):
            if n == "circ":
                return Tok("unverified", of=self)
            if n == "max_errors":
                return 1
            raise AttributeError(n)

    real = E.NoisyNDFTStatePrepSimulator

    def bound(f, *a, **k):
        r = inspect.signature(f).bind(*a, **k)
        r.apply_defaults()
        return dict(r.arguments)

    class Sim:
        def __init__(self, *a, **k):
            log.append(("sim", bound(real.__init__, None, *a, **k)))

        def logical_error_rate(self, *a, **k):
            log.append(("rate", bound(real.logical_error_rate, None, *a, **k)))
            return (0.25, 0.5, 3, 4)

    def mk(kind):
        return lambda *a, **k: Tok(kind, args=a, kw=k)

    names = ["steane", "tetrahedral", "shor", "surface", "cc_4_8_8", "cc_6_6_6", "hamming", "carbon", "nonsense"]
    cn = ctx.choice("code", names)
    d = ctx.choice("distance", [3, 5])
    zero = bool(ctx.choice("zero", [1, 0]))
    exact_circ = bool(ctx.choice("exact_circ", [0, 1]))
    ver = ctx.choice("verification", ["exact", "heuristic", "naive", "none"])
    serial = bool(ctx.choice("serial", [0, 1]))
    there = bool(ctx.choice("stored", [0, 1]))
    argv = [cn, "-p", "0.125", "-n", "7", "-d", str(d)]
    argv += [] if zero else ["--plus_state"]
    argv += ["--exact_circ"] if exact_circ else []
    argv += {"exact": [], "heuristic": ["--heuristic_ver"], "naive": ["--naive_ver"], "none": ["--no_ver"]}[ver]
    argv += ["--no_parallel_gates"] if serial else []
    scratch = Path(tempfile.mkdtemp(prefix="c31"))
    (scratch / "eval").mkdir()
    if there:
        shutil.copytree(root(), scratch / "eval" / "circuits")
        for dd in ("rotated_surface_d3", "rotated_surface_d5", "cc_4_8_8", "cc_6_6_6", "steane", "tetrahedral", "shor", "hamming", "carbon"):
            for st in ("zero", "plus"):
                for pp in ("opt", "heuristic"):
                    for vv in ("non_ft_" + pp, *(f"ft_{pp}_{x}" for x in ("opt", "heuristic", "naive"))):
                        (scratch / "eval" / "circuits" / dd / f"{st}_{vv}.qasm").touch()

    codes = {}

    def mkcode(kind):
        def f(*a, **k):
            key = (kind, *a)
            return codes.setdefault(key, Tok("code", key=key))

        return f

    qcs = SimpleNamespace(from_qasm_file=lambda p: Tok("file", path=Path(str(p))))
    undo = patch(
        (E, "gate_optimal_prep_circuit", mk("opt prep")), (E, "heuristic_prep_circuit", mk("heuristic prep")), (E, "naive_verification_circuit", mk("naive")),
        (E, "gate_optimal_verification_circuit", mk("exact")), (E, "heuristic_verification_circuit", mk("heuristic")), (E, "NoisyNDFTStatePrepSimulator", Sim), (E, "__file__", str(scratch / "eval" / "estimate_logical_error_rate.py")),
        (E, "QuantumCircuit", qcs), (E, "CSSCode", SimpleNamespace(from_code_name=mkcode("css"))), (E, "SquareOctagonColorCode", mkcode("4_8_8")), (E, "HexagonalColorCode", mkcode("6_6_6")),
        (E, "print", lambda *a, **k: log.append(("print", k.get("sep", " ").join(map(str, a))))), (sys, "argv", ["estimate"] + argv))()
    try:
        if cn == "nonsense":
            ctx.check(S(int(ctx.expect_raise(ValueError, E.main))), "unknown codes are rejected")
            return
        E.main()
    finally:
        undo()
        shutil.rmtree(scratch)
    sims = [e for e in log if e[0] == "sim"]
    ok = len(sims) == 1
    ctx.check(S(int(ok)), "one simulation")
    got = dict(sims[0][1])
    qc = list(got.values())[1]
    got = dict(list(got.items())[2:])
    c, p, z, par = (got.pop(k) for k in ("code", "p", "zero_state", "parallel_gates"))
    kw = {k: v for k, v in got.items() if v is not inspect.signature(real.__init__).parameters[k].default}
    key = c.kw["key"]
    want = {"surface": ("css", "surface", d), "cc_4_8_8": ("4_8_8", 5), "cc_6_6_6": ("6_6_6", 5)}.get(cn, ("css", cn))
    ctx.check(S(int(key == want)), "the simulator gets the requested code", str(key))
    ctx.check(S(int(p == 0.125 and bool(z) == zero and bool(par) == (not serial) and not kw)), "the simulator gets the error rate, state and gate schedule that were asked for", f"{p} {z} {par} {kw}")
    d_ = {"surface": f"rotated_surface_d{d}"}.get(cn, cn)
    prep = "opt" if exact_circ else "heuristic"
    v = {"exact": "opt", "heuristic": "heuristic", "naive": "naive"}.get(ver)
    fname = f"{'zero' if zero else 'plus'}_{'non_ft_' + prep if ver == 'none' else 'ft_' + prep + '_' + v}.qasm"
    if qc.what == "file":
        q = qc.kw["path"]
        ctx.check(S(int(there and q.parent.name == d_ and q.name == fname)), "a stored circuit is used only for the options it was made for", f"{q.parent.name}/{q.name} for {d_}/{fname}")
        ctx.check(S(int(q.resolve().parent.parent == (scratch / "eval" / "circuits").resolve())), "stored circuits are taken from the directory of the script")
    else:
        ctx.check(S(int(not there)), "the stored circuit is used if there is one", fname)
        if ver == "none":
            base = qc.kw.get("of") if qc.what == "unverified" else None
            ctx.check(S(int(base is not None)), "without verification the bare preparation circuit is simulated", qc.what)
        else:
            ctx.check(S(int(qc.what == ver)), "the requested verification is used", qc.what)
            base = qc.kw["args"][0]
        ctx.check(S(int(base.what == ("opt prep" if exact_circ else "heuristic prep"))), "the requested synthesis is used", base.what)
        a = list(base.kw["args"]) + [base.kw["kw"].get("code")]
        ctx.check(S(int(c in a and bool(base.kw["kw"].get("zero_state", (list(base.kw["args"]) + [True, True])[1])) == zero)), "the circuit is made for the code and state")
    rates = [e for e in log if e[0] == "rate"]
    ctx.check(S(int(len(rates) == 1 and rates[0][1].get("min_errors") == 7)), "sampling goes on for the requested number of errors")
    out = [e for e in log if e[0] == "print"]
    ctx.check(S(int(len(out) == 1 and out[0][1] == "0.25,0.5,3,4")), "the four numbers are printed", str(out))


def harnesses(tier):
    hs = []
    for p in sorted(root().glob("*/*")):
        if p.suffix in (".qasm", ".stim"):
            rel = f"{p.parent.name}/{p.name}"
            hs.append(Harness(f"stored {rel}", stored(rel), kind="direct", functions=FN[:1], must_reach=["value"], bounds="all measurement outcomes; all combinations of up to t faults for ft circuits", seconds=300))
    hs.append(Harness("estimation script", script, functions=FN[1:], fallback=False, bounds="every combination of the options, stored circuit present or not", must_reach=["one simulation"]))
    return hs
