"""C19: the encoded circuit gives the original classical bits the original joint distribution, or the circuit is rejected."""

from __future__ import annotations

import eccprog as P
from runner import Harness

ASSUMPTIONS = [
    "circuits are executed on a stabilizer tableau with symbolic signs; a T gate is a controlled Z with a reference qubit (exact by gate teleportation)",
    "slots: the program is mapped with the slot's Pauli gate absent, present alone and with all of them; the emitted circuits must compose",
    "mqt-core (circuit container) as installed",
]
OUTSIDE = [
    "programs longer or wider than the stated ones; final quantum state beyond the classical bits",
    "the QASM writer of mqt-core and the Python binding",
    "circuits in which a qubit that is not measured carries a superposition while another one is measured (Q7Steane, Q9Surface, Q18Surface), and Q18Surface with H and intermediate corrections: known findings name the examples",
]
FN = ["Ecc::apply", "initMappedCircuit", "writeEncoding", "measureAndCorrect", "writeDecoding", "mapGate", "addOperation", "addSOperation"]


def harnesses(tier):
    P.E.build()
    thorough = tier == "thorough"
    hs = []

    def add(name, progs, chunk=24, **kw):
        for k in range(0, len(progs), chunk):
            part = progs[k:k + chunk]
            hs.append(Harness(f"{name} {k // chunk}", P.runner(part, None), "direct", must_reach=("program",), bounds=f"{len(part)} program shapes; Pauli slots symbolic", functions=FN, **kw))

    for code in P.CODES:
        for f in P.FREQS(True):
            add(f"{code} f={f} pauli and measurements", P.pauli_programs(code, f, True))
            if P.CTRL.get(code):
                add(f"{code} f={f} controlled", P.controlled_programs(code, f, True))
            noh = code == "Q18Surface" and f  # H between corrections is a known finding there
            if code in P.HCODES and not noh:
                add(f"{code} f={f} single-qubit words", P.word_programs(code, f, True))
            if code == "Q7Steane":
                add(f"{code} f={f} two-qubit Clifford", P.steane_pairs(code, f, True))
            if not noh and (f in (1, 2) or thorough):
                add(f"{code} f={f} sequences of 2", P.sequences(code, f, 2))
            if not noh and thorough and f == (2 if code == "Q7Steane" else 1) and code != "Id":
                add(f"{code} f={f} sequences of 3", P.sequences(code, f, 3))
            if thorough and code not in ("Id", "Q7Steane", "Q18Surface") and f in (0, 1):
                add(f"{code} f={f} sequences of 2 on three qubits", P.sequences(code, f, 2, 3))
        add(f"{code} again after measurement", P.again_programs(code, True))
        if code == "Q18Surface":
            add(f"{code} H between corrections", [P.Prog(code, f, 1).slots().g("h", 0).slots("xz").g("h", 0).m([0, 0]) for f in P.FREQS(True)[1:]])
        hs.append(Harness(f"{code} gate support", P.support(code), "direct", must_reach=("gate",), bounds="every gate type of the circuit library with 0, 1, 2 controls on a classical and (where H is supported) a superposed state", functions=FN))
    hs.sort(key=lambda h: "sequences of 3" in h.name)
    return hs
