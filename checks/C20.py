"""C20: errors the code corrects, injected between two corrections, do not change the measured bits."""

from __future__ import annotations

import eccprog as P
from runner import Harness

ASSUMPTIONS = [
    "circuits are executed on a stabilizer tableau with symbolic signs; the errors and the random outcomes are solver variables",
    "slots: the program is mapped with the slot's Pauli gate absent, present alone and with all of them; the emitted circuits must compose",
    "an error strikes a data qubit at a slot point (between two program gates); syndrome extraction itself is error free",
    "mqt-core (circuit container) as installed",
]
OUTSIDE = [
    "errors inside a correction step or inside a logical gate's physical gates; two errors between two corrections",
    "programs longer or wider than the stated ones; Q18Surface with H and intermediate corrections (see known findings)",
]
FN = ["Ecc::apply", "writeEncoding", "measureAndCorrect", "writeDecoding", "mapGate"]
KINDS = {"Q3Shor": "x", "Q5Laflamme": "xz", "Q7Steane": "xz", "Q9Shor": "xz", "Q9Surface": "xz", "Q18Surface": "x"}


def programs(code, f, thorough):
    out = []

    def p(n, regs=None):
        q = P.Prog(code, f, n, regs)
        out.append(q)
        return q

    p(1).slots("x").m([0, 0])
    p(1).slots("xz").slots("x").slots("zx").m([0, 0])
    p(1).slots("z").b().slots("x").b().slots("y").m([0, 0])
    p(2).slots("x").m([0, 1], [1, 0])
    p(2).slots("xz").m([1, 0]).m([0, 1])
    if thorough:
        p(2).slots("xz").slots("zx").slots("y").m([0, 1], [1, 0])
        p(1).slots("xzyxzyxz").m([0, 0])
        if code != "Q18Surface":
            p(3).slots("x").slots("z").m([2, 0], [0, 1], [1, 2])
    if P.CTRL.get(code):
        for g in P.CTRL[code]:
            p(2).slots("x").g(g, 1, ctrl=[(0, 1)]).slots("x").m([0, 0], [1, 1])
            if thorough:
                p(2).slots("xz").g(g, 0, ctrl=[(1, 0)]).slots("xz").g(g, 1, ctrl=[(0, 1)]).slots("x").m([0, 0], [1, 1])
    if code in P.HCODES and code != "Q18Surface":
        p(1).slots("x").g("h", 0).slots("z").g("h", 0).slots("x").m([0, 0])
        p(1).slots("x").g("h", 0).slots("xz").m([0, 0])
        if thorough:
            p(2).slots("x").g("h", 0).slots("z").g("h", 1).slots("xz").g("h", 0).g("h", 1).slots("x").m([0, 0], [1, 1])
    if code == "Q7Steane":
        p(1).slots("x").g("h", 0).g("s", 0).slots("xz").g("sdg", 0).g("h", 0).slots("x").m([0, 0])
        p(2).slots("x").g("h", 0).slots("z").g("x", 1, ctrl=[(0, 1)]).slots("x").g("x", 1, ctrl=[(0, 1)]).g("h", 0).slots("x").m([0, 0], [1, 1])
        p(1).slots("x").g("h", 0).slots("z").g("t", 0).slots("x").g("h", 0).m([0, 0])
    if code == "Q3Shor":
        p(2).slots("x").g("s", 0).slots("x").g("t", 1).slots("x").m([0, 0], [1, 1])
        p(3).slots("x").g("x", 2, ctrl=[(0, 1), (1, 1)]).slots("x").m([0, 0], [1, 1], [2, 2])
    return out


def harnesses(tier):
    P.E.build()
    thorough = tier == "thorough"
    hs = []
    for code, kinds in KINDS.items():
        for f in (0, 1, 2, 3, 4) if thorough else (0, 1, 2):
            progs = programs(code, f, thorough)
            for k, q in enumerate(progs):
                hs.append(Harness(f"{code} f={f} errors {k}", P.runner([q], P.errors(kinds)), "direct", must_reach=("program",), bounds=f"{q.text()}; one of {kinds.upper()} on any data qubit between corrections", functions=FN))
    return hs
