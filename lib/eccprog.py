"""Program families for the ECC checks (C19, C20)."""

from __future__ import annotations

import itertools
import json

import z3

import eccsym as E

CODES = ["Id", "Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"]
NRED = {"Id": 1, "Q3Shor": 3, "Q5Laflamme": 5, "Q7Steane": 7, "Q9Shor": 9, "Q9Surface": 9, "Q18Surface": 36}
CTRL = {"Id": "xyz", "Q3Shor": "xyz", "Q7Steane": "xyz", "Q9Shor": "xyz"}
HCODES = {"Id", "Q7Steane", "Q9Surface", "Q18Surface"}
SINGLE = {"Id": ["h", "s", "sdg", "t", "tdg"], "Q7Steane": ["h", "s", "sdg", "t", "tdg"], "Q9Surface": ["h"], "Q18Surface": ["h"]}
DIAG = {"Q3Shor": ["s", "sdg", "t", "tdg"]}


def FREQS(thorough):
    return (0, 1, 2, 3) if thorough else (0, 1, 2)


class Prog:
    """Builder: slots get consecutive numbers."""

    def __init__(self, code, freq, nq, regs=None):
        self.code, self.freq, self.nq, self.regs, self.steps, self.k = code, freq, nq, regs or [("c", nq)], [], 0

    def slot(self, q, ps="xz"):
        for p in ps:
            self.steps.append(("slot", self.k, q, p))
            self.k += 1
        return self

    def slots(self, ps="xz", qs=None):
        for q in range(self.nq) if qs is None else qs:
            self.slot(q, ps)
        return self

    def g(self, name, *targets, ctrl=()):
        self.steps.append(("g", name, list(targets), [list(c) for c in ctrl]))
        return self

    def m(self, *pairs):
        self.steps.append(("m", [list(p) for p in pairs]))
        return self

    def b(self):
        self.steps.append(("b",))
        return self

    def text(self):
        return E.line(self.code, self.freq, self.nq, self.regs, self.steps)


def pauli_programs(code, f, thorough):
    out = []
    n2 = 4 if thorough else 3

    def p(n, regs=None):
        q = Prog(code, f, n, regs)
        out.append(q)
        return q

    p(1).slots("xzy").m([0, 0])
    p(1).slots("xz").b().slots("xz").m([0, 0])
    p(1).m([0, 0])
    p(1).b().m([0, 0])
    p(1).g("x", 0).m([0, 0])
    p(1).slots()  # nothing measured: the bits stay 0
    # qubits and bits permuted, measured one by one or at once
    perms = list(itertools.permutations(range(2)))
    for pm in perms:
        p(2).slots().m(*[[q, c] for q, c in enumerate(pm)])
        p(2).slots().m([0, pm[0]]).m([1, pm[1]])
        p(2).slots().m([1, pm[1]]).m([0, pm[0]])
    for pm in itertools.permutations(range(3)) if thorough else [(1, 2, 0), (2, 0, 1)]:
        p(3).slots("x").m(*[[q, c] for q, c in enumerate(pm)])
    # more bits than qubits, fewer bits than qubits, several registers
    p(1, [("c", 3)]).slots("xz").m([0, 2])
    p(1, [("a", 1), ("b", 1), ("d", 2)]).slots("xz").m([0, 3])
    p(2, [("b", 1), ("a", 2), ("z", 1)]).slots("x").m([1, 2]).m([0, 3])
    p(3, [("c", 1)]).slots("x").m([2, 0])
    p(2, [("c", 1)]).slots("xz").m([0, 0])
    p(2, [("c", 2)]).slots("xz").m([1, 0])
    # idle qubits
    for used in ([1], [0, 2], [1, 2]) + (([2], [3], [0, 3]) if thorough else ()):
        n = max(3, max(used) + 1)
        q = p(n)
        q.slots("xz", used)
        q.m(*[[u, u] for u in used])
    if thorough and NRED[code] < 20:
        q = p(n2)
        q.slots("xy").m(*[[i, n2 - 1 - i] for i in range(n2)])
    if code in DIAG:
        for g in DIAG[code]:
            p(2).slots("x").g(g, 0).slots("x").g(g, 1).m([0, 0], [1, 1])
    # a gate on several qubits at once
    p(3).slots("x").g("x", 0, 2).slots("x").m([0, 0], [1, 1], [2, 2])
    p(2).slots("x").g("y", 0, 1).slots("x").g("z", 1, 0).m([0, 1], [1, 0])
    return out


def controlled_programs(code, f, thorough):
    out = []

    def p(n):
        q = Prog(code, f, n)
        out.append(q)
        return q

    for g in CTRL[code]:
        for a, b in ((0, 1), (1, 0)):
            for pol in (1, 0):
                p(2).slots().g(g, b, ctrl=[(a, pol)]).slots().m([0, 0], [1, 1])
    for g1, g2 in itertools.product(CTRL[code], repeat=2) if thorough else [("x", "x"), ("z", "x"), ("x", "y")]:
        p(2).slots("x").g(g1, 1, ctrl=[(0, 1)]).slots("x").g(g2, 0, ctrl=[(1, 1)]).slots("x").m([0, 0], [1, 1])
        p(3).slots("x").g(g1, 1, ctrl=[(0, 1)]).g(g2, 2, ctrl=[(1, 1)]).slots("x").m([0, 0], [1, 1], [2, 2])
    if code == "Q3Shor":
        for pols in itertools.product((0, 1), repeat=2):
            p(3).slots("x").g("x", 2, ctrl=[(0, pols[0]), (1, pols[1])]).slots("x").m([0, 0], [1, 1], [2, 2])
            p(3).slots("x").g("x", 0, ctrl=[(2, pols[0]), (1, pols[1])]).g("x", 1, ctrl=[(0, 1)]).m([0, 0], [1, 1], [2, 2])
    return out


def word_programs(code, f, thorough):
    """Slots, a word of single-qubit gates with slots in between, measurement in the Z, X (and Y) basis."""
    out = []
    gates = SINGLE[code]
    rich = "s" in gates
    prep = [[], ["h"]] + ([["h", "s"]] if rich else [])
    end = [[], ["h"]] + ([["sdg", "h"]] if rich else [])
    L = 2 if rich else 4
    words = [w for n in range(L + 1) for w in itertools.product(gates, repeat=n)]
    if rich and not thorough:
        words = [w for w in words if sum(g in ("t", "tdg") for g in w) <= 1 and not (len(w) == 2 and w[0] == w[1] and w[0] in ("sdg",))]
    if not thorough and f == 2:
        words = [w for w in words if len(w) <= 1]
    for a, w, b in itertools.product(prep, words, end):
        if not rich and (a or b) and len(w) > 2:
            continue
        q = Prog(code, f, 1)
        q.slots()
        for g in a:
            q.g(g, 0)
        for g in w:
            q.slots("xz" if thorough else "x")
            q.g(g, 0)
        q.slots("xyz" if thorough else "xz")
        for g in b:
            q.g(g, 0)
        q.m([0, 0])
        out.append(q)
    return out


def steane_pairs(code, f, thorough):
    out = []
    prep = [[], ["h"], ["h", "s"]]
    end = [[], ["h"], ["sdg", "h"]]
    for g in "xyz":
        for pol in (1, 0) if thorough else (1,):
            for a, b, c, d in itertools.product(prep, prep, end, end):
                if not thorough and (len(a) + len(b) + len(c) + len(d)) > (3 if f == 2 else 4):
                    continue
                q = Prog(code, f, 2).slots("x")
                for k, l in ((0, a), (1, b)):
                    for h in l:
                        q.g(h, k)
                q.slots("z").g(g, 1, ctrl=[(0, pol)]).slots("xz" if thorough else "x")
                for k, l in ((0, c), (1, d)):
                    for h in l:
                        q.g(h, k)
                q.m([0, 1], [1, 0])
                out.append(q)
    # entangled chains with T
    for t in ("t", "tdg"):
        q = Prog(code, f, 2).slots("x").g("h", 0).g("x", 1, ctrl=[(0, 1)]).slots("z").g(t, 1).g("x", 1, ctrl=[(0, 1)]).g("h", 0).slots("x").m([0, 0], [1, 1])
        out.append(q)
    q = Prog(code, f, 3).slots("x").g("h", 0).g("x", 1, ctrl=[(0, 1)]).g("x", 2, ctrl=[(1, 1)]).slots("z").g("h", 0).g("h", 1).g("h", 2).m([0, 0], [1, 1], [2, 2])
    out.append(q)
    return out


def sequences(code, f, length, nq=2):
    """All gate sequences of the given length on nq qubits, between Pauli slots."""
    one = SINGLE.get(code, []) + DIAG.get(code, [])
    if "t" in one:
        one = [g for g in one if g not in ("tdg",)]
    gates = [(g, q, None) for g in one for q in range(nq)]
    gates += [(g, b, a) for g in CTRL.get(code, "") for a in range(nq) for b in range(nq) if a != b]
    gates += [("y", q, None) for q in range(nq)]
    out = []
    for w in itertools.product(gates, repeat=length):
        if sum(g[0] == "t" for g in w) > 2:
            continue
        for pre in ([0, 1] if code in HCODES else [0]):
            q = Prog(code, f, nq).slots("x")
            for k in range(nq if pre else 0):
                q.g("h", k)
            for g, b, a in w:
                q.g(g, b, ctrl=[] if a is None else [(a, 1)])
            q.slots("xz")
            for k in range(nq if pre else 0):
                q.g("h", k)
            q.m(*[[k, k] for k in range(nq)])
            out.append(q)
    return out


def again_programs(code, thorough):
    """Gates after a measurement: the measured qubits are encoded again."""
    out = []
    for f in (0, 1, 2) if thorough else (0, 1):
        out.append(Prog(code, f, 1, [("c", 2)]).slots().m([0, 0]).slots("xz").m([0, 1]))
        out.append(Prog(code, f, 1, [("c", 2)]).slots().m([0, 0]).m([0, 1]))
        out.append(Prog(code, f, 1, [("c", 3)]).slots("x").m([0, 0]).slots("x").m([0, 1]).slots("x").m([0, 2]))
        out.append(Prog(code, f, 2, [("c", 3)]).slots().m([0, 2]).slots("x").m([0, 0]).m([1, 1]))
        out.append(Prog(code, f, 2, [("c", 3)]).slots("x").m([1, 0]).slots("x", [0]).m([0, 1], [1, 2]))
        if CTRL.get(code):
            out.append(Prog(code, f, 2, [("c", 3)]).slots("x").m([0, 0]).g("x", 1, ctrl=[(0, 1)]).slots("x").m([0, 1], [1, 2]))
        if code in HCODES and not (code == "Q18Surface" and f):
            # the superposed qubit is measured, its outcome must persist
            out.append(Prog(code, f, 1, [("c", 2)]).slots().g("h", 0).m([0, 0]).slots("x").m([0, 1]))
            out.append(Prog(code, f, 1, [("c", 2)]).slots("x").m([0, 0]).g("h", 0).slots("xz").g("h", 0).m([0, 1]))
            out.append(Prog(code, f, 2, [("c", 3)]).slots("x").m([0, 0]).g("h", 1).slots("xz").g("h", 1).m([0, 1], [1, 2]))
            # one qubit superposed while the other one is measured
            out.append(Prog(code, f, 2, [("c", 2)]).slots("x").g("h", 1).m([0, 0]).g("h", 1).m([1, 1]))
    return out


GATES = ["i", "h", "x", "y", "z", "s", "sdg", "t", "tdg", "v", "vdg", "sx", "sxdg", "u", "u2", "p", "rx", "ry", "rz"]
TWO = ["swap", "iswap", "ecr", "dcx", "rxx", "rzz"]


def support(code):
    """Every gate type: rejected, or mapped to something with the same effect."""

    def f(rep):
        n = 0
        for g in GATES + TWO:
            tg = [0, 1] if g in TWO else [0]
            for nc in range(3):
                prefixes = [[]]
                if code in HCODES and code != "Id":
                    prefixes.append(["h"])
                for pre in prefixes:
                    nq = 4 if g in TWO else 3
                    q = Prog(code, 0, nq, [("c", nq)])
                    q.slots("x")
                    for h in pre:
                        for k in range(nq):
                            q.g(h, k)
                    q.g(g, *tg, ctrl=[(nq - 1 - k, 1) for k in range(nc)])
                    q.slots("x", [0])
                    for h in pre:
                        for k in range(nq):
                            q.g(h, k)
                    q.m(*[[k, k] for k in range(nq)])
                    base = E.emit([q.text()])[0]
                    rep.reach("gate")
                    if "rejected" in base:
                        rep.trivial("rejected")
                        continue
                    if "mapped" not in base:
                        rep.violation("unsupported gates are rejected", q.text(), f"{base}")
                        return
                    if code == "Id":
                        continue
                    before = len(rep.st.truncated)
                    one(rep, q, None, allow_reject=True)
                    if len(rep.st.truncated) > before:
                        t = rep.st.truncated[before:]
                        rep.st.truncated[before:] = []
                        # accepted, but neither side can be followed: known only by an explicit list
                        rep.violation("a gate is mapped to a circuit with the same effect", f"{code}: {g} with {nc} control(s)", f"accepted, effect not established: {t[0][:200]}")
                    n += 1
        rep.sample({"accepted": n})

    return f


def one(rep, q, errs, allow_reject=False):
    c = E.check(rep, q.code, q.freq, q.nq, q.regs, q.steps, errs, label=q.text()[:80])
    rep.reach("program")
    if c is None:
        rep.sample({"program": q.text()[:200]})
        return True
    ok, info = E.replay(c)
    if not ok:
        rep.truncated(f"not reproduced: {q.text()} {c['what']}: {info}")
        return False
    on = set(c.get("on", ()))
    text = E.line(q.code, q.freq, q.nq, q.regs, q.steps, on)
    if errs and any(c.get("errors", {}).values()):
        text += f" ; errors {[(m, q_, p_) for m, l in c['errors'].items() for q_, p_ in l]}"
    rep.violation(("the bits have the original distribution: " if not errs else "the error is corrected: ") + q.text(), q.text(), f"{c['what']}; {info}; program: {text}")
    return False


def runner(progs, errs):
    def f(rep):
        for q in progs:
            one(rep, q, errs(q) if errs else None)

    return f


def data_qubits(code, nq):
    """Physical data qubits by logical qubit."""
    n = NRED[code]
    js = [j for j in range(n) if (j // 6 + j % 6) % 2] if code == "Q18Surface" else range(n)
    return [[i + j * nq for j in js] for i in range(nq)]


def epochs(q):
    """slot -> (correction interval, the interval has a gate on two qubits)."""
    ep, k, bump = {}, 0, 0
    two = set()
    for s in q.steps:
        e = (k // q.freq if q.freq else 0, bump)
        if s[0] == "slot":
            ep[s[1]] = e
        if s[0] == "g" and s[3]:
            two.add(e)
        k += 1
        if s[0] == "m":
            bump += 1
    return ep, two


def errors(kinds):
    """At most one error per logical qubit (one in total when a gate on two qubits follows) in every interval between corrections."""

    def of(q):
        ep, two = epochs(q)

        def make(pb, marks, base):
            out, cons, groups, locs = {}, [], {}, {}
            for m in marks:
                out[m] = []
                for i, qs in enumerate(data_qubits(q.code, q.nq)):
                    for d in qs:
                        fs = []
                        for p in kinds:
                            f = pb.vs.new(f"e{m}_{d}{p}")
                            out[m].append((d, p, f))
                            fs.append(f)
                        act = z3.Or(*[pb.expr(f) for f in fs])
                        key = (ep[m], None if ep[m] in two else i)
                        groups.setdefault(key, []).append(act)
                        locs.setdefault(key, []).append(fs)
            for g in groups.values():
                cons.append(z3.PbLe([(a, 1) for a in g], 1))
            return out, cons, list(locs.values())

        return make

    return of
