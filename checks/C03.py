"""C03: syndromes and logical-error verdicts reflect commutation."""
from __future__ import annotations

import numpy as np

import gf2
from codescommon import COLOR, CSS_BIG, CSS_SMALL, M_stab, StabilizerCode, CSSCode, code, setup
from runner import Harness
from symstr import pauli_text
from symx import S, s_and, s_iff, s_implies, s_not, s_or

ASSUMPTIONS = [
    "ldpc.mod2.rank (third party) is replaced by its contract (GF(2) rank) on matrices with symbolic entries",
    "numpy object arrays compute exact integer arithmetic: machine overflow of int8 sums is outside the encoding (parity is unaffected by wrap-around)",
]
OUTSIDE = ["codes other than the listed instances, except the symbolic-generator harness (n = 2)"]
FN = ["StabilizerCode.get_syndrome", "CSSCode.get_x_syndrome", "CSSCode.get_z_syndrome", "ColorCode.get_syndrome", "pauli_to_binary",
      "CSSCode.check_if_logical_x_error", "CSSCode.check_if_logical_z_error", "ColorCode.check_if_logical_error", "CSSCode.check_if_x_stabilizer",
      "CSSCode.check_if_z_stabilizer", "StabilizerCode.__init__"]


def eqvec(got, want, ctx, label):
    got = list(np.asarray(got, dtype=object).flat)
    ctx.check(len(got) == len(want), label + ": length", (len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(S.of(g) == w, label, i)


def rows(m):
    return [[int(x) for x in r] for r in np.asarray(m)]


def css(name):
    def h(ctx):
        c = code(name)
        n = c.n
        e = ctx.bits("e", n)
        if ctx.choice("what", ["x", "z"]) == "x":
            eqvec(c.get_x_syndrome(e), gf2.matvec(rows(c.Hx), list(e)), ctx, f"{name} x syndrome")
        else:
            eqvec(c.get_z_syndrome(e), gf2.matvec(rows(c.Hz), list(e)), ctx, f"{name} z syndrome")

    return h


def css_full(name):
    def h(ctx):
        c = code(name)
        n = c.n
        ex, ez, s = ctx.bits("ex", n), ctx.bits("ez", n), ctx.bits("s", 1)
        if ctx.symbolic or True:
            v = np.hstack((ex, ez, s))
        got = StabilizerCode.get_syndrome(c, v)
        want = gf2.matvec(rows(c.Hx), list(ez)) + gf2.matvec(rows(c.Hz), list(ex))
        eqvec(got, want, ctx, f"{name} full syndrome")

    return h


def text(name, n, sign):
    def h(ctx):
        c = code(name)
        t, xs, zs, _ = pauli_text(ctx, "p", n, sign)
        got = StabilizerCode.get_syndrome(c, t)
        # stabilizers as text are the independent description of the code
        want = []
        for st in c.stabs_as_pauli_strings():
            st = st.lstrip("+-")
            want.append(gf2.symp([int(ch in "XY") for ch in st] + [int(ch in "ZY") for ch in st], xs + zs, n))
        eqvec(got, want, ctx, f"{name} text syndrome")

    return h


def logical(name, typ):
    def h(ctx):
        c = code(name)
        n = c.n
        r = ctx.bits("r", n)
        own, other = (c.Hx, c.Hz) if typ == "x" else (c.Hz, c.Hx)
        f = c.check_if_logical_x_error if typ == "x" else c.check_if_logical_z_error
        stab = gf2.in_rowspace(rows(own), list(r), n)
        for b in gf2.matvec(rows(other), list(r)):
            ctx.assume(S.of(b) == 0)
        verdict = f(r)
        ctx.check(s_iff(bool(verdict), s_not(stab)), f"{name} logical {typ} verdict", bool(verdict))
        ctx.count(f"verdict {bool(verdict)}")

    return h


def stabcheck(name, typ):
    def h(ctx):
        c = code(name)
        n = c.n
        r = ctx.bits("r", n)
        own = c.Hx if typ == "x" else c.Hz
        f = c.check_if_x_stabilizer if typ == "x" else c.check_if_z_stabilizer
        v = bool(f(r))
        ctx.check(s_iff(v, gf2.in_rowspace(rows(own), list(r), n)), f"{name} {typ} stabilizer verdict", v)
        ctx.count(f"stabilizer {v}")

    return h


def color(name):
    def h(ctx):
        c = code(name)
        n = c.n
        e = ctx.bits("e", n)
        eqvec(c.get_syndrome(e), gf2.matvec(rows(c.H), list(e)), ctx, f"{name} colour syndrome")

    return h


def color_logical(name):
    def h(ctx):
        c = code(name)
        n = c.n
        e = ctx.bits("e", n)
        for b in gf2.matvec(rows(c.H), list(e)):
            ctx.assume(S.of(b) == 0)
        v = c.check_if_logical_error(e)
        ctx.check(s_iff(bool(v), s_not(gf2.in_rowspace(rows(c.H), list(e), n))), f"{name} colour logical verdict", bool(v))
        ctx.count(f"verdict {bool(v)}")

    return h


def symgen(ngen, n):
    def h(ctx):
        g = ctx.bits("g", ngen, 2 * n + 1)
        for i in range(ngen):
            for j in range(i):
                ctx.assume(S.of(gf2.symp(list(g[i]), list(g[j]), n)) == 0)
        # positive generators: the sign of a generator does not influence syndromes
        for i in range(ngen):
            ctx.assume(S.of(g[i][2 * n]) == 0)
        e = ctx.bits("e", 2 * n + 1)
        c = StabilizerCode(g)
        got = c.get_syndrome(e)
        eqvec(got, [gf2.symp(list(g[i]), list(e), n) for i in range(ngen)], ctx, "symbolic generators")

    return h


def harnesses(tier):
    out = []
    names = CSS_SMALL + CSS_BIG + COLOR + (["bb72", "bb90", "hex7", "sqoct7"] if tier == "thorough" else ["bb72"])
    for nm in names:
        b = f"all errors of {nm}"
        out.append(Harness(f"syndrome {nm}", css(nm), setup=setup, bounds=b, functions=FN))
        out.append(Harness(f"full syndrome {nm}", css_full(nm), setup=setup, bounds=b, functions=FN))
        if not nm.startswith(("bb", "golay", "hex7", "sqoct7")) or tier == "thorough":
            for t in "xz":
                out.append(Harness(f"logical {t} {nm}", logical(nm, t), setup=setup, bounds=b + " with zero syndrome", functions=FN, must_reach=["verdict True", "verdict False"] if code_k(nm) else []))
                out.append(Harness(f"stabilizer {t} {nm}", stabcheck(nm, t), setup=setup, bounds=b, functions=FN, must_reach=["stabilizer True", "stabilizer False"]))
    for nm in COLOR + (["hex7", "sqoct7"] if tier == "thorough" else []):
        out.append(Harness(f"colour syndrome {nm}", color(nm), setup=setup, bounds=f"all errors of {nm}", functions=FN))
        out.append(Harness(f"colour logical {nm}", color_logical(nm), setup=setup, bounds=f"all zero-syndrome residuals of {nm}", functions=FN, must_reach=["verdict True", "verdict False"]))
    for nm, n in [("five", 5), ("five_signed", 5), ("steane", 7), ("carbon", 12)]:
        for sg in ("none", "sym"):
            out.append(Harness(f"text {nm} sign={sg}", text(nm, n, sg), setup=setup, bounds=f"all Pauli strings of length {n}", functions=FN))
    out.append(Harness("symbolic generators 1x2", symgen(1, 2), setup=setup, bounds="1 generator, 2 qubits, all errors", functions=FN))
    out.append(Harness("symbolic generators 2x2", symgen(2, 2), setup=setup, bounds="2 commuting generators, 2 qubits, all errors", functions=FN))
    return out


def code_k(nm):
    return True
