"""C05: Pauli text and bit representations agree."""
from __future__ import annotations

import numpy as np

import gf2
from codescommon import COLOR, CSS_BIG, CSS_SMALL, CSSCode, StabilizerCode, M_stab, code, setup
from runner import Harness
from symstr import SymChar, SymStr, pauli_text
from symx import S, s_and, s_iff, s_not, s_or

ASSUMPTIONS = ["bit arrays are numpy arrays with entries 0/1"]
OUTSIDE = ["texts longer than 6 letters (3 for arbitrary characters)", "the text consisting of a sign only"]
FN = ["pauli_to_binary", "paulis_to_binary", "binary_to_pauli_string", "is_pauli_string", "get_n_qubits_from_pauli", "pauli_to_symplectic_vec", "commute", "anti_commute",
      "all_commute", "symplectic_inner_product", "symplectic_matrix_product", "symplectic_matrix_mul", "stabs_as_pauli_strings", "x/z_checks_as_pauli_strings", "x/z_logicals_as_pauli_strings"]


def to_bits(n, sign):
    def h(ctx):
        t, xs, zs, sb = pauli_text(ctx, "p", n, sign)
        for nm, got, want in (("binary", M_stab.pauli_to_binary(t), xs + zs + [sb]), ("symplectic", M_stab.pauli_to_symplectic_vec(t), xs + zs), ("list", M_stab.paulis_to_binary([t, t])[1], xs + zs + [sb])):
            got = list(np.asarray(got, dtype=object).flat)
            ctx.check(len(got) == len(want), f"{nm} length", len(got))
            for i, (g, w) in enumerate(zip(got, want)):
                ctx.check(S.of(g) == w, f"text to {nm}", i)
        ctx.check(M_stab.get_n_qubits_from_pauli(t) == n, "number of qubits of text")
        ctx.check(s_iff(bool(M_stab.is_pauli_string(t)), 1), "Pauli text recognised")

    return h


def back(n, sign):
    def h(ctx):
        t, xs, zs, sb = pauli_text(ctx, "p", n, sign)
        b = M_stab.pauli_to_binary(t)
        ctx.check(M_stab.get_n_qubits_from_pauli(b) == n, "number of qubits of bits")
        s = M_stab.binary_to_pauli_string(b)
        want = str(t).lstrip("+")
        ctx.check(str(s) == want, "text -> bits -> text", (str(t), str(s)))

    return h


def bits_round(n):
    def h(ctx):
        b = ctx.bits("b", 2 * n + 1)
        s = M_stab.binary_to_pauli_string(b)
        b2 = list(M_stab.pauli_to_binary(s))
        ctx.check(len(b2) == 2 * n + 1, "length")
        for i, (x, y) in enumerate(zip(b2, list(b))):
            ctx.check(S.of(x) == y, "bits -> text -> bits", i)

    return h


ALPHA = "IXYZ+-Ax"


def recog(n):
    def h(ctx):
        bits = [[ctx.bit(f"c{j}_{k}") for k in range(3)] for j in range(n)]
        if any(isinstance(b, S) for r in bits for b in r):
            t = SymStr([SymChar(b, ALPHA) for b in bits])
        else:
            t = "".join(ALPHA[b[0] + 2 * b[1] + 4 * b[2]] for b in bits)
        v = bool(M_stab.is_pauli_string(t))
        s = str(t)
        body = s[1:] if s and s[0] in "+-" else s
        if not body:
            return
        ctx.check(v == all(ch in "IXYZ" for ch in body), "text recognised iff letters over I,X,Y,Z with optional sign", s)

    return h


def comm(n):
    def h(ctx):
        p, q = ctx.bits("p", 2 * n), ctx.bits("q", 2 * n)
        odd = gf2.symp(list(p), list(q), n)
        v = bool(M_stab.commute(p, q))
        ctx.check(s_iff(v, s_not(odd)), "commute", v)
        w = bool(M_stab.anti_commute(p, q))
        ctx.check(s_iff(w, odd), "anti_commute", w)
        ctx.check(S.of(M_stab.symplectic_inner_product(p, q)) == odd, "inner product")
        ctx.count(f"commute {v}")

    return h


def matprod(r1, r2, n):
    def h(ctx):
        a, b = ctx.bits("a", r1, 2 * n), ctx.bits("b", r2, 2 * n)
        m = M_stab.symplectic_matrix_product(a, b)
        ctx.check(tuple(np.shape(m)) == (r1, r2), "shape")
        for i in range(r1):
            for j in range(r2):
                ctx.check(S.of(m[i, j]) == gf2.symp(list(a[i]), list(b[j]), n), "matrix of commutation bits", (i, j))
        v = bool(M_stab.all_commute(a, b))
        ctx.check(s_iff(v, s_and(*[s_not(gf2.symp(list(x), list(y), n)) for x in a for y in b])), "all_commute", v)
        ctx.count(f"all_commute {v}")

    return h


def printed(rx, rz, n):
    def h(ctx):
        hx = ctx.bits("hx", rx, n) if rx else None
        hz = ctx.bits("hz", rz, n) if rz else None
        if rx and rz:
            for a in hx:
                for b in hz:
                    ctx.assume(S.of(gf2.dot(list(a), list(b))) == 0)
        c = CSSCode(1, hx, hz)
        text_rows(ctx, c)

    return h


def text_rows(ctx, c):
    n = c.n
    for f, m, ch in ((c.x_checks_as_pauli_strings, c.Hx, "X"), (c.z_checks_as_pauli_strings, c.Hz, "Z"), (c.x_logicals_as_pauli_strings, c.Lx, "X"), (c.z_logicals_as_pauli_strings, c.Lz, "Z")):
        ss = f()
        ctx.check(len(ss) == len(m), "one text per row")
        for s, r in zip(ss, m):
            ctx.check(len(s) == n, "text length")
            for i, (a, b) in enumerate(zip(s, r)):
                ctx.check(s_iff(int(a == ch), b), f"{f.__name__} letter")
                ctx.check(a in (ch, "I"), f"{f.__name__} letters are {ch} or I")
    st = c.stabs_as_pauli_strings()
    exp = [(list(r), [0] * n) for r in c.Hx] + [([0] * n, list(r)) for r in c.Hz]
    ctx.check(len(st) == len(exp), "one text per generator")
    for s, (x, z) in zip(st, exp):
        ctx.check(len(s) == n, "generator text length")
        for a, bx, bz in zip(s, x, z):
            ctx.check(s_and(s_iff(int(a in "XY"), bx), s_iff(int(a in "ZY"), bz)), "stabilizer text letter")


def gens(g, n):
    def h(ctx):
        # signed generators on n qubits given as bits: text of every generator describes the bits
        G = ctx.bits("g", g, 2 * n + 1)
        for i in range(g):
            for j in range(i):
                ctx.assume(S.of(gf2.symp(list(G[i]), list(G[j]), n)) == 0)
        c = StabilizerCode(G)
        for s, r in zip(c.stabs_as_pauli_strings(), G):
            want = ("-" if bool(S.of(r[2 * n])) else "") + "".join("IXZY"[int(bool(S.of(r[i]))) + 2 * int(bool(S.of(r[n + i])))] for i in range(n))
            ctx.check(s == want, "generator text", (s, want))
        c2 = StabilizerCode(c.stabs_as_pauli_strings())
        ctx.check(s_and(*[S.of(a) == b for a, b in zip(np.asarray(c2.generators, dtype=object).flat, G.flat)]), "code -> texts -> code keeps the generators")

    return h


def conc(name):
    def h(ctx):
        text_rows(ctx, code(name))
        ctx.count("done")

    return h


def harnesses(tier):
    out = []
    for n in range(1, 7 if tier == "thorough" else 6):
        for sg in ("none", "sym"):
            out.append(Harness(f"text to bits n={n} sign={sg}", to_bits(n, sg), setup=setup, paths=60000, bounds=f"all Pauli texts of {n} letters", functions=FN))
            if n <= 4 or tier == "thorough" and n <= 5:
                out.append(Harness(f"text round trip n={n} sign={sg}", back(n, sg), setup=setup, paths=60000, bounds=f"all Pauli texts of {n} letters", functions=FN))
        if n <= 4:
            out.append(Harness(f"bits round trip n={n}", bits_round(n), setup=setup, bounds=f"all bit vectors of {n} qubits with sign", functions=FN))
            out.append(Harness(f"commutation n={n}", comm(n), setup=setup, bounds="all pairs", functions=FN, must_reach=["commute True", "commute False"]))
    out.append(Harness("commutation n=8", comm(8), setup=setup, bounds="all pairs", functions=FN, must_reach=["commute True", "commute False"]))
    for n in (1, 2, 3):
        out.append(Harness(f"recognition n={n}", recog(n), setup=setup, bounds=f"all strings of length {n} over {ALPHA}", functions=FN))
    for a, b, n in ((1, 1, 2), (2, 2, 2), (2, 3, 3), (3, 1, 4)):
        out.append(Harness(f"matrix product {a},{b},{n}", matprod(a, b, n), setup=setup, bounds="all matrices", functions=FN, must_reach=["all_commute True", "all_commute False"]))
    for rx, rz, n in ((2, 0, 3), (0, 2, 3), (1, 1, 3)):
        out.append(Harness(f"printed checks {rx},{rz},{n}", printed(rx, rz, n), setup=setup, bounds="all check matrices", functions=FN))
    out.append(Harness("generator texts 1x2", gens(1, 2), setup=setup, bounds="all", functions=FN))
    out.append(Harness("generator texts 2x2", gens(2, 2), setup=setup, bounds="all", functions=FN, seconds=400))
    for nm in CSS_SMALL + CSS_BIG + COLOR:
        out.append(Harness(f"printed {nm}", conc(nm), setup=None, bounds="the code's rows", functions=FN, must_reach=["done"]))
    return out
