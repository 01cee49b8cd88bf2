"""C01: only consistent quantum codes are accepted."""
from __future__ import annotations

import numpy as np

import gf2
from codescommon import setup, CSSCode, StabilizerCode
from mqt.qecc.codes import InvalidCSSCodeError, InvalidStabilizerCodeError
from runner import Harness
from symstr import SymChar, SymStr, pauli_text
from symx import S, s_and, s_iff, s_not, s_or

ASSUMPTIONS = [
    "ldpc.mod2.rank (third party) is replaced by its contract on symbolic matrices; nullspace/row_basis/row_echelon are executed as they are",
    "check matrices and generators are given as numpy arrays with entries 0/1 or as Pauli strings",
]
OUTSIDE = ["matrices larger than the listed shapes", "sign contradictions between generators (-I in the group) are not part of the acceptance rule"]
FN = ["CSSCode.__init__", "CSSCode._check_valid_check_matrices", "StabilizerCode.__init__", "StabilizerCode._check_stabilizer_generators",
      "StabilizerCode._check_code_correct", "paulis_to_binary", "all_commute", "symplectic_matrix_product", "is_pauli_string", "get_n_qubits_from_pauli"]
ERR = (InvalidCSSCodeError, InvalidStabilizerCodeError)


def build(f):
    try:
        return f(), False
    except ERR:
        return None, True


def L(m):
    return [list(r) for r in m]


def css(rx, rz, nx, nz, dist=False):
    def h(ctx):
        hx = ctx.bits("hx", rx, nx) if rx is not None else None
        hz = ctx.bits("hz", rz, nz) if rz is not None else None
        d, xd, zd = 1, None, None
        if dist:
            d = ctx.choice("d", [0, 1, 2])
            xd = ctx.choice("xd", [None, 1, 2])
            zd = ctx.choice("zd", [None, 1, 2])
        c, rej = build(lambda: CSSCode(d, hx, hz, x_distance=xd, z_distance=zd))
        want = S(1)
        if hx is None and hz is None:
            want = S(0)
        elif hx is not None and hz is not None:
            if nx != nz:
                want = S(0)
            else:
                want = s_and(*[S.of(gf2.dot(list(a), list(b))) == 0 for a in hx for b in hz])
        if dist:
            ok = d >= 1 and (xd is None or xd >= d) and (zd is None or zd >= d)
            want = s_and(want, int(ok))
        ctx.check(s_iff(int(not rej), want), "CSS code accepted iff consistent", "rejected" if rej else "accepted")
        ctx.count("rejected" if rej else "accepted")
        if c is not None:
            n = nx if hx is not None else nz
            ctx.check(c.n == n, "n", c.n)
            rk = 0
            zeros = 1
            for m in (hx, hz):
                if m is not None:
                    zeros = zeros * gf2.rank_sym(L(m))
            tot = (rx or 0) + (rz or 0)
            # 2^(rows - rank) combinations vanish
            ctx.check(S.of(zeros) == 2 ** (tot - n + c.k) if tot - n + c.k >= 0 else S(0), "k = n - number of independent generators", c.k)
            ctx.check(c.distance == d and c.x_distance == (xd if xd is not None else d) and c.z_distance == (zd if zd is not None else d), "distances kept")

    return h


def stab(g, n, lz=None, lx=None, nlz=None, nlx=None):
    """g generators on n qubits; lz / lx logical operators on nlz / nlx qubits (None: not given)."""
    nlz, nlx = nlz or n, nlx or n

    def h(ctx):
        G = ctx.bits("g", g, 2 * n + 1)
        Z = ctx.bits("lz", lz, 2 * nlz + 1) if lz is not None else None
        X = ctx.bits("lx", lx, 2 * nlx + 1) if lx is not None else None
        c, rej = build(lambda: StabilizerCode(G, distance=None, Lz=Z, Lx=X))
        gl = L(G)
        want = s_and(*[S.of(gf2.symp(a, b, n)) == 0 for i, a in enumerate(gl) for b in gl[:i]])
        zeros = S.of(gf2.rank_sym([r[:-1] for r in gl]))
        # rank <= g, k = n - g + log2(zeros)
        if (lz is None) != (lx is None):
            want = S(0)
        elif lz is not None:
            if nlz != n or nlx != n:
                want = S(0)
            else:
                m = max(lz, lx)
                # m <= k  <=>  zeros >= 2^(m - n + g)
                want = s_and(want, zeros >= (2 ** (m - n + g) if m - n + g > 0 else 1))
                for q in L(Z) + L(X):
                    want = s_and(want, *[S.of(gf2.symp(q, a, n)) == 0 for a in gl])
                com = [[gf2.symp(a, b, n) for b in L(X)] for a in L(Z)]
                for r in com:
                    want = s_and(want, S.of(sum(r)) == 1)
                for r in zip(*com):
                    want = s_and(want, S.of(sum(r)) == 1)
        ctx.check(s_iff(int(not rej), want), "stabilizer code accepted iff consistent", "rejected" if rej else "accepted")
        ctx.count("rejected" if rej else "accepted")
        if c is not None:
            ctx.check(c.n == n, "n")
            ctx.check(zeros == 2 ** (g - n + c.k) if g - n + c.k >= 0 else S(0), "k = n - number of independent generators", c.k)

    return h


def text(lengths, signs, bad=False):
    """Generators given as text; every letter symbolic, lengths/sign layout per instance."""

    def h(ctx):
        gens, vec = [], []
        ok = S(1)
        for i, (ln, sg) in enumerate(zip(lengths, signs)):
            if bad:
                bits = [[ctx.bit(f"c{i}_{j}_{k}") for k in range(3)] for j in range(ln)]
                al = "IXYZ+-Ax"
                if any(isinstance(b, S) for r in bits for b in r):
                    t = SymStr([SymChar(b, al) for b in bits])
                    cs = list(t)
                    isin = lambda c, st: s_or(*[c.is_(x) for x in st])  # noqa: E731
                else:
                    t = "".join(al[b[0] + 2 * b[1] + 4 * b[2]] for b in bits)
                    cs = list(t)
                    isin = lambda c, st: S(int(c in st))  # noqa: E731
                gens.append(t)
                for c in cs:
                    ok = s_and(ok, isin(c, "IXYZ"))
                # leading signs are covered by the other text harnesses
                ctx.assume(s_not(isin(cs[0], "+-")))
            else:
                t, xs, zs, _ = pauli_text(ctx, f"p{i}", ln, sg)
                gens.append(t)
                vec.append((xs, zs))
        c, rej = build(lambda: StabilizerCode(gens))
        if bad:
            # only the converse direction depends on commutation: non Pauli text must be rejected
            ctx.check(s_or(ok, int(rej)), "text that is not a Pauli string is rejected")
            return
        if len(set(lengths)) > 1:
            want = S(0)
        else:
            n = lengths[0]
            want = S(1)
            for i, (xa, za) in enumerate(vec):
                for xb, zb in vec[:i]:
                    want = s_and(want, S.of(gf2.symp(xa + za, xb + zb, n)) == 0)
        ctx.check(s_iff(int(not rej), want), "text generators accepted iff consistent", "rejected" if rej else "accepted")
        ctx.count("rejected" if rej else "accepted")
        if c is not None:
            ctx.check(c.n == lengths[0], "n")

    return h


def misc(ctx):
    d = ctx.choice("d", [-2, -1, 0, 1, 2, None])
    c, rej = build(lambda: StabilizerCode(["ZZ", "XX"], distance=d))
    ctx.check(rej == (d is not None and d <= 0), "non-positive distance rejected", d)
    c, rej = build(lambda: StabilizerCode([]))
    ctx.check(rej, "empty generator list rejected")
    c, rej = build(lambda: CSSCode(1))
    ctx.check(rej, "CSS code without checks rejected")


def harnesses(tier):
    out = []
    shapes = [(1, 1, 3, 3), (2, 1, 3, 3), (1, 2, 3, 3), (2, 2, 3, 3), (None, 2, 3, 3), (2, None, 3, 3), (1, 1, 2, 3), (1, 1, 3, 2), (2, 1, 2, 3), (1, 1, 4, 4)]
    if tier == "thorough":
        shapes += [(2, 1, 4, 4), (1, 2, 4, 4), (3, 1, 3, 3), (1, 1, 6, 6), (None, 3, 3, 3), (2, None, 4, 4)]
    for rx, rz, nx, nz in shapes:
        out.append(Harness(f"css {rx}x{nx} {rz}x{nz}", css(rx, rz, nx, nz), setup=setup, seconds=500, bounds=f"all Hx {rx}x{nx}, Hz {rz}x{nz}", functions=FN))
    out.append(Harness("css distances", css(1, 1, 2, 2, dist=True), setup=setup, seconds=300, bounds="1x2 matrices, d in 0..2, x/z distance in {default,1,2}", functions=FN))
    st = [(1, 2), (2, 2), (1, 3), (2, 3)] + ([(3, 2), (3, 3)] if tier == "thorough" else [])
    for g, n in st:
        out.append(Harness(f"stab {g}x{n}", stab(g, n), setup=setup, seconds=500, bounds=f"all {g} signed generators on {n} qubits", functions=FN))
    lg = [(1, 2, 1, 1, None, None), (1, 3, 2, 2, None, None), (1, 3, 1, 2, None, None), (1, 3, 2, 1, None, None), (2, 3, 1, 1, None, None), (1, 2, 2, 2, None, None),
          (1, 2, 1, None, None, None), (1, 2, None, 1, None, None), (1, 3, 1, 1, 2, None), (1, 3, 1, 1, None, 2)]
    if tier == "thorough":
        lg += [(1, 3, 3, 3, None, None), (1, 4, 2, 2, None, None), (2, 4, 2, 2, None, None), (1, 4, 3, 3, None, None)]
    for g, n, a, b, c, d in lg:
        out.append(Harness(f"stab {g}x{n} Lz={a}@{c or n} Lx={b}@{d or n}", stab(g, n, a, b, c, d), setup=setup, seconds=500,
                           bounds=f"all {g} generators on {n} qubits with {a} Z and {b} X logicals", functions=FN))
    for lens, signs in [((2, 2), ("none", "none")), ((2, 2), ("sym", "none")), ((2, 2), ("none", "sym")), ((1, 1, 1), ("sym", "sym", "none")), ((1, 2), ("none", "none")), ((2, 1), ("none", "sym"))] + ([((3, 3), ("sym", "none")), ((3, 3), ("none", "sym")), ((2, 3), ("sym", "none")), ((2, 2, 2), ("none", "none", "none"))] if tier == "thorough" else []):
        out.append(Harness(f"text {lens} {signs}", text(lens, signs), setup=setup, paths=200000, seconds=300 if tier == "quick" else 700, bounds="all Pauli letters and signs", functions=FN))
    out.append(Harness("non-Pauli text 1", text((3,), ("none",), bad=True), setup=setup, seconds=300, bounds="all strings of length 3 over IXYZ+-Ax not starting with a sign", functions=FN))
    out.append(Harness("non-Pauli text 2", text((2, 2), ("none",) * 2, bad=True), setup=setup, seconds=300, bounds="two strings of length 2 over IXYZ+-Ax not starting with a sign", functions=FN))
    out.append(Harness("distance and emptiness", misc, setup=setup, bounds="d in -2..2 or default", functions=FN))
    return out
