"""C02: logical operators of a CSS code are a complete set of logicals."""
from __future__ import annotations

import numpy as np

import gf2
from codescommon import COLOR, CSS_BIG, CSS_SMALL, CSSCode, code, setup
from runner import Harness
from symx import S, s_and, s_implies, s_not, s_or

ASSUMPTIONS = ["ldpc.mod2 nullspace/row_basis/row_echelon (third party, pure Python) are executed symbolically as they are; rank is replaced by its contract"]
OUTSIDE = ["check matrices larger than the listed shapes, other than those of the listed codes"]
FN = ["CSSCode.__init__", "CSSCode._compute_logical"]


def L(m):
    return [list(r) for r in m]


def sym(rx, rz, n):
    def h(ctx):
        hx = ctx.bits("hx", rx, n) if rx else None
        hz = ctx.bits("hz", rz, n) if rz else None
        if rx and rz:
            for a in hx:
                for b in hz:
                    ctx.assume(S.of(gf2.dot(list(a), list(b))) == 0)
        c = CSSCode(1, hx, hz)
        tot = (rx or 0) + (rz or 0)
        for own, other, lg, nm in ((hx, hz, c.Lx, "X"), (hz, hx, c.Lz, "Z")):
            lg = L(lg)
            own_l, oth_l = (L(own) if own is not None else []), (L(other) if other is not None else [])
            ctx.check(all(len(r) == n for r in lg), f"{nm} logicals act on n qubits")
            zo, zt = S.of(gf2.rank_sym(own_l)) if own_l else S(1), S.of(gf2.rank_sym(oth_l)) if oth_l else S(1)
            # number of logicals = k :  2^(rows-rank) = zo*zt  and  k = n - rank
            want = tot - n + len(lg)
            ctx.check(zo * zt == 2**want if want >= 0 else S(0), f"number of {nm} logicals is k", len(lg))
            for r in lg:
                for b in oth_l:
                    ctx.check(S.of(gf2.dot(b, r)) == 0, f"{nm} logicals commute with checks")
            if lg:
                ctx.check(S.of(gf2.rank_sym(own_l + lg)) == zo, f"{nm} logicals independent of each other and of the stabilizers")
            ctx.count("logicals", len(lg))

    return h


def conc(name):
    def h(ctx):
        c = code(name)
        n = c.n
        typ = ctx.choice("type", ["x", "z"])
        own, other, lg = (c.Hx, c.Hz, c.Lx) if typ == "x" else (c.Hz, c.Hx, c.Lz)
        ownl, othl, lgl = L(own), L(other), [[int(x) for x in r] for r in lg]
        k = n - gf2.rank(ownl) - gf2.rank(othl)
        ctx.check(len(lgl) == k == c.k, f"{name}: number of {typ} logicals is k", (len(lgl), k, c.k))
        for r in lgl:
            for b in othl:
                ctx.check(gf2.dot(b, r) == 0, f"{name}: {typ} logical commutes with checks")
        # every non-trivial combination of logicals is outside the stabilizers
        co = ctx.bits("c", k) if k else []
        comb = [0] * n
        for ci, r in zip(co, lgl):
            comb = [(a + (ci if b else 0)) % 2 if b else a for a, b in zip(comb, r)]
        ctx.check(s_implies(s_or(*list(co)), s_not(gf2.in_rowspace(ownl, comb, n))), f"{name}: {typ} logicals are independent modulo stabilizers")
        ctx.count("checked")

    return h


def harnesses(tier):
    out = []
    shapes = [(1, 1, 3), (2, 1, 3), (1, 2, 3), (2, 2, 3), (0, 2, 3), (2, 0, 3), (1, 1, 4), (2, 1, 4), (0, 3, 3)]
    if tier == "thorough":
        shapes += [(1, 2, 4), (3, 1, 3), (2, 2, 4), (3, 0, 4), (1, 1, 6)]
    for rx, rz, n in shapes:
        out.append(Harness(f"symbolic {rx}x{n} {rz}x{n}", sym(rx, rz, n), setup=setup, seconds=500, bounds=f"all orthogonal Hx {rx}x{n}, Hz {rz}x{n}", functions=FN))
    for nm in CSS_SMALL + CSS_BIG + COLOR + ["bb72", "bb144", "hex7", "sqoct7"] + (["bb90", "bb108", "bb288"] if tier == "thorough" else []):
        out.append(Harness(f"code {nm}", conc(nm), setup=setup, bounds=f"all combinations of the logicals of {nm}", functions=FN, must_reach=["checked"]))
    return out
