"""C04: error equivalence and code equality are exact."""
from __future__ import annotations

import itertools

import numpy as np

import gf2
import mqt.qecc.codes as Q
from codescommon import COLOR, CSS_BIG, CSS_SMALL, CSSCode, StabilizerCode, code, setup
from runner import Harness
from symstr import pauli_text
from symx import S, s_and, s_iff, s_not, s_or

ASSUMPTIONS = ["ldpc.mod2.rank (third party) is replaced by its contract (GF(2) rank) on matrices with symbolic entries"]
OUTSIDE = ["generator sets that contain -identity as a product", "symbolic generator sets larger than the listed shapes", "comparison of a ColorCode with an object that is not a ColorCode (unspecified)"]
FN = ["StabilizerCode.stabilizer_equivalent", "CSSCode.stabilizer_eq_x_error", "CSSCode.stabilizer_eq_z_error", "StabilizerCode.__eq__", "StabilizerCode.__hash__",
      "ColorCode.__eq__", "ColorCode.__hash__", "CSSCode.is_self_dual"]


def rows(m):
    return [[int(x) for x in r] for r in np.asarray(m)]


def pmul(a, b, n):
    """Product of two commuting signed Paulis (x|z|s), signs by the single-qubit multiplication table."""
    tot = 2 * S.of(a[2 * n]) + 2 * S.of(b[2 * n])
    out = []
    for j in range(n):
        x1, z1, x2, z2 = (S.of(v) for v in (a[j], a[n + j], b[j], b[n + j]))
        # power of i of (i^{x1 z1} X^x1 Z^z1)(i^{x2 z2} X^x2 Z^z2)
        tot = tot + x1 * z1 * (z2 - x2) + x1 * (1 - z1) * z2 * (2 * x2 - 1) + (1 - x1) * z1 * x2 * (1 - 2 * z2)
    for j in range(2 * n):
        out.append((S.of(a[j]) + b[j]) % 2)
    lo, hi = tot.rng()
    out.append(s_or(*[tot == k for k in range(lo, hi + 1) if k % 4 == 2]))
    return out


def combos(g, n):
    for cs in itertools.product((0, 1), repeat=len(g)):
        acc = [0] * (2 * n + 1)
        for c, r in zip(cs, g):
            if c:
                acc = pmul(acc, r, n)
        yield acc


def same(a, b):
    return s_and(*[S.of(x) == y for x, y in zip(a, b)])


def commuting(ctx, g, n, sign=True):
    for i in range(len(g)):
        for j in range(i):
            ctx.assume(S.of(gf2.symp(g[i][: 2 * n], g[j][: 2 * n], n)) == 0)
    if sign:
        for v in combos(g, n):
            # -identity is no stabilizer
            ctx.assume(s_or(s_not(S.of(v[2 * n])), *[S.of(b) for b in v[: 2 * n]]))


def equiv(name):
    def h(ctx):
        c = code(name)
        n = c.n
        m = rows(c.symplectic_matrix)
        v1, v2 = ctx.bits("u", 2 * n + 1), ctx.bits("v", 2 * n + 1)
        got = bool(StabilizerCode.stabilizer_equivalent(c, v1, v2))
        d = [(a + b) % 2 for a, b in zip(list(v1)[:-1], list(v2)[:-1])]
        ctx.check(s_iff(got, gf2.in_rowspace(m, d, 2 * n)), f"{name}: equivalent iff the product is a stabilizer", got)
        ctx.count(f"equivalent {got}")

    return h


def equiv_text(name):
    def h(ctx):
        c = code(name)
        n = c.n
        m = rows(c.symplectic_matrix)
        t1, x1, z1, _ = pauli_text(ctx, "p", n, ctx.choice("s1", ["none", "-", "+"]))
        t2, x2, z2, _ = pauli_text(ctx, "q", n, ctx.choice("s2", ["none", "-"]))
        got = bool(StabilizerCode.stabilizer_equivalent(c, t1, t2))
        d = [(a + b) % 2 for a, b in zip(x1 + z1, x2 + z2)]
        ctx.check(s_iff(got, gf2.in_rowspace(m, d, 2 * n)), f"{name}: equivalent iff the product is a stabilizer (text)", got)

    return h


def equiv_css(name, typ):
    def h(ctx):
        c = code(name)
        n = c.n
        own = c.Hx if typ == "x" else c.Hz
        m = rows(own) if own is not None else []
        f = c.stabilizer_eq_x_error if typ == "x" else c.stabilizer_eq_z_error
        e1, e2 = ctx.bits("u", n), ctx.bits("v", n)
        got = bool(f(e1, e2))
        d = [(a + b) % 2 for a, b in zip(e1, e2)]
        ctx.check(s_iff(got, gf2.in_rowspace(m, d, n)), f"{name}: {typ} errors equivalent iff the product is a stabilizer", got)
        ctx.count(f"equivalent {got}")

    return h


def eq_sym(g1, g2, n, signed):
    def h(ctx):
        A, B = ctx.bits("a", g1, 2 * n + 1), ctx.bits("b", g2, 2 * n + 1)
        a, b = [list(r) for r in A], [list(r) for r in B]
        if not signed:
            for r in a + b:
                ctx.assume(S.of(r[2 * n]) == 0)
        commuting(ctx, a, n)
        commuting(ctx, b, n)
        ca, cb = StabilizerCode(A), StabilizerCode(B)
        ga, gb = list(combos(a, n)), list(combos(b, n))
        want = s_and(*[s_or(*[same(r, v) for v in gb]) for r in a], *[s_or(*[same(r, v) for v in ga]) for r in b])
        got = bool(ca == cb)
        ctx.check(s_iff(got, want), "codes are equal iff they have the same stabilizer group", got)
        ctx.check(bool(ca != cb) == (not got), "!= is the negation of ==")
        ctx.count(f"equal {got}")

    return h


def hash_sym(g, n):
    """Generators multiplied together, swapped: same group, so same code and same hash."""

    def h(ctx):
        A = ctx.bits("a", g, 2 * n + 1)
        a = [list(r) for r in A]
        commuting(ctx, a, n)
        b = list(a)
        op = ctx.choice("op", ["multiply", "swap", "repeat"] if g > 1 else ["same", "repeat"])
        if op == "multiply":
            b[0] = pmul(b[0], b[1], n)
        elif op == "swap":
            b[0], b[1] = b[1], b[0]
        elif op == "repeat":
            b = b + [b[0]]
        B = ctx_array(b)
        ca, cb = StabilizerCode(A), StabilizerCode(B)
        ctx.check(bool(ca == cb), "same group: equal codes", op)
        ctx.check(hash(ca) == hash(cb), "equal codes have equal hashes", op)
        ctx.count(op)

    return h


def ctx_array(b):
    from symx import has_sym, symarray

    o = np.empty((len(b), len(b[0])), dtype=object)
    for i, r in enumerate(b):
        for j, v in enumerate(r):
            o[i, j] = v.simp() if isinstance(v, S) else v
    if any(isinstance(v, S) for v in o.flat):
        from symx import SymArray

        return o.view(SymArray)
    return o.astype(np.int8)


def eq_inst(name):
    """Row operations (symbolic coefficients) on a concrete code: same group; signs flipped: another group."""

    def h(ctx):
        c = code(name)
        n = c.n
        G = rows(c.generators)
        # remove dependent generators: the reference needs an independent set for the sign argument
        r = len(G)
        H = [list(x) for x in G]
        co = ctx.bits("c", r - 1)
        order = ctx.choice("order", ["keep", "reverse"])
        for i in range(r - 1):  # row i *= row i+1 ^ c_i
            p = pmul(H[i], H[i + 1], n)
            H[i] = [S.of(x) + (S.of(y) - x) * co[i] for x, y in zip(H[i], p)]
            H[i] = [S.of(v % 2).simp() for v in H[i]]
        if order == "reverse":
            H = H[::-1]
        flip = ctx.bits("f", r)
        for i in range(r):
            H[i] = H[i][:-1] + [(S.of(H[i][-1]) + flip[i]) % 2]
        indep = gf2.rank([x[:-1] for x in G]) == r
        if not indep:
            for f in flip:
                ctx.assume(S.of(f) == 0)
        c1 = StabilizerCode(np.array(G, dtype=np.int8))
        c2 = StabilizerCode(ctx_array(H))
        got = bool(c1 == c2)
        ctx.check(s_iff(got, s_not(s_or(*[S.of(f) for f in flip]))), f"{name}: equal iff the signs of the group agree", got)
        if got:
            ctx.check(hash(c1) == hash(c2), f"{name}: equal codes have equal hashes")
        ctx.count(f"equal {got}")

    return h


def eq_replace(name):
    """One generator replaced by an arbitrary commuting Pauli."""

    def h(ctx):
        c = code(name)
        n = c.n
        G = rows(c.generators)
        v = ctx.bits("v", 2 * n + 1)
        for g in G[1:]:
            ctx.assume(S.of(gf2.symp(g[:-1], list(v)[:-1], n)) == 0)
        H = [list(v)] + [list(g) for g in G[1:]]
        # -identity excluded
        for w in combos([[int(b) for b in g] for g in G[1:]], n):
            ctx.assume(s_not(s_and(same(list(w)[:-1], list(v)[:-1]), s_not(S.of(w[-1]) == v[2 * n]))))
        c1, c2 = StabilizerCode(np.array(G, dtype=np.int8)), StabilizerCode(ctx_array(H))
        want = []
        for w in combos([[int(b) for b in g] for g in G[1:]], n):
            want.append(same(pmul([int(b) for b in G[0]], [S.of(x).simp() for x in w], n), list(v)))
        got = bool(c1 == c2)
        ctx.check(s_iff(got, s_or(*want)), f"{name}: equal iff same group after replacing a generator", got)
        if got:
            ctx.check(hash(c1) == hash(c2), f"{name}: equal codes have equal hashes")
        ctx.count(f"equal {got}")

    return h


def families(ctx):
    """Equality and hashes between library codes."""
    names = ["steane", "shor", "surface3", "carbon", "hex3", "hex5", "sqoct3", "sqoct5", "422", "redundant", "five"]
    a, b = ctx.choice("a", names), ctx.choice("b", names)
    ca, cb = code(a), code(b)
    grp = lambda c: gf2.rref(rows(c.generators))[0]  # noqa: E731  (all signs +: signed RREF is the RREF)
    want = ca.n == cb.n and grp(ca) == grp(cb)
    ctx.check((ca == cb) == want, "library codes equal iff same group", (a, b))
    ctx.check((cb == ca) == want, "equality is symmetric", (a, b))
    ctx.check(not want or hash(ca) == hash(cb), "equal codes have equal hashes", (a, b))
    fresh = Q.HexagonalColorCode(3)
    ctx.check(fresh == code("hex3") and hash(fresh) == hash(code("hex3")) and fresh != code("sqoct5"), "separately built colour codes")
    ctx.check(not (ca == 5), "unequal to other objects")


def selfdual(rx, rz, n):
    def h(ctx):
        hx, hz = ctx.bits("x", rx, n), ctx.bits("z", rz, n)
        lx, lz = [list(r) for r in hx], [list(r) for r in hz]
        for a in lx:
            for b in lz:
                ctx.assume(S.of(gf2.dot(a, b)) == 0)
        c = CSSCode(1, hx, hz)
        got = bool(c.is_self_dual())
        want = s_and(*[gf2.in_rowspace_sym(lz, r) for r in lx], *[gf2.in_rowspace_sym(lx, r) for r in lz])
        ctx.check(s_iff(got, want), "self-dual iff the X and Z checks generate the same space", got)
        ctx.count(f"self dual {got}")

    return h


def harnesses(tier):
    th = tier == "thorough"
    out = []

    def add(n, f, **k):
        k.setdefault("seconds", 400)
        out.append(Harness(n, f, setup=setup, functions=FN, paths=200000, **k))

    both = ["equivalent True", "equivalent False"]
    for nm in ["five", "five_signed", "steane", "422", "shor", "surface3", "redundant", "asym", "hex3", "sqoct3"] + (["carbon", "hex5"] if th else []):
        add(f"equivalence {nm}", equiv(nm), bounds=f"all pairs of signed Paulis on {nm}", must_reach=both)
    for nm in ["five", "422"] + (["steane"] if th else []):
        add(f"equivalence text {nm}", equiv_text(nm), bounds=f"all pairs of Pauli strings on {nm}")
    for nm in CSS_SMALL + ["hex3", "sqoct3", "hex5", "sqoct5", "tetrahedral", "hamming", "surface5"] + (["golay"] if th else []):
        for t in "xz":
            add(f"{t} equivalence {nm}", equiv_css(nm, t), bounds=f"all pairs of {t} errors on {nm}", must_reach=both)
    for g1, g2, n, s in [(1, 1, 1, True), (1, 1, 2, True), (2, 1, 1, True), (2, 1, 2, False)] + ([(2, 2, 2, False), (2, 2, 2, True), (1, 1, 3, True), (2, 1, 3, False)] if th else []):
        add(f"equality {g1},{g2} generators n={n} {'signed' if s else 'unsigned'}", eq_sym(g1, g2, n, s), bounds="all pairs of generator sets", must_reach=["equal True", "equal False"], seconds=700 if th else 400)
    for g, n in [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(2, 3)] if th else []):
        add(f"hash {g} generators n={n}", hash_sym(g, n), bounds="all generator sets, products/swaps/repetitions of generators")
    for nm in ["five", "five_signed", "steane", "422", "surface3", "shor"] + (["carbon"] if th else []):
        add(f"row operations {nm}", eq_inst(nm), bounds=f"chains of products of generators of {nm}, all sign flips", must_reach=["equal True"] + (["equal False"] if nm not in ("redundant",) else []))
    for nm in ["five", "five_signed", "422"] + (["steane"] if th else []):
        add(f"replaced generator {nm}", eq_replace(nm), bounds=f"every Pauli in place of the first generator of {nm}", must_reach=["equal True", "equal False"])
    add("library codes", families, bounds="all pairs of 11 library codes")
    for rx, rz, n in [(1, 1, 2), (1, 1, 4), (2, 1, 2), (2, 2, 2), (2, 1, 4)] + ([(2, 2, 4), (3, 2, 3)] if th else []):
        add(f"self dual {rx}x{n} {rz}x{n}", selfdual(rx, rz, n), bounds="all orthogonal pairs of check matrices")
    return out
