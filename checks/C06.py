"""C06: code families have the advertised parameters."""
from __future__ import annotations

import numpy as np
import z3

import dist
import gf2
import mqt.qecc.codes as Q
from codescommon import CSSCode
from mqt.qecc.codes import InvalidCSSCodeError
from runner import Harness

ASSUMPTIONS = ["the minimum weight over the GF(2) space is decided by z3 (cardinality + parity constraints)",
               "for BB codes one qubit is fixed using translation invariance, which is verified on the constructed matrices first"]
OUTSIDE = ["colour codes with distance > 9", "bb288: operators of weight above the listed bound and below 18 that are not invariant under one of the listed translations"]
FN = ["CSSCode.from_code_name", "construct_bb_code", "_cyclic_code_check_matrix", "HexagonalColorCode", "SquareOctagonColorCode", "CSSCode.__init__"]

# (x distance, z distance), n, k as documented
NAMED = {
    ("Steane", None): (7, 1, 3, 3), ("tetrahedral", None): (15, 1, 7, 3), ("Hamming", None): (15, 7, 3, 3), ("shor", None): (9, 1, 3, 3),
    ("Carbon", None): (12, 2, 4, 4), ("surface", None): (9, 1, 3, 3), ("surface", 3): (9, 1, 3, 3), ("Surface", 5): (25, 1, 5, 5), ("golay", None): (23, 1, 7, 7),
}
BB = {72: (12, 6), 90: (8, 10), 108: (8, 10), 144: (12, 12), 288: (12, 18)}
BBLM = {72: (6, 6), 90: (15, 3), 108: (9, 6), 144: (12, 6), 288: (12, 12)}


def rows(m):
    return [[int(x) for x in r] for r in np.asarray(m)]


def min_weight(rep, c, typ, d, extra=None, low=None, upper=True, upextra=None, what="", inputs=None):
    """Decide: no nontrivial logical of weight < d (or <= low), and one of weight d exists."""
    n = c.n
    own, oth = (c.Hx, c.Hz) if typ == "x" else (c.Hz, c.Hx)
    own, oth = (rows(own) if own is not None else []), (rows(oth) if oth is not None else [])
    dual = dist.dual_logicals(own, oth, n)

    def ask(w, ex):
        s, e = dist.problem(oth, dual, n)
        s.add(z3.PbLe([(x, 1) for x in e], w))
        if ex:
            ex(s, e)
        s.set("timeout", 700000)
        r = rep.solve(s, what=f"{what} {typ} weight <= {w}")
        v = None
        if r == "sat":
            m = s.model()
            v = [int(z3.is_true(m.eval(x))) for x in e]
        return r, v

    w = d - 1 if low is None else low
    r, v = ask(w, extra)
    lab = f"{what}: no {typ} logical of weight <= {w}"
    if r == "sat":
        # replay on the real code
        e = np.array(v, dtype=np.int8)
        synd = c.get_z_syndrome(e) if typ == "x" else c.get_x_syndrome(e)
        logical = c.check_if_logical_x_error(e) if typ == "x" else c.check_if_logical_z_error(e)
        rep.violation(lab, inputs, {"operator": [i for i in range(n) if v[i]], "syndrome": [int(x) for x in np.asarray(synd)], "code says logical": bool(logical), "declared": d})
    elif r == "unsat":
        rep.proved("lower")
    if upper:
        r, v = ask(d, upextra or extra)
        if r == "unsat" and not upextra:
            rep.violation(f"{what}: a {typ} logical of weight {d} exists", inputs, f"every nontrivial {typ} logical has weight > {d}")
        elif r == "unsat":
            rep.truncated(f"{what}: no witness of weight {d} in the searched subspace")
        elif r == "sat":
            e = np.array(v, dtype=np.int8)
            if typ == "x":
                bad = (c.get_z_syndrome(e)).any() or not c.check_if_logical_x_error(e)
            else:
                bad = (c.get_x_syndrome(e)).any() or not c.check_if_logical_z_error(e)
            if bad:
                rep.violation(f"{what}: the code recognises its minimum-weight {typ} logical", inputs, {"operator": [i for i in range(n) if v[i]]})
            else:
                rep.proved("upper")
                rep.sample({"code": what, "type": typ, "minimum weight logical": [i for i in range(n) if v[i]]})


def params(rep, c, n, k, dx, dz, what, inputs):
    own, oth = rows(c.Hx), rows(c.Hz)
    real_k = n - gf2.rank(own) - gf2.rank(oth)
    bad = []
    if c.n != n or c.Hx.shape[1] != n or c.Hz.shape[1] != n:
        bad.append(("n", c.n))
    if c.k != k or real_k != k or len(c.Lx) != k or len(c.Lz) != k:
        bad.append(("k", c.k, real_k, len(c.Lx), len(c.Lz)))
    if (c.x_distance, c.z_distance, c.distance) != (dx, dz, min(dx, dz)):
        bad.append(("declared distances", c.x_distance, c.z_distance, c.distance))
    if any(gf2.dot(a, b) for a in own for b in oth):
        bad.append("checks do not commute")
    if not all(x in (0, 1) for r in own + oth for x in r):
        bad.append("entries outside 0/1")
    if bad:
        rep.violation(f"{what}: documented parameters", inputs, bad)
        return False
    rep.trivial("parameters")
    return True


def named(key):
    def f(rep):
        name, d = key
        n, k, dx, dz = NAMED[key]
        c = CSSCode.from_code_name(name, d) if d is not None else CSSCode.from_code_name(name)
        inp = {"code": name, "distance": d}
        if params(rep, c, n, k, dx, dz, name, inp):
            min_weight(rep, c, "x", dx, what=name, inputs=inp)
            min_weight(rep, c, "z", dz, what=name, inputs=inp)

    return f


def colour(kind, d, n):
    def f(rep):
        c = Q.HexagonalColorCode(d) if kind == "hexagonal" else Q.SquareOctagonColorCode(d)
        what = f"{kind} colour code d={d}"
        inp = {"lattice": kind, "distance": d}
        if params(rep, c, n, 1, d, d, what, inp):
            min_weight(rep, c, "x", d, what=what, inputs=inp)

    return f


def bb(nn, low=None, upper=True):
    def f(rep):
        c = Q.construct_bb_code(nn)
        k, d = BB[nn]
        l, m = BBLM[nn]
        what, inp = f"BB code n={nn}", {"n": nn}
        if not params(rep, c, nn, k, d, d, what, inp):
            return
        lm = l * m
        sym = True
        hx, hz = rows(c.Hx), rows(c.Hz)
        for dx, dy in ((1, 0), (0, 1)):
            p = [b * lm + ((i + dx) % l) * m + (j + dy) % m for b in (0, 1) for i in range(l) for j in range(m)]
            for h in (hx, hz):
                if {tuple(r[q] for q in p) for r in h} != {tuple(r) for r in h}:
                    sym = False
        if not sym:
            rep.notes.append("not translation invariant: full query")
        fix = (lambda s, e: s.add(z3.Or(e[0], e[lm]))) if sym else None  # noqa: E731

        def inv(s, e):
            for b in (0, 1):
                for i in range(l):
                    for j in range(m):
                        s.add(e[b * lm + i * m + j] == e[b * lm + ((i + l // 3) % l) * m + (j + m // 3) % m])

        for t in "xz":
            min_weight(rep, c, t, d, extra=fix, low=low, upper=upper, upextra=inv if nn == 288 else None, what=what, inputs=inp)

    return f


def bb288_inv(sx, sy):
    """No logical of weight < 18 among the operators invariant under one translation."""

    def f(rep):
        c = Q.construct_bb_code(288)
        l = m = 12
        what = f"BB code n=288, operators invariant under translation by ({sx},{sy})"

        def ex(s, e):
            for b in (0, 1):
                for i in range(l):
                    for j in range(m):
                        s.add(e[b * l * m + i * m + j] == e[b * l * m + ((i + sx) % l) * m + (j + sy) % m])

        for t in "xz":
            min_weight(rep, c, t, 18, extra=ex, upper=False, what=what, inputs={"n": 288})

    return f


def unknown(ctx):
    """Only the documented sizes and names exist."""
    n = ctx.nat("n", 400)
    try:
        c = Q.construct_bb_code(n)
        ok = True
    except InvalidCSSCodeError:
        ok = False
    if ok:
        ctx.check((n == 72) | (n == 90) | (n == 108) | (n == 144) | (n == 288), "only documented BB sizes are built")
        ctx.check(n == c.n, "BB code has the requested size", c.n)
        ctx.count("built")
    else:
        for b in BB:
            ctx.check(n != b, "documented BB sizes are built", b)
        ctx.count("rejected")


def names(ctx):
    nm = ctx.choice("name", ["steane", "foo", "surface", "", "surface_7"])
    d = ctx.choice("d", [None, 3, 4, 7])
    try:
        c = CSSCode.from_code_name(nm, d)
    except InvalidCSSCodeError:
        c = None
    ctx.check((c is not None) == (nm == "steane" or (nm == "surface" and d in (None, 3))), "unknown codes are rejected", (nm, d))


def harnesses(tier):
    th = tier == "thorough"
    out = []
    for key, (n, k, dx, dz) in NAMED.items():
        out.append(Harness(f"named {key[0]} {key[1]}", named(key), kind="direct", bounds=f"all X and Z operators on {n} qubits", functions=FN, must_reach=["lower", "upper"]))
    hexn = {3: 7, 5: 19, 7: 37, 9: 61, 11: 91}
    son = {3: 7, 5: 17, 7: 31, 9: 49, 11: 71}
    for d in [3, 5, 7] + ([9, 11] if th else [9]):
        out.append(Harness(f"hexagonal d={d}", colour("hexagonal", d, hexn[d]), kind="direct", bounds=f"all operators on {hexn[d]} qubits", functions=FN, must_reach=["lower", "upper"]))
        out.append(Harness(f"square octagon d={d}", colour("square octagon", d, son[d]), kind="direct", bounds=f"all operators on {son[d]} qubits", functions=FN, must_reach=["lower", "upper"]))
    for nn in (72, 90, 108, 144):
        out.append(Harness(f"BB {nn}", bb(nn), kind="direct", bounds=f"all operators on {nn} qubits", functions=FN, must_reach=["lower", "upper"]))
    out.append(Harness("BB 288", bb(288, low=12 if th else 8), kind="direct", bounds=f"all operators of weight <= {12 if th else 8}; witness of weight 18 among the operators invariant under a translation of order 3", functions=FN, must_reach=["lower"]))
    for sx, sy in [(6, 0), (0, 6), (6, 6), (4, 0), (0, 4), (4, 4), (4, 8), (3, 0), (0, 3), (3, 3), (3, 9), (3, 6), (6, 3)]:
        if th or (sx, sy) not in ((6, 6), (6, 0)):
            out.append(Harness(f"BB 288 invariant ({sx},{sy})", bb288_inv(sx, sy), kind="direct", bounds="all operators of weight < 18 invariant under the translation", functions=FN, must_reach=["lower"]))
    out.append(Harness("BB sizes", unknown, bounds="all n in 0..400", functions=FN, must_reach=["built", "rejected"]))
    out.append(Harness("unknown names", names, bounds="5 names x 4 distances", functions=FN))
    return out
