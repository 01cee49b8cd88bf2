"""C12: lookup-table decoding."""
from __future__ import annotations

import numpy as np
import z3

import circ as C
import gf2
from codescommon import code
from prep import rows
from runner import Harness

ASSUMPTIONS = ["the table is built by the real code and is a concrete object; the solver quantifies over errors and corrections"]
OUTSIDE = ["codes with more than 15 qubits (the table is built by enumerating 2^n errors)", "syndromes that no error causes"]
FN = ["LutDecoder.__init__", "generate_x_lut", "generate_z_lut", "_generate_lut", "decode_x", "decode_z", "batch_decode_x", "batch_decode_z"]


def lits(s, vs, rowsm, tag):
    import dist

    out = []
    for i, r in enumerate(rowsm):
        v = z3.Bool(f"{tag}s{i}")
        dist.xor_chain(s, [vs[j] for j in range(len(vs)) if r[j]] + [v], 0, f"{tag}{i}")
        out.append(v)
    return out


def table(rep, h, answer, inp, budget=4000):
    """answer(syndrome list) -> correction; decided for all syndromes of H."""
    import dist

    n = len(h[0])
    basis = gf2.rref(h)[0]
    # every reachable syndrome, from the column span
    span = {tuple([0] * len(h))}
    for j in range(n):
        col = tuple(r[j] for r in h)
        span |= {tuple(a ^ b for a, b in zip(v, col)) for v in span}
    # the solver confirms that this list is complete
    s = dist.solver()
    e = [z3.Bool(f"e{j}") for j in range(n)]
    sy = lits(s, e, h, "c")
    for v in span:
        s.add(z3.Or(*[z3.Not(l) if b else l for l, b in zip(sy, v)]))
    r = rep.solve(s, what="complete list of syndromes")
    assert r == "unsat"
    s = dist.solver()
    sy = lits(s, e, h, "m")
    weights = {}
    for v in span:
        try:
            ans = [int(b) for b in answer(v)]
        except Exception as ex:  # noqa: BLE001
            rep.violation("every syndrome has a correction", {**inp, "syndrome": v}, f"{type(ex).__name__}: {ex}")
            return
        if len(ans) != n or any(b not in (0, 1) for b in ans) or tuple(sum(a & b for a, b in zip(r_, ans)) & 1 for r_ in h) != v:
            rep.violation("the correction has the given syndrome", {**inp, "syndrome": v}, f"answer {ans}")
            return
        weights.setdefault(sum(ans), []).append((v, ans))
    for w, lst in sorted(weights.items()):
        s.push()
        s.add(z3.PbLe([(x, 1) for x in e], w - 1))
        for v, ans in lst:
            r = rep.solve(s, *[l if b else z3.Not(l) for l, b in zip(sy, v)], what="minimum weight")
            if r == "sat":
                m = s.model()
                lighter = [int(z3.is_true(m.eval(x, model_completion=True))) for x in e]
                if sum(lighter) < w:
                    rep.violation("minimum-weight correction", {**inp, "syndrome": v, "lighter": lighter}, f"answer {ans}")
                    return
            elif r == "unsat":
                rep.proved("minimum weight")
        s.pop()


def lut(name, how):
    def f(rep):
        from mqt.qecc.ft_stateprep import LutDecoder

        c = code(name)
        hx, hz = rows(c.Hx), rows(c.Hz)

        def make():
            d = LutDecoder(c, init_luts=how == "init")
            if how == "z first":
                d.generate_z_lut()
                d.generate_x_lut()
            elif how == "x first":
                d.generate_x_lut()
                d.generate_z_lut()
            elif how == "used z first":
                d.decode_z(np.zeros(len(hx), dtype=np.int8))
            elif how == "used x first":
                d.decode_x(np.zeros(len(hz), dtype=np.int8))
            return d

        d = make()
        for typ, h in (("x", hz), ("z", hx)) if "z first" not in how else (("z", hx), ("x", hz)):
            one = d.decode_x if typ == "x" else d.decode_z
            many = d.batch_decode_x if typ == "x" else d.batch_decode_z
            inp = {"code": name, "tables": how, "type": typ}
            table(rep, h, lambda v: one(np.array(v, dtype=np.int8)), inp)
            # batches and wider integer types give the same answers
            vs = [tuple(sum(r[j] for j in ((k * 5) % c.n, (k * 3 + 1) % c.n)) & 1 for r in h) for k in range(6)]
            for dt in (np.int8, np.int64):
                got = many(np.array(vs, dtype=dt))
                ok = len(got) == len(vs) and all([int(b) for b in g] == [int(b) for b in one(np.array(v, dtype=np.int8))] for g, v in zip(got, vs))
                if ok:
                    rep.trivial("batch")
                else:
                    rep.violation("batch decoding agrees with single decoding", {**inp, "dtype": str(dt)})
        rep.sample({"code": name, "tables": how, "x entries": len(d.x_lut), "z entries": len(d.z_lut)})

    return f


def harnesses(tier):
    th = tier == "thorough"
    out = []
    names = ["steane", "steane_mixed", "shor", "surface3", "422", "redundant", "asym", "hex3", "sqoct3", "carbon"]
    if th:
        names += ["tetrahedral", "hamming"]
    for nm in names:
        for how in ("init", "x first", "z first", "used x first", "used z first"):
            if nm in ("carbon", "tetrahedral", "hamming") and how not in ("init", "used z first"):
                continue
            out.append(Harness(f"{nm} {how}", lut(nm, how), kind="direct", functions=FN, must_reach=["minimum weight", "batch"], bounds="every syndrome, every competing correction"))
    return out
