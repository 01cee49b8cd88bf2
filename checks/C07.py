"""C07: the MaxSAT decoder returns a minimum-weight correction, independent of its history."""
from __future__ import annotations

import itertools
import re
from contextlib import contextmanager

import numpy as np
import z3

import gf2
import mqt.qecc.cc_decoder.decoder as M
import mqt.qecc.codes as Q
import symx
from mqt.qecc.cc_decoder.decoder import LightsOut
from runner import Harness
from symx import S, s_and, s_not

ASSUMPTIONS = [
    "z3.Optimize (third party) returns an optimum of the hard and soft constraints it is given; the constraints themselves are captured from the real code and decided",
    "push/pop of z3.Optimize restore the constraint set (scope semantics of the z3 API)",
]
OUTSIDE = ["external solvers given by solver_path (the decoder does not read their answer)", "colour codes with distance > 7"]
FN = ["LightsOut.preconstruct_z3_instance", "LightsOut.preconstruct_parity_constraint", "LightsOut.complete_parity_constraint", "LightsOut.solve", "LightsOut.validate_model"]


class Captured(BaseException):
    pass


class SymBool(z3.BoolRef):
    """A z3 Boolean whose truth value is decided by the path solver."""

    def __bool__(self):
        c = symx.cur()
        if c is None:
            return z3.BoolRef.__bool__(self)
        return c.fork(z3.BoolRef(self.ast, self.ctx))

    __hash__ = z3.BoolRef.__hash__

    def __invert__(self):
        return sb(z3.Not(self))


def sb(e):
    return SymBool(e.as_ast(), e.ctx)


class Model:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, v):
        return self.f(v)

    def eval(self, v, model_completion=False):
        return self.f(v)

    evaluate = eval


class Recorder:
    """Stands in for z3.Optimize: keeps the constraint stack, answers check() with an arbitrary symbolic model."""

    def __init__(self, on_check):
        self.frames = [([], [])]
        self.on_check = on_check
        self.n = 0
        self._m = None

    def add(self, *a):
        for x in a:
            self.frames[-1][0].extend(x if isinstance(x, (list, tuple, z3.AstVector)) else [x])

    assert_exprs = add

    def __iadd__(self, x):
        self.add(x)
        return self

    def add_soft(self, e, weight="1", id=None):
        for x in e if isinstance(e, (list, tuple)) else [e]:
            self.frames[-1][1].append((x, weight))

    def minimize(self, e):
        self.frames[-1][1].append(("min", e))

    def maximize(self, e):
        self.frames[-1][1].append(("min", -e))

    def set(self, *a, **k):
        pass

    def push(self):
        self.frames.append(([], []))

    def pop(self):
        self.frames.pop()

    def hard(self):
        return [z3.BoolVal(x) if isinstance(x, bool) else x for f in self.frames for x in f[0]]

    def soft(self):
        return [x for f in self.frames for x in f[1]]

    def check(self, *a):
        self.n += 1
        self._m = self.on_check(self, self.n)
        return z3.sat

    def model(self):
        return self._m


@contextmanager
def recorder(on_check):
    old = M.Optimize
    M.Optimize = lambda *a, **k: Recorder(on_check)
    try:
        yield
    finally:
        M.Optimize = old


def make(code):
    p = LightsOut(code.faces_to_qubits, code.qubits_to_faces)
    return p


def prepared(code, on_check):
    p = make(code)
    if not isinstance(p.optimizer, Recorder):
        p.optimizer = Recorder(on_check)
    p.preconstruct_z3_instance()
    return p


def consts(es):
    out, seen = {}, set()

    def go(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[e.decl().name()] = e
        for c in e.children():
            go(c)

    for e in es:
        go(e)
    return out


def linear(e):
    """Boolean expression -> (set of variable names, constant) when it is a parity; None otherwise."""
    if z3.is_true(e):
        return frozenset(), 1
    if z3.is_false(e):
        return frozenset(), 0
    if z3.is_const(e):
        return frozenset([e.decl().name()]), 0
    k = e.decl().kind()
    if k == z3.Z3_OP_NOT:
        r = linear(e.arg(0))
        return r and (r[0], 1 - r[1])
    if k in (z3.Z3_OP_XOR, z3.Z3_OP_EQ, z3.Z3_OP_IFF) or (k == z3.Z3_OP_DISTINCT and e.num_args() == 2):
        v, c = frozenset(), 0
        for a in e.children():
            if not z3.is_bool(a):
                return None
            r = linear(a)
            if r is None:
                return None
            v, c = v ^ r[0], c ^ r[1]
        return (v, c ^ 1) if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) else (v, c)
    return None


def flatten(es):
    for e in es:
        if z3.is_and(e):
            yield from flatten(e.children())
        else:
            yield e


def project(hard, keep):
    """Eliminate every variable outside keep from a parity system; None when it is not one."""
    eqs = []
    for e in flatten(hard):
        r = linear(e)
        if r is None:
            return None
        eqs.append((set(r[0]), r[1] ^ 1))  # xor(vars) == rhs ; constraint is true: xor ^ const = 1
    aux = sorted({v for e in eqs for v in e[0]} - keep)
    for a in aux:
        p = next((e for e in eqs if a in e[0]), None)
        if p is None:
            continue
        eqs.remove(p)
        eqs = [((e[0] ^ p[0]), e[1] ^ p[1]) if a in e[0] else e for e in eqs]
    return eqs


def real_answer(code, seq):
    """Replay: the real decoder with the real z3 on a sequence of syndromes; returns problem found with the last answer or None."""
    p = make(code)
    p.preconstruct_z3_instance()
    H = [[int(x) for x in r] for r in np.asarray(code.H)]
    for i, lights in enumerate(seq):
        try:
            sw = p.solve([bool(b) for b in lights])[0]
        except Exception as e:  # noqa: BLE001
            return f"decoding syndrome number {i + 1} raised {type(e).__name__}: {e}"
        if gf2.matvec(H, sw) != [int(b) for b in lights]:
            return f"answer {sw} does not reproduce syndrome {lights} (call number {i + 1})"
        s = z3.SolverFor("QF_FD")
        e = [z3.Bool(f"r{j}") for j in range(code.n)]
        import dist

        for j, r in enumerate(H):
            dist.xor_chain(s, [e[q] for q in range(code.n) if r[q]], int(lights[j]), f"t{j}")
        if sum(sw) > 0:
            s.add(z3.PbLe([(x, 1) for x in e], int(sum(sw)) - 1))
            if s.check() == z3.sat:
                m = s.model()
                return f"answer {sw} for {lights} (call number {i + 1}) is not of minimum weight: {[int(z3.is_true(m.eval(x))) for x in e]}"
    return None


def heavy(H):
    """a lightest correction of a syndrome that needs the most qubits"""
    n = len(H[0])
    col = [sum(H[i][q] << i for i in range(len(H))) for q in range(n)]
    seen, layer = {0: ()}, [0]
    while layer:
        nxt = []
        for s in layer:
            for q in range(n):
                t = s ^ col[q]
                if t not in seen:
                    seen[t] = seen[s] + (q,)
                    nxt.append(t)
        last, layer = layer, nxt
    return seen[last[-1]]


def system(kind, d, hist):
    """The constraints handed to the optimizer are exactly 'the switches produce the lights', the objective is the weight."""

    def f(rep):
        code = Q.HexagonalColorCode(d) if kind == "hex" else Q.SquareOctagonColorCode(d)
        n, m = code.n, len(code.H)
        H = [[int(x) for x in r] for r in np.asarray(code.H)]
        lights = [z3.Bool(f"light!{i}") for i in range(m)]
        got = {}

        def on_check(rec, k):
            if k <= len(seq):
                return Model(lambda v: z3.BoolVal(bool(errs[k - 1][order[v.decl().name()]])) if v.decl().name() in order else z3.BoolVal(False))
            got["hard"], got["soft"] = rec.hard(), rec.soft()
            raise Captured

        # previously decoded: single-qubit errors, or sets of qubits; "heavy" is an error that needs the heaviest correction
        errs = [[int(i in (heavy(H) if j == "heavy" else j if isinstance(j, tuple) else (j,))) for i in range(n)] for j in hist]
        seq = [gf2.matvec(H, e) for e in errs]
        p = prepared(code, on_check)
        sw = list(p.switch_vars)
        order = {v.decl().name(): i for i, v in enumerate(sw)}
        try:
            for s in seq:
                p.solve([bool(b) for b in s])
            p.solve(list(lights))
        except Captured:
            pass
        if not got:
            rep.truncated("the decoder did not consult its optimizer")
            return
        hard, soft = got["hard"], got["soft"]
        keep = {v.decl().name() for v in sw} | {v.decl().name() for v in lights}
        spec = [z3.Xor(lights[i], _xor([sw[q] for q in range(n) if H[i][q]])) == z3.BoolVal(False) for i in range(m)]

        def report(label, model):
            val = [int(z3.is_true(model.eval(x, model_completion=True))) for x in lights]
            info = real_answer(code, seq + [val])
            if info:
                rep.violation(label, {"lattice": kind, "distance": d, "decoded before": seq, "syndrome": val}, info)
            else:
                # search: any syndrome the real decoder gets wrong among solver-proposed ones
                s2 = z3.Solver()
                s2.add(z3.And(*hard), z3.Not(z3.And(*spec)))
                rep.notes.append(f"{label}: candidate {val} did not reproduce on the real decoder")

        # 1) hard => the switches reproduce the lights
        s = z3.Solver()
        s.set("timeout", 300000)
        eqs = project(hard, keep)
        if eqs is not None:
            var = {v.decl().name(): v for v in sw + lights}
            proj = z3.And(*[_xor([var[x] for x in sorted(e[0])]) == z3.BoolVal(bool(e[1])) for e in eqs]) if eqs else z3.BoolVal(True)
            s.add(proj, z3.Not(z3.And(*spec)))
        else:
            proj = None
            s.add(*hard)
            s.add(z3.Not(z3.And(*spec)))
        r = rep.solve(s, what="hard constraints imply the parity equations")
        if r == "sat":
            report("every admitted correction reproduces the syndrome", s.model())
        elif r == "unsat":
            rep.proved("sound")
        # 2) every correction that reproduces the lights is admitted
        s = z3.Solver()
        s.set("timeout", 300000)
        s.add(*spec)
        if proj is not None:
            s.add(z3.Not(proj))
        else:
            aux = [v for k, v in consts(hard).items() if k not in keep]
            s.add(z3.ForAll(aux, z3.Not(z3.And(*hard))) if aux else z3.Not(z3.And(*hard)))
        r = rep.solve(s, what="every correction is admitted")
        if r == "sat":
            mod = s.model()
            # prefer a light correction that is excluded: that one makes the answer too heavy or impossible
            for w in range(n + 1):
                s.push()
                s.add(z3.PbLe([(x, 1) for x in sw], w))
                if rep.solve(s, what="lightest excluded correction") == "sat":
                    mod = s.model()
                    break
                s.pop()
            report("every correction of the syndrome is admitted", mod)
        elif r == "unsat":
            rep.proved("complete")
        # 3) the objective orders corrections by weight
        cost = []
        for e, w in soft:
            if isinstance(e, str) and e == "min":
                cost.append(z3.ToReal(w) if z3.is_int(w) else w)
            else:
                cost.append(z3.If(e, z3.RealVal(0), z3.RealVal(str(w) if w is not None else "1")))
        total = z3.Sum(*cost) if cost else z3.RealVal(0)
        alt = [z3.Bool(f"alt!{i}") for i in range(n)]
        total2 = z3.substitute(total, *[(a, b) for a, b in zip(sw, alt)])
        # quick structural route: cost = c * weight + const, decided per switch
        diff = []
        s = z3.Solver()
        s.set("timeout", 300000)
        base = [z3.substitute(total, *[(v, z3.BoolVal(i == j)) for i, v in enumerate(sw)]) for j in range(n)]
        zero = z3.substitute(total, *[(v, z3.BoolVal(False)) for v in sw])
        c = z3.simplify(base[0] - zero)
        if z3.is_rational_value(c) and c.as_fraction() > 0:
            cnt = z3.Sum(*[z3.If(v, z3.RealVal(1), z3.RealVal(0)) for v in sw])
            lin = z3.simplify(total - zero - c * cnt, som=True)
            s.add(lin != 0)
            r = rep.solve(s, what="objective is the weight")
            if r == "unsat":
                rep.proved("objective")
                return
        # otherwise: two corrections of the same syndrome, the heavier one preferred (or tied)
        w1, w2 = z3.Sum(*[z3.If(v, 1, 0) for v in sw]), z3.Sum(*[z3.If(v, 1, 0) for v in alt])
        s = z3.Solver()
        s.set("timeout", 300000)
        s.add(*spec)
        s.add(*[z3.substitute(x, *[(a, b) for a, b in zip(sw, alt)]) for x in spec])
        s.add(w1 < w2, total >= total2)
        r = rep.solve(s, what="objective prefers lighter corrections")
        if r == "unsat":
            rep.proved("objective")
            return
        for _ in range(200):
            if r != "sat":
                break
            mod = s.model()
            val = [int(z3.is_true(mod.eval(x, model_completion=True))) for x in lights]
            info = real_answer(code, seq + [val])
            if info:
                rep.violation("the objective prefers lighter corrections", {"lattice": kind, "distance": d, "decoded before": seq, "syndrome": val}, info)
                return
            s.add(z3.Or(*[x != bool(v) for x, v in zip(lights, val)]))
            r = rep.solve(s, what="objective prefers lighter corrections")
        if r == "unsat":
            # every syndrome with a misordered pair is still answered correctly by the real decoder
            rep.notes.append("objective is not the weight, but no syndrome is answered wrongly")

    return f


def _xor(vs):
    if not vs:
        return z3.BoolVal(False)
    r = vs[0]
    for v in vs[1:]:
        r = z3.Xor(r, v)
    return r


def answer(kind, d, maxw, ncalls):
    """solve() returns exactly the model of the optimizer, for every syndrome and every admissible model (up to a weight)."""

    def h(ctx):
        code = Q.HexagonalColorCode(d) if kind == "hex" else Q.SquareOctagonColorCode(d)
        n, m = code.n, len(code.H)
        H = [[int(x) for x in r] for r in np.asarray(code.H)]
        if not ctx.symbolic or ctx.ex.fork_first:
            seq = [[ctx.bit(f"l{k}_{i}") for i in range(m)] for k in range(ncalls)]
            info = real_answer(code, seq)
            ctx.check(info is None, "answer reproduces the syndrome with minimum weight", info)
            return
        L = [[ctx.bit(f"l{k}_{i}") for i in range(m)] for k in range(ncalls)]
        state = {}

        def on_check(rec, k):
            # an arbitrary model of the current hard constraints
            hard = rec.hard()
            ren = [(v, z3.Bool(f"{nm}!m{k}")) for nm, v in consts(hard).items() if not re.fullmatch(r"l\d+_\d+", nm)]
            swr = {v.decl().name(): z3.Bool(f"{v.decl().name()}!m{k}") for v in p.switch_vars}
            for e in hard:
                ctx.assume(S.from_bool(z3.substitute(e, *ren)) if ren else S.from_bool(e))
            ctx.solver.add(z3.PbLe([(x, 1) for x in swr.values()], maxw))
            # optimality of the model is the business of the 'system' harness; here any model may be returned
            return Model(lambda v: sb(swr.get(v.decl().name(), z3.Bool(f"{v.decl().name()}!m{k}"))))

        p = prepared(code, on_check)
        for k in range(ncalls):
            lights = [sb(S.of(b).z()) for b in L[k]]
            sw = p.solve(list(lights))[0]
            sw = [int(x) for x in sw]
            ctx.check(len(sw) == n, "one entry per qubit")
            for i in range(m):
                ctx.check(S.of(L[k][i]) == gf2.dot(H[i], sw), "answer reproduces the syndrome", k)
            for v, x in zip(p.switch_vars, sw):
                b = z3.Bool(f"{v.decl().name()}!m{k + 1}")
                ctx.check(S.from_bool(b) == x, "the answer is the optimizer's model", k)
            ctx.count("answers")

    return h


def harnesses(tier):
    th = tier == "thorough"
    out = []
    for kind in ("hex", "sqoct"):
        for d in (3, 5, 7):
            for hist in ([], [0], [0, 1], [2, 2, 3], [()], ["heavy"] if d < 7 else [(0, 11, 19)], [(), 1, (0, 5)]):
                if d == 7 and len(hist) > 1 and not th:
                    continue
                out.append(Harness(f"constraints {kind}{d} after {hist}", system(kind, d, hist), kind="direct", seconds=400, functions=FN, must_reach=["sound", "complete", "objective"],
                                   bounds=f"all syndromes of the distance-{d} code, after decoding {len(hist)} other errors"))
        out.append(Harness(f"answer {kind}3", answer(kind, 3, 7, 1), functions=FN, bounds="all syndromes, all models", must_reach=["answers"], seconds=300))
        out.append(Harness(f"two answers {kind}3", answer(kind, 3, 2 if not th else 3, 2), functions=FN, bounds=f"all pairs of syndromes, all models of weight <= {2 if not th else 3}", must_reach=["answers"], seconds=300 if not th else 700, paths=100000))
        out.append(Harness(f"answer {kind}5", answer(kind, 5, 2 if not th else 3, 1), functions=FN, bounds=f"all syndromes, all models of weight <= {2 if not th else 3}", must_reach=["answers"], seconds=300 if not th else 700, paths=100000))
    return out
