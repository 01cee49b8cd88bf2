"""C27: colour-code simulation results reflect the samples."""
from __future__ import annotations

import json
import os
import shutil
import sys
import tempfile
from pathlib import Path
from types import SimpleNamespace

import numpy as np

import gf2
import symx
from mqt.qecc.cc_decoder import cli as cmd
from mqt.qecc.cc_decoder import decoder as dec
from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode
from runner import Harness
from symx import NumpyProxy, R, S, patch, s_and, s_iff, s_implies, s_or

ASSUMPTIONS = [
    "the random generator is replaced by arbitrary (symbolic) error bits; its arguments are checked to be independent bits of the given rate",
    "the MaxSAT decoder is replaced by an arbitrary answer (its own guarantee is C07); the syndrome handed to it is checked",
]
OUTSIDE = ["external MaxSAT solvers (their output is not read)", "more samples than listed"]
FN = ["simulate_error_rate", "run", "ColorCode.get_syndrome"]
CODES = {"hex3": lambda: HexagonalColorCode(3), "sqoct3": lambda: SquareOctagonColorCode(3), "hex5": lambda: HexagonalColorCode(5)}


def eq(a, c):
    if isinstance(a, (R, S)) or isinstance(c, (R, S)):
        return R.of(a) == R.of(c)
    return abs(float(a) - float(c)) < 1e-9


class Rng:
    """numpy generator: every way of drawing i.i.d. bits of a rate is answered with the prepared symbolic error."""

    def __init__(self, ctx, errors, p):
        self.ctx, self.errors, self.p, self.k = ctx, errors, p, 0

    def _next(self, size, ok):
        n = int(np.prod(size)) if size is not None else 1
        self.ctx.check(self.k < len(self.errors), "one error per sample", self.k)
        e = self.errors[self.k]
        self.k += 1
        self.ctx.check(n == len(e), "one bit per qubit", n)
        self.ctx.check(ok, "errors are drawn with the given rate")
        return e

    def choice(self, a, size=None, replace=True, p=None):
        v = list(range(a)) if isinstance(a, int) else [int(x) for x in a]
        self.ctx.check(len(p) == len(v) == 2 and sorted(v) == [0, 1] and replace, "errors are drawn with the given rate", (v, p))
        return self._next(size, s_and(symx.truth(eq(p[v.index(1)], self.p)), symx.truth(eq(p[v.index(0)], 1 - self.p))))

    def binomial(self, n, p, size=None):
        self.ctx.check(n == 1, "errors are drawn with the given rate")
        return self._next(size, eq(p, self.p))

    def random(self, size=None):
        """uniform numbers u with (u < p) = error bit"""
        e = self._next(size, True)
        if not self.ctx.symbolic:
            return np.array([self.p / 2 if x else (1 + self.p) / 2 for x in e])
        out = []
        for i, x in enumerate(e):
            u = self.ctx.real(f"u{self.k}_{i}", 0, 1, strict_hi=True)
            self.ctx.assume(s_iff(x, u < self.p))
            out.append(u)
        return symx.symarray(out)


def sim(name, runs, empty=False):
    def h(ctx):
        code = CODES[name]()
        n = code.n
        p = ctx.real("p", 0, 1) if ctx.symbolic else ctx.real("p")
        errs = [ctx.bits(f"e{i}_", n) for i in range(runs)]
        ests = [ctx.bits(f"d{i}_", n) for i in range(runs)]
        keep = [[x for x in e] for e in errs]
        times = [(ctx.real(f"tc{i}", 0, 1000), ctx.real(f"ts{i}", 0, 1000)) for i in range(runs)]
        asked = []

        def solve(self, lights, solver_path="z3"):
            k = len(asked)
            asked.append((list(lights), solver_path))
            return ([] if empty else list(ests[k])), times[k][0], times[k][1]

        rng = Rng(ctx, errs, p)
        rm = SimpleNamespace(default_rng=lambda *a: rng, choice=rng.choice, binomial=rng.binomial, random=rng.random, rand=lambda *s: rng.random(s))
        tr = [(dec.LightsOut, "solve", solve), (dec, "np", NumpyProxy(random=rm)) if ctx.symbolic else (np.random, "default_rng", rm.default_rng)]
        if ctx.symbolic:
            tr += [(dec, "bool", lambda x: x if isinstance(x, S) else bool(x)), (dec, "int", lambda x: x if isinstance(x, S) else int(x))]
        undo = patch(*tr)()
        try:
            out = dec.simulate_error_rate(code, p, runs, "z3")
        finally:
            undo()
        ctx.check(len(asked) == runs, "one decoding per sample", len(asked))
        H, Lo = [[int(x) for x in r] for r in code.H], [[int(x) for x in r] for r in code.L]
        res = []
        for k in range(runs):
            lights, path = asked[k]
            ctx.check(len(lights) == len(H) and path == "z3", "the syndrome has one bit per check")
            for r, b in zip(H, lights):
                ctx.check(s_iff(S.of(gf2.dot(r, keep[k])), b if isinstance(b, S) else int(bool(b))), "the decoder gets the syndrome of the sampled error")
            res.append([(S.of(a) + S.of(d)) % 2 for a, d in zip(keep[k], ests[k])])
        ctx.check(len(out["logical_error_rates"]) == len(Lo) == len(out["min_wts_logical_err"]), "one entry per logical")
        for j, l in enumerate(Lo):
            fail = [S(0) if empty else S.of(gf2.dot(l, r)) for r in res]
            cnt = sum(fail, S(0))
            rate = out["logical_error_rates"][j]
            ctx.check(eq(rate * runs, cnt) if isinstance(rate, (R, S)) else S.of(round(float(rate) * runs)) == cnt, "rate is the fraction of samples with a logical error")
            eb = out["logical_error_rate_ebs"][j]
            if isinstance(eb, (R, S)):
                ctx.check(eq(eb, R.of((1 - rate) * rate / runs).sqrt()), "error bar")
            else:
                ctx.check(eq(eb, np.sqrt((1 - rate) * rate / runs)), "error bar")
            mw = S.of(out["min_wts_logical_err"][j])
            wts = [sum(r, S(0)) for r in res]
            ctx.check(s_implies(cnt == 0, mw == -1), "no logical error: no weight")
            ctx.check(s_implies(cnt >= 1, s_or(*[s_and(f, w == mw) for f, w in zip(fail, wts)])), "the minimum weight is the weight of a logical residual")
            for f, w in zip(fail, wts):
                ctx.check(s_implies(f, mw <= w), "no logical residual is lighter than the minimum weight")
        tc, ts = sum((t[0] for t in times), 0 * p), sum((t[1] for t in times), 0 * p)
        for key, want in (("avg_constr_time", tc), ("avg_solve_time", ts), ("avg_total_time", tc + ts)):
            got = out[key]
            ctx.check(eq(got * runs, want) if ctx.symbolic else abs(float(got) * runs - want) < 1e-6, "average times per sample")
        ctx.check(eq(out["p"], p), "parameters are reported")
        ctx.check(out["distance"] == code.distance and out["lattice"] == code.lattice_type, "parameters are reported")
        ctx.count("simulated")

    return h


def stored(lattice, d):
    """run() simulates the named code with the given parameters and stores what the simulation returned."""

    def h(ctx):
        runs = ctx.choice("runs", [3, 7])
        p = ctx.choice("p", [0.125, 0.0001])
        solver = ctx.choice("solver", ["z3", "/opt/solvers/open-wbo"])
        calls, tmp, cwd = [], Path(tempfile.mkdtemp(prefix="c27_")), os.getcwd()

        def fake(code, error_rate, nr_sims, solver_path="z3"):
            calls.append((code, error_rate, nr_sims, solver_path))
            return {"marker": [error_rate, nr_sims, solver_path]}

        undo = patch((dec, "simulate_error_rate", fake))()
        try:
            os.chdir(tmp)
            dec.run(lattice, d, p, runs, str(tmp / "out" / "deep"), solver)
            fs = [f for f in tmp.rglob("*") if f.is_file()]
            ctx.check(len(fs) == 1 and fs[0].parent == tmp / "out" / "deep", "one result file in the results folder", [str(f) for f in fs])
            ctx.check(json.loads(fs[0].read_text()) == {"marker": [p, runs, solver]}, "stored data is the simulation's data")
        finally:
            undo()
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)
        c, e, r, s = calls[0]
        ctx.check(len(calls) == 1 and (e, r, s) == (p, runs, solver), "parameters are passed on")
        want = HexagonalColorCode if lattice == "hexagon" else SquareOctagonColorCode
        ctx.check(isinstance(c, want) and c.distance == d, "the requested code is simulated")

    return h


OTHER = {"lattice": ("square_octagon", "hexagon"), "distance": (3, 5), "rate": (0.05, 0.0501), "solver": ("z3", "/opt/z4")}


def apart(ctx):
    """experiments that differ in one parameter do not overwrite each other's stored results"""
    key = ctx.choice("differs", list(OTHER))
    swap = ctx.choice("swap", [False, True])
    tmp, n = Path(tempfile.mkdtemp(prefix="c27_")), []
    undo = patch((dec, "simulate_error_rate", lambda code, e, r, s="z3": n.append(1) or {"marker": len(n)}))()
    try:
        for j in (0, 1):
            a = {k: v[(j if not swap else 1 - j) if k == key else 0] for k, v in OTHER.items()}
            dec.run(a["lattice"], a["distance"], a["rate"], 10, str(tmp), a["solver"])
        got = sorted(json.loads(f.read_text())["marker"] for f in tmp.rglob("*.json"))
        ctx.check(got == [1, 2], "both results are kept", (key, got))
    finally:
        undo()
        shutil.rmtree(tmp, ignore_errors=True)


def command(ctx):
    """the command line runs the requested decoder with the given parameters"""
    which = ctx.choice("decoder", [None, "maxsat", "tn", "other"])
    given = {k: ctx.choice(k, [None, v]) for k, v in {"type": "square_octagon", "nr_sims": "77", "results_dir": "some/dir", "solver": "/opt/wbo"}.items()}
    d, p = ctx.choice("d", ["3", "7"]), "0.0625"
    argv = ["cc", d, p]
    for k, v in {**given, "decoder": which}.items():
        argv += ["--" + k, v] if v else []
    calls = []

    def maxsat(lattice_type, distance, error_rate, nr_sims=10000, results_dir="?", solver="z3"):
        calls.append(("maxsat", lattice_type, distance, error_rate, nr_sims, results_dir, solver))

    def tn(distance, error_rate, nr_sims=10000, results_dir="?"):
        calls.append(("tn", distance, error_rate, nr_sims, results_dir))

    undo = patch((dec, "run", maxsat), (cmd.tn_decoder, "run", tn), (sys, "argv", argv))()
    try:
        cmd.cli()
        err = None
    except ValueError as e:
        err = e
    finally:
        undo()
    runs, out = int(given["nr_sims"] or 10000), given["results_dir"] or "./results"
    if which == "other":
        ctx.check(err is not None and not calls, "an unknown decoder is rejected")
    elif which == "tn":
        ctx.check(calls == [("tn", int(d), 0.0625, runs, out)], "the requested simulation is run", calls)
    else:
        ctx.check(calls == [("maxsat", given["type"] or "hexagon", int(d), 0.0625, runs, out, given["solver"] or "z3")], "the requested simulation is run", calls)


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    for nm, runs in [("hex3", 1), ("hex3", 2), ("hex3", 3), ("sqoct3", 2), ("hex5", 1)] + ([("hex3", 4)] if big else []):
        hs.append(Harness(f"{nm} samples={runs}", sim(nm, runs), bounds=f"{runs} samples: all errors, all decoder answers, all rates", functions=FN, fallback=False, must_reach=["simulated"], seconds=600))
    hs.append(Harness("no answers", sim("hex3", 2, True), bounds="2 samples without decoder answers", functions=FN, fallback=False))
    for lt in ("hexagon", "square_octagon"):
        hs.append(Harness(f"run {lt}", stored(lt, 3), bounds="2 sample counts, 2 rates, 2 solvers", functions=FN))
    hs.append(Harness("apart", apart, bounds="pairs of experiments differing in one of 4 parameters", functions=["run"]))
    hs.append(Harness("command line", command, bounds="all combinations of given and omitted options, 3 decoders", functions=["cli"]))
    return hs
