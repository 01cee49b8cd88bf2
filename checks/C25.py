"""C25: merging result files pools the data: totals, rates of the totals, order/grouping independence, inputs untouched."""
from __future__ import annotations

import itertools
import json as real_json
import os
import shutil
import tempfile
from pathlib import Path
from types import SimpleNamespace

import numpy as np
import z3

import symx
from mqt.qecc.analog_information_decoding.utils import data_utils as du
from runner import Harness
from symx import NumpyProxy, R, S, patch, s_and, s_iff

ASSUMPTIONS = [
    "counts are real numbers in the stated range (integrality is not used), arithmetic is real instead of floating point",
    "sqrt and fractional powers: uninterpreted for the pooling harnesses, defined by their polynomial equations (y >= 0, y^K = b) for the rate formulas",
    "JSON files hold handles of symbolic numbers in symbolic runs and plain numbers in replays",
]
OUTSIDE = ["create_outpath naming", "files that lack nr_runs or code_K", "merge_datasets on files that lack one of the two counts"]
FN = ["merge_datasets", "_merge_datasets_x", "_merge_datasets_z", "_combine_xz_data", "_update_error_rates", "calculate_error_rates", "merge_json_files", "merge_json_files_x",
      "merge_json_files_z", "merge_json_files_xz", "load_data", "is_converged", "_check_convergence"]
RATES = ("ler", "ler_eb", "wer", "wer_eb")


def eq(a, c, tol=1e-9):
    if isinstance(a, (R, S)) or isinstance(c, (R, S)):
        a, c = R.of(a), R.of(c)
        return S(1) if a.e.eq(c.e) else a == c
    a, c = float(a), float(c)
    return (np.isnan(a) and np.isnan(c)) or abs(a - c) <= tol * max(1.0, abs(c))


def setup():
    return patch((du, "np", NumpyProxy()))()


def dataset(ctx, i, k, x=True, z=True, hi=1000):
    """One result file: symbolic totals; the stored rates are arbitrary numbers (they must be recomputed)."""
    runs = ctx.real(f"runs{i}", 1, hi)
    d = {"code_K": k, "code_N": 7, "nr_runs": runs, "pers": 0.125, "name": f"set{i}"}
    for t, use in (("x", x), ("z", z)):
        if use:
            s = ctx.real(f"{t}s{i}", 0, hi)
            ctx.assume(s <= runs)
            d[f"{t}_success_cnt"] = s
            for r in RATES:
                d[f"{t}_{r}"] = 0.5
    return d


def snap(ds):
    return [dict(d) for d in ds]


def same(ds, old):
    return len(ds) == len(old) and all(list(d) == list(o) and all(d[k] is o[k] for k in d) for d, o in zip(ds, old))


def expect(ctx, out, ds, types, runs_key, k):
    """out carries the pooled totals of ds for each error type and the rates of these totals."""
    for t in types:
        use = [d for d in ds if f"{t}_success_cnt" in d]
        runs = sum((d["nr_runs"] for d in use[1:]), use[0]["nr_runs"])
        suc = sum((d[f"{t}_success_cnt"] for d in use[1:]), use[0][f"{t}_success_cnt"])
        for rk in [runs_key[t]] if isinstance(runs_key, dict) else [runs_key]:
            ctx.check(rk in out and truth(eq(out[rk], runs)), f"{t} runs are the sum over the merged files", rk)
        ctx.check(eq(out[f"{t}_success_cnt"], suc), f"{t} successes are the sum over the merged files")
        want = du.calculate_error_rates(out[f"{t}_success_cnt"], out[runs_key[t] if isinstance(runs_key, dict) else runs_key], {"k": k})
        for r, w in zip(RATES, want):
            ctx.check(eq(out[f"{t}_{r}"], w), f"{t}_{r} is the rate of the totals")


def truth(x):
    return symx.truth(x)


def pooled(n, k, kind):
    fn = {"both": "merge_datasets", "x": "_merge_datasets_x", "z": "_merge_datasets_z"}[kind]
    types = {"both": "xz", "x": "x", "z": "z"}[kind]

    def h(ctx):
        f = getattr(du, fn)
        ds = []
        for i in range(n):
            x = kind != "x" or i == n - 1 or bool(ctx.bit(f"hasx{i}"))
            z = kind != "z" or i == n - 1 or bool(ctx.bit(f"hasz{i}"))
            ds.append(dataset(ctx, i, k, x, z))
        perm = ctx.choice("order", list(itertools.permutations(range(n))))
        ds = [ds[i] for i in perm]
        old = snap(ds)
        out = f(ds)
        ctx.check(same(ds, old), "inputs are not modified")
        expect(ctx, out, ds, types, "nr_runs", k)
        ctx.check(out["code_K"] == k and out["pers"] == 0.125, "the settings are kept")
        # grouping: merging partial merges gives the same data
        cut = ctx.choice("cut", list(range(1, n)))
        parts = [p for p in (f(ds[:cut]), f(ds[cut:])) if p]
        again = f(parts)
        keys = ["nr_runs"] + [f"{t}_success_cnt" for t in types] + [f"{t}_{r}" for t in types for r in RATES]
        for key in keys[: 1 + len(types)]:
            ctx.check(eq(again[key], out[key]), "merging in groups gives the same totals", key)
        expect(ctx, again, ds, types, "nr_runs", k)
        ctx.check(f([]) == {}, "nothing merges to nothing")

    return h


def combine(n, k):
    """X data from some files, Z data from others, both from the rest."""

    def h(ctx):
        ds = []
        for i in range(n):
            x = bool(ctx.bit(f"hasx{i}"))
            z = bool(ctx.bit(f"hasz{i}")) if x else True
            ds.append(dataset(ctx, i, k, x, z))
        old = snap(ds)
        xd, zd = du._merge_datasets_x(ds), du._merge_datasets_z(ds)
        xo, zo = dict(xd), dict(zd)
        out = du._combine_xz_data(xd, zd)
        ctx.check(same(ds, old), "inputs are not modified")
        types = [t for t in "xz" if any(f"{t}_success_cnt" in d for d in ds)]
        expect(ctx, out, ds, types, {"x": "x_runs", "z": "z_runs"}, k)
        for t in "xz":
            if t not in types:
                ctx.check(f"{t}_success_cnt" not in out, "no data is invented")
        ctx.check(out["code_K"] == k, "the settings are kept")
        ctx.check(bool(xo) == any(f"x_success_cnt" in d for d in ds) and bool(zo) == any("z_success_cnt" in d for d in ds), "only files with the data take part")

    return h


class Json:
    """json with handles for symbolic numbers."""

    def __init__(self):
        self.vals = []
        self.decoder = real_json.decoder
        self.JSONDecodeError = real_json.JSONDecodeError

    def _def(self, o):
        if isinstance(o, (R, S)):
            self.vals.append(o)
            return {"@sym": len(self.vals) - 1}
        if isinstance(o, np.generic):
            return o.item()
        raise TypeError(type(o))

    def _hook(self, d):
        return self.vals[d["@sym"]] if "@sym" in d else d

    def dump(self, obj, fp, **kw):
        real_json.dump(obj, fp, default=self._def, **{k: v for k, v in kw.items() if k != "default"})

    def dumps(self, obj, **kw):
        return real_json.dumps(obj, default=self._def, **{k: v for k, v in kw.items() if k != "default"})

    def load(self, fp, **kw):
        return real_json.load(fp, object_hook=self._hook, **kw)

    def loads(self, s, **kw):
        return real_json.loads(s, object_hook=self._hook, **kw)


def files(kind, style, via_load):
    """Two settings (sub-folders) with two result files each, one of them with a broken file beside, merged through the file interface."""
    types = {"": "xz", "_x": "x", "_z": "z", "_xz": "xz"}[kind]

    def h(ctx):
        js = Json() if ctx.symbolic else real_json
        undo = patch((du, "json", js))()
        cwd = os.getcwd()
        tmp = Path(tempfile.mkdtemp(prefix="c25_"))
        try:
            os.chdir(tmp)
            sets = {}
            root = Path("res") / "code" if style != "flat" else Path("code")
            for si, sub in enumerate(("setA", "setB")):
                (root / sub).mkdir(parents=True)
                sets[sub] = []
                for fi in range(2):
                    x = kind not in ("_x", "_xz") or fi == 0 or bool(ctx.bit(f"hasx{si}{fi}"))
                    z = kind not in ("_z", "_xz") or fi == 1 or bool(ctx.bit(f"hasz{si}{fi}"))
                    d = dataset(ctx, f"{si}{fi}", 2, x, z)
                    d["pers"] = sub
                    sets[sub].append(d)
                    with (root / sub / f"id_{fi}.json").open("w") as f:
                        js.dump(d, f)
            (root / "setB" / "id_9.json").write_text("{ broken")
            (root / "setB" / "notes.txt").write_text("not a result")
            (root / "stray.json").write_text("{}")
            target = root.parent / "code.json"
            p = {"rel": str(root), "flat": str(root), "abs": str(tmp / root), "path": root}[style]
            if via_load:
                target.touch()
                out = du.load_data([str(target)])[0]
            else:
                getattr(du, f"merge_json_files{kind}")(p)
                with target.open() as f:
                    out = js.load(f)
            ctx.check(len(out) == 2 and sorted(o["pers"] for o in out) == ["setA", "setB"], "one merged entry per setting", [o.get("pers") for o in out])
            for o in out:
                expect(ctx, o, sets[o["pers"]], types, {"x": "x_runs", "z": "z_runs"} if kind == "_xz" else "nr_runs", 2)
            if via_load:
                again = du.load_data([str(target)])[0]
                ctx.check(len(again) == 2, "loading again")
        finally:
            os.chdir(cwd)
            undo()
            shutil.rmtree(tmp, ignore_errors=True)

    return h


def formula(k):
    """calculate_error_rates against the defining equations."""

    def h(ctx):
        runs, s = ctx.real("runs", 1, 10**6), ctx.real("s", 0, 10**6)
        ctx.assume(s <= runs)
        if not ctx.symbolic:
            f, fe, w, we = du.calculate_error_rates(s, runs, {"k": k})
            ctx.check(eq(f, 1 - s / runs), "logical error rate")
            ctx.check(fe >= 0 and abs(fe * fe * runs - f * (1 - f)) < 1e-9, "error bar is the binomial deviation")
            ctx.check(w <= 1 + 1e-12 and abs((1 - w) ** k - (1 - f)) < 1e-9, "word error rate: K independent words")
            ctx.check(abs(we * k - fe * (1 - fe) ** (1 / k - 1)) < 1e-9, "word error rate error bar")
            return
        sol, n = ctx.solver, [0]

        def root(base, q, neg):
            """base ** (1/q) or base ** (1/q - 1), for base >= 0 (> 0)."""
            y = z3.Real(f"root!{n[0]}")
            n[0] += 1
            b = R.of(base).e
            yq = z3.Product([y] * q)
            if neg:
                sol.add(z3.Implies(b > 0, z3.And(y > 0, yq * z3.Product([b] * (q - 1)) == 1)) if q > 1 else y == 1)
            else:
                sol.add(z3.Implies(b >= 0, z3.And(y >= 0, yq == b)))
            return R(y)

        def power(self, o):
            o = float(o.c if isinstance(o, S) else o)
            if o == int(o) and o >= 0:
                r = R.of(1)
                for _ in range(int(o)):
                    r = r * self
                return r
            if o == 1 / k:
                return root(self, k, False)
            if o == 1 / k - 1:
                return root(self, k, True)
            if o == 0.5:
                return root(self, 2, False)
            raise symx.Unsupported(f"power {o}")

        undo = patch((R, "__pow__", power), (R, "sqrt", lambda self: root(self, 2, False)))()
        try:
            f, fe, w, we = du.calculate_error_rates(s, runs, {"k": k})
            ctx.check(f * runs == runs - s, "logical error rate")
            ctx.check(s_and(fe >= 0, fe * fe * runs == f * (1 - f)), "error bar is the binomial deviation")
            ok = R.of(1)
            for _ in range(k):
                ok = ok * (1 - w)
            ctx.check(s_and(w <= 1, ok == 1 - f), "word error rate: K independent words")
            if k == 1:
                ctx.check(we == fe, "word error rate error bar")
            else:
                # we K = fe y with y = (1-fe)^(1/K-1), i.e. y > 0 and y^K (1-fe)^(K-1) = 1
                b, l, r = 1 - fe, R.of(1), R.of(1)
                for _ in range(k):
                    l = l * (we * k)
                for _ in range(k - 1):
                    l = l * b
                for _ in range(k):
                    r = r * fe
                ctx.check(symx.s_implies(b > 0, s_and(we >= 0, l == r)), "word error rate error bar")
        finally:
            undo()

    return h


def converged(k):
    def h(ctx):
        runs = ctx.real("runs", 1, 10**6)
        xs, zs = ctx.real("xs", 0, 10**6), ctx.real("zs", 0, 10**6)
        prec = ctx.real("prec", 0, 1)
        ctx.assume(xs <= runs)
        ctx.assume(zs <= runs)
        got = du.is_converged(xs, zs, runs, {"k": k}, prec)
        both = []
        for s in (xs, zs):
            _, _, w, we = du.calculate_error_rates(s, runs, {"k": k})
            both.append(bool(we != 0) and bool(we / w < prec))
        ctx.check(S(int(bool(got))) == S(int(all(both))), "converged iff both relative error bars are below the precision")

    return h


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    for kind in ("both", "x", "z"):
        for n, k in ((2, 1), (3, 2)) + (((4, 3),) if big else ()):
            hs.append(Harness(f"pooled {kind} n={n} K={k}", pooled(n, k, kind), setup=setup, bounds=f"{n} files, all counts with 1 <= runs <= 1000, all orders and two-part groupings, any files without the count", functions=FN,
                              fallback=False, must_reach=["inputs are not modified", "merging in groups gives the same totals"]))
    for n in (2, 3) + ((4,) if big else ()):
        hs.append(Harness(f"combined n={n}", combine(n, 2), setup=setup, bounds=f"{n} files with X, Z or both kinds of data, all counts", functions=FN, fallback=False))
    for kind in ("", "_x", "_z", "_xz"):
        for style in ("rel", "flat", "abs", "path"):
            hs.append(Harness(f"files merge{kind} {style}", files(kind, style, False), setup=setup, bounds="2 settings x 2 files (+ a broken file), all counts, any file lacking the optional count", functions=FN, fallback=False))
    for style in ("rel", "flat"):
        hs.append(Harness(f"load_data {style}", files("", style, True), setup=setup, bounds="2 settings x 2 files, all counts", functions=FN, fallback=False))
    for k in (1, 2, 3) + ((4,) if big else ()):
        hs.append(Harness(f"rate formula K={k}", formula(k), setup=setup, bounds="all 0 <= successes <= runs <= 10^6 (reals)", functions=FN, fallback=False))
    for k in (1, 2):
        hs.append(Harness(f"converged K={k}", converged(k), setup=setup, bounds="all counts, precision in [0,1]", functions=FN, fallback=False))
    return hs
