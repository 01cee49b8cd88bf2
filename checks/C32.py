"""C32: the colour-code evaluation figures show the stored results."""
from __future__ import annotations

import contextlib
import sys
from types import SimpleNamespace

import symx
from runner import Harness
from symx import R, S, patch, s_and

from mqt.qecc.cc_decoder import plots

ASSUMPTIONS = [
    "matplotlib is replaced by stand-ins that record what is drawn on which panel, under which label",
    "the result files are replaced by records with arbitrary (symbolic) rates, error bars and times; which files exist and the order they are found in are explored exhaustively within the bounds",
    "scipy's curve_fit is replaced by a stand-in that records the data it gets and answers arbitrary parameters",
]
OUTSIDE = ["colours, markers, axis limits and layout", "two result files of the same code and rate", "the quality of the numerical fit", "more distances and rates than listed"]
FN = ["generate_plots", "generate_plots_tn", "generate_plots_comp", "plot_ler_vs_distance", "calculate_threshold", "threshold_fit", "main"]


class Axes:
    def __init__(self):
        self.series, self.lines = [], []

    def plot(self, x, y, *fmt, label=None, **kw):
        self.series.append((label, list(x), list(y), None))

    def errorbar(self, x, y, yerr=None, xerr=None, fmt="", label=None, **kw):
        self.series.append((label, list(x), list(y), None if yerr is None else list(yerr)))

    def axvline(self, x=0, *a, **kw):
        self.lines.append(x)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None


class Fig:
    """stand-in for pyplot"""

    def __init__(self):
        self.saved = []

    def subplots(self, nrows=1, ncols=1, **kw):
        if nrows == 1 or ncols == 1:
            self.ax = [Axes() for _ in range(nrows * ncols)]
        else:
            self.ax = [[Axes() for _ in range(ncols)] for _ in range(nrows)]
        return SimpleNamespace(savefig=self.savefig), self.ax

    def savefig(self, f, **kw):
        self.saved.append(f)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None


class File:
    """a result file whose content is the given record"""

    def __init__(self, token):
        self.token, self.name = token, token

    def open(self, *a, **kw):
        return contextlib.nullcontext(SimpleNamespace(read=lambda: self.token))

    def read_text(self, *a, **kw):
        return self.token

    def __lt__(self, o):
        return self.token < o.token


class Dir:
    def __init__(self, files):
        self.files = files

    def glob(self, pattern):
        return iter(list(self.files)) if pattern.endswith(".json") else iter([])

    def iterdir(self):
        return iter(list(self.files))


def same(ctx, got, want, msg):
    ctx.check(len(got) == len(want), msg, (len(got), len(want)))
    for a, b in zip(got, want):
        if isinstance(a, (R, S)) or isinstance(b, (R, S)):
            ctx.check(R.of(a) == R.of(b), msg)
        else:
            ctx.check(abs(float(a) - float(b)) < 1e-9, msg, (a, b))


def panel(ctx, ax, want, msg):
    """the panel shows exactly the wanted curves: label -> list of (x, y[, error bar]), points in order"""
    got = [s for s in ax.series if len(s[1])]
    ctx.check(sorted(s[0] for s in got) == sorted(want), msg + ": labelled curves", ([s[0] for s in got], sorted(want)))
    for lab, x, y, e in got:
        pts = want[lab]
        ctx.check(len(x) == len(y) and len(x) == len(pts), msg + ": points", (lab, len(x), len(y), len(pts)))
        same(ctx, x, [p[0] for p in pts], msg + ": positions")
        same(ctx, y, [p[1] for p in pts], msg + ": values")
        if pts and len(pts[0]) > 2:
            ctx.check(e is not None, msg + ": error bars are drawn")
            same(ctx, e, [p[2] for p in pts], msg + ": error bars")


def records(ctx, pairs, always, nlog=1):
    """records for every (distance, rate); those not in always may be missing; found in any of a few orders"""
    out = []
    for i, (d, p) in enumerate(pairs):
        if i not in always and not ctx.choice(f"present{i}", [True, False]):
            continue
        out.append(((d, p), {
            "distance": d, "p": p,
            plots.ler_k: [ctx.real(f"ler{i}_{l}", 0, 1) for l in range(nlog)],
            plots.ler_eb_k: [ctx.real(f"eb{i}_{l}", 0, 1) for l in range(nlog)],
            "avg_total_time": ctx.real(f"t{i}", 0, 1000),
            plots.min_wts_k: [1] * nlog,
        }))
    o = ctx.choice("order", ["as listed", "reversed", "rotated", "interleaved"])
    if o == "reversed":
        out.reverse()
    elif o == "rotated":
        out = out[len(out) // 2:] + out[:len(out) // 2]
    elif o == "interleaved":
        out = out[1::2] + out[::2]
    return out


def environment(ctx, recs, fits, extra=()):
    fig = Fig()
    table = {f"file{i}": r for i, (_, r) in enumerate(recs)}

    def loads(s, *a, **kw):
        return table[s]

    def fit(f, xs, ys, *a, **kw):
        par = [ctx.real(f"fit{len(fits)}_{k}", 0, 1) for k in range(5)]
        fits.append((f, [list(x) for x in xs], list(ys)))
        return par, None

    undo = patch((plots, "plt", fig), (plots, "json", SimpleNamespace(loads=loads, load=lambda f: table[f.read()])), (plots, "curve_fit", fit), (plots, "print", lambda *a, **k: None), *extra)()
    return fig, table, undo


MAXP = [0.001, 0.01, 0.02, 0.08, 0.1]
TIMEP = [0.001, 0.02, 0.05, 0.08, 0.13]


def maxsat(pairs, always, nlog):
    def h(ctx):
        recs = records(ctx, pairs, always, nlog)
        fits = []
        fig, table, undo = environment(ctx, recs, fits)
        try:
            plots.generate_plots(Dir([File(t) for t in table]), "out.pdf")
        finally:
            undo()
        by = dict(recs)
        ds = sorted({d for d, _ in by})
        curve = lambda d: sorted(p for dd, p in by if dd == d)
        ctx.check(fig.saved == ["out.pdf"], "the figure is saved")
        for l in range(nlog):
            panel(ctx, fig.ax[0][l], {f"d={d}": [(p, by[d, p][plots.ler_k][l], by[d, p][plots.ler_eb_k][l]) for p in curve(d)] for d in ds}, "failure rate of one logical over the error rate")
        times = {f"d={d}": [(p, by[d, p]["avg_total_time"]) for p in curve(d)] for d in ds}
        thr = lambda l: {f"d = {d}": [(p, by[d, p][plots.ler_k][l], by[d, p][plots.ler_eb_k][l]) for p in curve(d)] for d in ds}
        for l in range(nlog):
            panel(ctx, fig.ax[1][l], {**(times if l == 0 else {}), **thr(l)}, "threshold panel of one logical")
        pers = sorted({p for _, p in by if p in TIMEP})
        panel(ctx, fig.ax[2][1], {f"p={p}": [(d, by[d, p]["avg_total_time"]) for d in ds if (d, p) in by] for p in pers}, "time over the distance")
        panel(ctx, fig.ax[3][0], {f"p={p}": [(d, by[d, p][plots.ler_k][0]) for d in ds if (d, p) in by] for p in {0.01} & {p for _, p in by}}, "failure rate over the distance")
        ctx.check(len(fits) == nlog, "one fit per logical")
        for l, (_, xs, ys) in enumerate(fits):
            want = {(d, p): by[d, p][plots.ler_k][l] for d, p in by if 0.06 < p < 0.13}
            ctx.check(len(ys) == len(want) == len(xs[0]) == len(xs[1]) and set(zip(xs[1], xs[0])) == set(want), "the fit gets the results in the window", (xs, sorted(want)))
            same(ctx, ys, [want[d, p] for p, d in zip(*xs)], "the fit gets the failure rates of its logical")
            ax = fig.ax[1][l]
            ctx.check(len(ax.lines) == 1 and R.of(ax.lines[0]) == R.of(ctx_fit(ctx, l)), "the fitted threshold is marked")
        ctx.count("drawn")

    return h


def ctx_fit(ctx, l):
    return ctx.real(f"fit{l}_4", 0, 1)


def tn(pairs, always):
    def h(ctx):
        recs = []
        for (d, p), r in records(ctx, pairs, always):
            i = pairs.index((d, p))
            n = ctx.choice(f"runs{i}", [1, 4]) if i == 0 else 2
            recs.append(((d, p), {"n_k_d": [7, 1, d], "physical_error_rate": p, "error_probability": p, "logical_failure_rate": r[plots.ler_k][0], "wall_time": r["avg_total_time"], "n_run": n}))
        fig, table, undo = environment(ctx, recs, [])
        try:
            plots.generate_plots_tn(Dir([File(t) for t in table]), "out.pdf")
        finally:
            undo()
        by = dict(recs)
        ds = sorted({d for d, _ in by})
        us = {k: R.of(r["wall_time"]) * 1000000 / r["n_run"] if ctx.symbolic else r["wall_time"] / r["n_run"] * 1e6 for k, r in by.items()}
        ctx.check(fig.saved == ["out.pdf"], "the figure is saved")
        panel(ctx, fig.ax[0][0], {f"d={d}": [(p, by[d, p]["logical_failure_rate"]) for p in sorted(p for dd, p in by if dd == d)] for d in ds}, "failure rate over the error rate")
        panel(ctx, fig.ax[1][0], {f"d={d}": [(p, us[d, p]) for p in sorted(p for dd, p in by if dd == d)] for d in ds}, "time over the error rate")
        pers = sorted({p for _, p in by if p in [0.001, 0.021, 0.051, 0.081, 0.111]})
        panel(ctx, fig.ax[1][1], {f"p={p}": [(d, us[d, p]) for d in ds if (d, p) in by] for p in pers}, "time over the distance")
        ctx.count("drawn")

    return h


def comparison(solvers, pairs, always):
    def h(ctx):
        recs, place = [], {}
        for s in solvers:
            for (d, p), _ in [(q, None) for q in pairs]:
                i = len(recs) + len(place)
                if pairs.index((d, p)) not in always and not ctx.choice(f"{s} d{d} p{p}", [True, False]):
                    continue
                recs.append(((s, d, p), {"distance": d, "p": p, "avg_total_time": ctx.real(f"t_{s}_{d}_{p}", 0, 1000)}))
        rev = ctx.choice("order", [False, True])
        if rev:
            recs.reverse()
        names = {f"file{i}": k for i, (k, _) in enumerate(recs)}
        dirs = [("/res", list(solvers), [])] + [(f"/res/{s}", [], [t for t, k in names.items() if k[0] == s]) for s in (reversed(solvers) if rev else solvers)]
        P = lambda *a: File(str(a[0]).rsplit("/", 1)[1])
        osm = SimpleNamespace(walk=lambda d: iter(dirs), path=SimpleNamespace(join=lambda *a: "/".join(map(str, a)), basename=lambda s: s.rsplit("/", 1)[1]))
        fig, _, undo = environment(ctx, recs, [], extra=[(plots, "os", osm), (plots, "Path", P)])
        try:
            plots.generate_plots_comp("/res", "out.pdf")
        finally:
            undo()
        by = dict(recs)
        lab = lambda s: s if s == "z3" else "CASHWMaxSAT-CorePlus"
        ctx.check(fig.saved == ["out.pdf"], "the figure is saved")
        want = {}
        for s in solvers:
            for d in sorted({d for ss, d, _ in by if ss == s} & {17, 21}):
                want[f"solver={s}, d={d}"] = [(p, by[s, d, p]["avg_total_time"]) for p in sorted(p for ss, dd, p in by if (ss, dd) == (s, d))]
        panel(ctx, fig.ax[0], want, "time over the error rate")
        want = {}
        for s in solvers:
            for p in sorted({p for ss, _, p in by if ss == s} & {0.001, 0.051, 0.131}):
                want[f"p={p}, {lab(s)}"] = [(d, by[s, d, p]["avg_total_time"]) for d in sorted(d for ss, d, pp in by if (ss, pp) == (s, p))]
        panel(ctx, fig.ax[1], want, "time over the distance")
        ctx.count("drawn")

    return h


def function(ctx):
    """the fit function is quadratic in (p - threshold) L^(1/mu)"""
    p, th, b0, b1, b2 = (ctx.real(n, 0, 1) for n in ("p", "th", "b0", "b1", "b2"))
    ell, mu = ctx.choice("ell", [3, 4, 5]), ctx.choice("mu", [1, 0.5])
    x = (p - th) * (ell if mu == 1 else ell * ell)
    got, want = plots.threshold_fit((p, ell), b0, b1, b2, mu, th), b0 + b1 * x + b2 * x * x
    ctx.check(R.of(got) == R.of(want) if ctx.symbolic else abs(got - want) < 1e-9, "the threshold fit function")


def entry(ctx):
    """the command line runs the requested figure with the given folder and file"""
    mode = ctx.choice("mode", ["maxsat", "tn", "comparison", None, "other"])
    out = ctx.choice("file", [None, "fig.pdf"])
    calls = []
    rec = lambda n: lambda a, b: calls.append((n, str(a), str(b)))
    undo = patch((plots, "generate_plots", rec("maxsat")), (plots, "generate_plots_tn", rec("tn")), (plots, "generate_plots_comp", rec("comparison")),
                 (sys, "argv", ["plots", "some/dir"] + (["--mode", mode] if mode else []) + (["--results_file", out] if out else [])))()
    try:
        plots.main()
        err = None
    except ValueError as e:
        err = e
    finally:
        undo()
    if mode == "other":
        ctx.check(err is not None and not calls, "an unknown mode is rejected")
    else:
        ctx.check(err is None and calls == [(mode or "maxsat", "some/dir", out or "results.pdf")], "the requested figure is drawn", calls)


def harnesses(tier):
    big = tier == "thorough"
    grid = [(3, 0.01), (3, 0.08), (5, 0.08), (5, 0.001), (3, 0.001), (5, 0.02), (11, 0.08), (11, 0.1)]
    hs = [
        Harness("maxsat one logical", maxsat(grid, {1, 2}, 1), bounds="8 (distance, rate) pairs of which 6 may be missing, 4 file orders, all values", functions=FN, must_reach=["drawn"], seconds=600),
        Harness("maxsat two logicals", maxsat(grid[:6], {0, 1, 2, 3}, 2), bounds="6 pairs of which 2 may be missing, 2 logicals, 4 file orders, all values", functions=FN, must_reach=["drawn"], seconds=600),
        Harness("tn", tn([(3, 0.051), (3, 0.001), (5, 0.001), (5, 0.021), (11, 0.051), (5, 0.3)], {0, 2}), bounds="6 pairs of which 4 may be missing, 4 file orders, all values", functions=FN, must_reach=["drawn"], seconds=600),
        Harness("comparison", comparison(["z3", "CASHW"], [(17, 0.051), (17, 0.001), (21, 0.001), (9, 0.051)], {0}), bounds="2 solvers, 4 pairs of which 3 may be missing for each, 2 file orders, all values", functions=FN, must_reach=["drawn"], seconds=600),
        Harness("fit function", function, bounds="all rates, thresholds, coefficients; 3 distances, 2 exponents", functions=["threshold_fit"]),
        Harness("entry", entry, bounds="5 modes, 2 files", functions=["main"]),
    ]
    if big:
        hs.append(Harness("comparison three", comparison(["z3", "CASHW", "other"][:2], [(17, 0.051), (17, 0.001), (21, 0.001), (9, 0.051), (21, 0.131), (9, 0.2)], {0, 2}), bounds="2 solvers, 6 pairs", functions=FN, must_reach=["drawn"], seconds=900))
    return hs
