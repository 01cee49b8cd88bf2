"""C26: product constructions give chain complexes with the right blocks; stored codes are these codes."""
from __future__ import annotations

import itertools
import json
import os
import shutil
import tempfile
from pathlib import Path
from types import SimpleNamespace

import ldpc.codes
import numpy as np
import scipy.io as sio
from scipy import sparse

import gf2
import symx
from codescommon import Mod2Proxy
from mqt.qecc.analog_information_decoding.code_construction import code_constructor as dc
from mqt.qecc.analog_information_decoding.code_construction import sparse_code_constructor as sc
from runner import Harness
from symx import NumpyProxy, S, SymArray, patch, s_iff, s_implies, s_not, s_or

ASSUMPTIONS = [
    "scipy.sparse is replaced by a dense stand-in with the same algebra (kron, hstack, vstack, @, transpose, data, sum) in symbolic runs; replays use scipy",
    "bposd.hgp, ldpc.mod2 and scipy's file formats are third party; create_code is run on listed seed codes with the solver quantifying over all combinations of logicals",
]
OUTSIDE = ["seed matrices larger than listed", "distance computation (needs external programs)"]
FN = ["code_constructor.generate_3d_product_code", "generate_4d_product_code", "run_checks_scipy", "_compute_logicals", "create_code", "save_code",
      "sparse_code_constructor.generate_3d_product_code", "generate_4d_product_code", "run_checks_scipy", "sparse_all_zeros", "create_code", "_store_code_params"]


class Sp:
    """Dense stand-in for a scipy sparse matrix with symbolic entries."""

    __array_priority__ = 10000

    def __init__(self, a):
        if isinstance(a, Sp):
            a = a.a
        o = np.empty(np.shape(a), dtype=object)
        o[...] = np.asarray(a, dtype=object)
        self.a = o.view(SymArray)

    shape = property(lambda self: self.a.shape)
    T = property(lambda self: Sp(self.a.T))

    @property
    def data(self):
        return self.a.reshape(-1)

    @data.setter
    def data(self, v):
        self.a = np.asarray(v, dtype=object).reshape(self.a.shape).view(SymArray)

    def transpose(self):
        return Sp(self.a.T)

    def __matmul__(self, o):
        return Sp(self.a @ Sp(o).a)

    __mul__ = dot = __matmul__

    def __add__(self, o):
        return Sp(self.a + Sp(o).a)

    def __mod__(self, k):
        return Sp(self.a % k)

    def sum(self):
        return sum(self.a.reshape(-1).tolist(), 0)

    def todense(self):
        return self.a.copy()

    toarray = todense

    def tocsr(self, *a, **k):
        return self

    tocoo = tocsc = tocsr

    def astype(self, *a, **k):
        return self

    def copy(self):
        return Sp(self.a.copy())

    def count_nonzero(self):
        return sum((symx.truth(x) for x in self.a.reshape(-1).tolist()), S(0))

    def max(self):
        raise symx.Unsupported("max")


def mk(a=None, shape=None, dtype=None, **k):
    return Sp(np.zeros(a, dtype=int) if isinstance(a, tuple) and all(isinstance(x, int) for x in a) else a)


def dense(a):
    return a.a if isinstance(a, Sp) else a


STUB = SimpleNamespace(
    csr_matrix=mk, coo_matrix=mk, csc_matrix=mk, csr_array=mk,
    identity=lambda n, dtype=None, format=None: Sp(np.identity(n, dtype=int)),
    eye=lambda n, m=None, dtype=None, format=None: Sp(np.eye(n, m, dtype=int)),
    kron=lambda a, b, format=None: Sp(symx.NumpyProxy().kron(Sp(a).a, Sp(b).a)),
    hstack=lambda l, format=None, dtype=None: Sp(np.hstack([Sp(x).a for x in l])),
    vstack=lambda l, format=None, dtype=None: Sp(np.vstack([Sp(x).a for x in l])),
    bmat=lambda l, format=None, dtype=None: Sp(np.vstack([np.hstack([Sp(x).a for x in r]) for r in l])),
)


def setup():
    return patch((dc, "np", NumpyProxy()), (dc, "scs", STUB), (dc, "sparse", STUB), (dc, "mod2", Mod2Proxy()), (sc, "np", NumpyProxy()), (sc, "sparse", STUB), (sc, "csr_matrix", mk))()


# ------------------------------------------------------------------------------------------------ specification
def L(m):
    m = m.a if isinstance(m, Sp) else (m.toarray() if sparse.issparse(m) else m)
    return [[x if isinstance(x, S) else int(x) for x in r] for r in np.asarray(m, dtype=object).tolist()]


def ident(n):
    return [[int(i == j) for j in range(n)] for i in range(n)]


def kron(a, b):
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]


def mul0(a, b):
    """a @ b = 0 mod 2 as one condition."""
    return symx.s_and(*[S.of(gf2.dot(r, [q[j] for q in b])) == 0 for r in a for j in range(len(b[0]) if b else 0)])


def zeros(r, c):
    return [[0] * c for _ in range(r)]


def hst(*b):
    return [sum((list(m[i]) for m in b), []) for i in range(len(b[0]))]


def spec(maps, p):
    """Total complex of (C_k -> ... -> C_0) x (p): entries of the boundary maps."""
    r, c = len(p), len(p[0])
    ids = [ident(len(maps[0]))] + [ident(len(m[0])) for m in maps]
    out = [hst(kron(maps[0], ident(r)), kron(ids[0], p))]
    for k in range(1, len(maps)):
        x = hst(kron(maps[k], ident(r)), kron(ids[k], p))
        y = kron(maps[k - 1], ident(c))
        out.append(x + hst(zeros(len(y), len(maps[k][0]) * r), y))
    out.append(kron(ids[-1], p) + kron(maps[-1], ident(c)))
    return out


def same(ctx, got, want, label):
    for i, (g, w) in enumerate(zip(got, want)):
        g = L(g)
        ctx.check((len(g), len(g[0]) if g else 0) == (len(w), len(w[0])), f"{label}: shape of boundary map {i + 1}", (len(g), len(w)))
        for rg, rw in zip(g, w):
            for a, b in zip(rg, rw):
                ctx.check(S.of(a) % 2 == S.of(b) % 2, f"{label}: entries of boundary map {i + 1}")


def product(dims, pshape, which, checks=True):
    """seed complex C_k -> ... -> C_0 with dimensions dims (C_0 first), arbitrary second factor."""
    mod = sc if which == "sparse" else dc
    nm = len(dims) - 1
    fn = "generate_3d_product_code" if nm == 2 else "generate_4d_product_code"

    def h(ctx):
        a = [ctx.bits(f"a{i}_", dims[i], dims[i + 1]) for i in range(nm)]
        p = ctx.bits("p", *pshape)
        seeds = [L(x) for x in a]
        args = a + [p]
        if which == "sparse":
            args = [Sp(x) if ctx.symbolic else sparse.csr_matrix(x) for x in args]
        keep = [L(x) for x in args]
        chain = symx.s_and(*[mul0(seeds[i], seeds[i + 1]) for i in range(nm - 1)])
        if not checks:
            ctx.assume(chain)
        f = getattr(mod, fn)
        try:
            out = f(*args) if nm == 2 else f(*args, checks=checks)
        except RuntimeError:
            ctx.check(s_not(chain), "rejected only if the seeds are no chain complex")
            ctx.count("rejected")
            return
        ctx.count("accepted")
        ctx.check(chain, "seeds that are no chain complex are rejected")
        ctx.check(len(out) == nm + 1, "number of boundary maps", len(out))
        same(ctx, out, spec(seeds, L(p)), fn)
        o = [L(x) for x in out]
        for i in range(nm):
            ctx.check(len(o[i][0]) == len(o[i + 1]), "consecutive maps compose")
            ctx.check(mul0(o[i], o[i + 1]), "consecutive boundary maps vanish modulo two")
        for x, k in zip(args, keep):
            for ra, rb in zip(L(x), k):
                for u, v in zip(ra, rb):
                    ctx.check(S.of(u) == v, "seeds are not modified")

    return h


def logicals(rx, rz, n):
    def h(ctx):
        hx, hz = ctx.bits("hx", rx, n), ctx.bits("hz", rz, n)
        X, Z = L(hx), L(hz)
        ctx.assume(mul0(X, [list(c) for c in zip(*Z)]))
        for m in (X, Z):
            ctx.assume(symx.s_or(*[S.of(x) for r in m for x in r]))
        lx, lz = dc._compute_logicals(hx, hz)
        for own, other, lg, t in ((X, Z, L(lx), "X"), (Z, X, L(lz), "Z")):
            zo, zt = S.of(gf2.rank_sym(own)), S.of(gf2.rank_sym(other))
            want = len(own) + len(other) - n + len(lg)
            ctx.check(zo * zt == 2**want if want >= 0 else S(0), f"number of {t} logicals is k", len(lg))
            for r in lg:
                ctx.check(len(r) == n, "logicals act on n qubits")
                for b in other:
                    ctx.check(S.of(gf2.dot(b, r)) == 0, f"{t} logicals commute with the checks")
            if lg:
                ctx.check(S.of(gf2.rank_sym(own + lg)) == zo, f"{t} logicals are independent modulo the stabilizers")

    return h


# ------------------------------------------------------------------------------------------------ stored codes
def seed(name):
    k, n = name[:4], int(name[4:])
    return {"ring": ldpc.codes.ring_code, "rep_": ldpc.codes.rep_code, "ham_": ldpc.codes.hamming_code}[k](n).astype(np.int32)


class Redirect:
    """Module stand-in that sends absolute output paths into the scratch directory."""

    def __init__(self, mod, tmp, names):
        self.__dict__.update(_m=mod, _t=tmp, _n=names)

    def __getattr__(self, k):
        f = getattr(self._m, k)
        if k in self._n:
            return lambda p, *a, **kw: f(moved(p, self._t), *a, **kw)
        return f


def moved(p, tmp):
    p = str(p)
    return str(tmp) + p if p.startswith("/") and not p.startswith(str(tmp)) else p


def read(d, name):
    a = np.loadtxt(d / f"{name}.txt", dtype=int, ndmin=2)
    b = sio.mmread(d / f"{name}.mtx").toarray()
    return [[int(x) for x in r] for r in a], [[int(x) for x in r] for r in b]


def stored(which, seeds, want_logicals):
    def h(ctx):
        bit0 = ctx.bit("unused") if False else None
        cwd = os.getcwd()
        tmp = Path(tempfile.mkdtemp(prefix="c26_"))
        mats = [seed(s) for s in seeds]
        bare = [m.copy() for m in mats]
        undo = lambda: None  # noqa: E731
        try:
            os.chdir(tmp)
            if which == "sparse":
                undo = patch((sc, "Path", lambda p: Path(moved(p, tmp))), (sc, "np", Redirect(np, tmp, {"savetxt"})), (sc, "sio", Redirect(sio, tmp, {"mmwrite"})))()
                args = [mats[0], mats[1], sparse.csr_matrix(mats[2])]
                sc.create_code("hgp", args, "code", compute_logicals=want_logicals)
            else:
                dc.create_code("hgp", mats, "code", compute_logicals=want_logicals, checks=True)
            d = next(p for p in tmp.rglob("code") if p.is_dir())
            names = ["hx", "hz", "mz"] + (["mx"] if which == "dense" else []) + (["lx", "lz"] if want_logicals else [])
            M = {}
            for n in names:
                ok = (d / f"{n}.txt").exists() and (d / f"{n}.mtx").exists()
                ctx.check(ok, "the matrices of the code are stored", n)
                t, m = read(d, n)
                ctx.check(t == m, "both file formats hold the same matrix", n)
                M[n] = t
            for a, b in zip(mats, bare):
                ctx.check(np.array_equal(a, b), "seeds are not modified")
            params = json.loads((d / "code_params.txt").read_text()) if which == "sparse" else None
        finally:
            undo()
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)
        # the complex: hypergraph product of the first two seeds, times the third (times the fourth)
        a, b = [[int(x) for x in r] for r in bare[0]], [[int(x) for x in r] for r in bare[1]]
        m1, n1, m2, n2 = len(a), len(a[0]), len(b), len(b[0])
        T = lambda m: [list(c) for c in zip(*m)]  # noqa: E731
        hx2 = hst(kron(a, ident(n2)), kron(ident(m1), T(b)))
        hz2 = hst(kron(ident(n1), b), kron(T(a), ident(m2)))
        maps = spec([hx2, T(hz2)], [[int(x) for x in r] for r in bare[2]])
        if which == "dense":
            maps = spec(maps, [[int(x) for x in r] for r in bare[3]])
            want = {"mx": maps[0], "hx": maps[1], "hz": T(maps[2]), "mz": T(maps[3])}
        else:
            want = {"hx": maps[0], "hz": T(maps[1]), "mz": T(maps[2])}
        for n, w in want.items():
            ctx.check(M[n] == w, "stored matrices are those of the product code", n)
        X, Z = want["hx"], want["hz"]
        n = len(X[0])
        k = n - gf2.rank(X) - gf2.rank(Z)
        if params is not None:
            ctx.check(int(params["n"]) == n and int(params["k"]) == k, "stored parameters", params)
        if want_logicals:
            for own, other, lg, t in ((X, Z, M["lx"], "X"), (Z, X, M["lz"], "Z")):
                if k == 0:
                    continue
                ctx.check(len(lg) == k, f"{t}: k logicals are stored", (len(lg), k))
                for r in lg:
                    for q in other:
                        ctx.check(gf2.dot(q, r) == 0, f"{t} logicals commute with the checks")
                co = ctx.bits(f"c{t}", k)
                comb = [0] * n
                for ci, r in zip(co, lg):
                    comb = [(u + ci) % 2 if v else u for u, v in zip(comb, r)]
                ctx.check(s_implies(s_or(*list(co)), s_not(gf2.in_rowspace(own, comb, n))), f"{t} logicals are independent modulo the stabilizers")
        ctx.count("stored")

    return h


def unknown(ctx):
    ctx.bit("unused")
    for m in (dc, sc):
        try:
            m.create_code("nope", [seed("rep_2")] * 4, "x")
        except ValueError:
            continue
        ctx.check(False, "unknown constructors are rejected")


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    d3 = [((1, 1, 1), (1, 1)), ((1, 2, 1), (1, 2)), ((2, 2, 2), (2, 1)), ((2, 3, 1), (2, 2)), ((1, 3, 2), (1, 3))] + ([((2, 3, 2), (2, 3)), ((3, 3, 3), (2, 2)), ((2, 4, 2), (3, 3))] if big else [])
    d4 = [((1, 1, 1, 1), (1, 1)), ((1, 2, 2, 1), (1, 2)), ((2, 2, 1, 2), (2, 1)), ((1, 2, 3, 1), (2, 2))] + ([((2, 3, 3, 2), (2, 1)), ((2, 3, 2, 2), (2, 3))] if big else [])
    for w in ("dense", "sparse"):
        for dims, ps in d3 + d4:
            hs.append(Harness(f"{w} {len(dims)}d {'x'.join(map(str, dims))} p {ps[0]}x{ps[1]}", product(dims, ps, w), setup=setup, bounds=f"all seed matrices with chain dimensions {dims} and second factor {ps}", functions=FN, fallback=False,
                              must_reach=["accepted"] + (["rejected"])))
        hs.append(Harness(f"{w} 4d unchecked", product((1, 2, 2, 1), (2, 2), w, checks=False), setup=setup, bounds="all chain complexes 1-2-2-1", functions=FN, fallback=False, must_reach=["accepted"]))
    for rx, rz, n in ((1, 1, 3), (2, 1, 3), (1, 2, 4)) + (((2, 2, 4),) if big else ()):
        hs.append(Harness(f"logicals {rx}+{rz} x {n}", logicals(rx, rz, n), setup=setup, bounds="all orthogonal non-zero check matrices", functions=FN))
    st = [("dense", ("rep_2", "rep_2", "rep_3", "rep_2")), ("dense", ("ring2", "rep_3", "ring2", "rep_2")), ("dense", ("ring2", "ring2", "ring2", "ring2")), ("sparse", ("rep_3", "rep_2", "ring2")), ("sparse", ("ring3", "ring3", "ring3")), ("sparse", ("rep_2", "rep_3", "rep_2"))]
    if big:
        st += [("dense", ("ring3", "ring2", "ring3", "rep_2")), ("sparse", ("ham_3", "rep_2", "rep_2"))]
    for w, s in st:
        for lg in (True, False):
            hs.append(Harness(f"stored {w} {' '.join(s)} logicals={lg}", stored(w, s, lg), bounds="listed seeds, all combinations of the stored logicals", functions=FN, must_reach=["stored"], seconds=600))
    hs.append(Harness("unknown constructor", unknown, bounds="one name", functions=FN))
    return hs
