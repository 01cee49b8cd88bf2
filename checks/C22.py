"""C22: sampled errors follow the given channel; channel set-up splits the rate by the bias."""
from __future__ import annotations

import numpy as np

import symx
from mqt.qecc.analog_information_decoding.utils import simulation_utils as su
from runner import Harness
from symx import NumpyProxy, R, S, ite, patch, s_and, s_iff, s_implies, s_not, s_or, symarray

ASSUMPTIONS = [
    "each call of the random generator returns a number in [0, 1); draws are used for the entries in order (one per entry, alone or as one vector)",
    "probabilities are exact reals in the encoding (floating-point rounding is outside)",
    "Z, X, Y occupy consecutive sub-intervals of [0,1) in this order (documented in the code); another order of the sub-intervals is accepted if it is used for every qubit alike",
]
OUTSIDE = ["quality and seeding of numpy's random generator", "rounding of sums of floating-point probabilities"]
FN = ["generate_err", "generate_syndr_err", "error_channel_setup"]


class Rng:
    """Stand-in for numpy's generator: draws are free reals in [0,1)."""

    def __init__(self, draw):
        self.draw = draw

    def random(self, size=None, *a, **k):
        if size is None:
            return self.draw()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        v = [self.draw() for _ in range(int(np.prod(shape)))]
        o = np.empty(len(v), dtype=object if any(isinstance(x, (R, S)) for x in v) else float)
        o[:] = v
        return symx.wrap(o.reshape(shape))

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self.random(size)
        return r if (low, high) == (0.0, 1.0) else low + r * (high - low)

    def binomial(self, n, p, size=None):
        raise symx.Unsupported("binomial")


class RandomMod:
    def __init__(self, draw):
        self._r = Rng(draw)

    def default_rng(self, *a):
        return self._r

    def random(self, size=None):
        return self._r.random(size)

    def rand(self, *shape):
        return self._r.random(shape or None)

    def seed(self, *a):
        pass


def patched(ctx):
    cnt = [0]
    draws = []

    def draw():
        r = ctx.real(f"r{cnt[0]}", 0, 1, strict_hi=True)
        cnt[0] += 1
        draws.append(r)
        return r

    rm = RandomMod(draw)
    if ctx.symbolic:
        undo = patch((su, "np", NumpyProxy(zeros_symbolic=True, random=rm)))()
    else:
        undo = patch((np.random, "default_rng", rm.default_rng), (np.random, "random", rm.random), (np.random, "rand", rm.rand))()
    return draws, undo


def arr(ctx, v, dt=float):
    return symarray(list(v)) if ctx.symbolic else np.array([x for x in v], dtype=dt)


ORDERS = ["zxy", "zyx", "xyz", "xzy", "yxz", "yzx"]


def data(n, order, uniform=False):
    def h(ctx):
        pr = {}
        for c in "xyz":
            first = ctx.real(f"p{c}0", 0, 1)
            pr[c] = [first if uniform or i == 0 else ctx.real(f"p{c}{i}", 0, 1) for i in range(n)]
        for i in range(n):
            ctx.assume(pr["x"][i] + pr["y"][i] + pr["z"][i] <= 1)
        rx, rz = ctx.bits("rx", n), ctx.bits("rz", n)
        ex, ez = [int(x) if not isinstance(x, S) else x for x in rx], [int(x) if not isinstance(x, S) else x for x in rz]
        draws, undo = patched(ctx)
        try:
            a, b = su.generate_err(nr_qubits=n, channel_probs=tuple(arr(ctx, pr[c]) for c in "xyz"), residual_err=[rx, rz])
        finally:
            undo()
        ctx.check(len(a) == n and len(b) == n, "one entry per qubit")
        ctx.check(len(draws) == n, "one draw per qubit", len(draws))
        for i in range(n):
            lo = 0
            iv = {}
            for c in order:
                iv[c] = (lo, lo + pr[c][i])
                lo = lo + pr[c][i]
            r = draws[i]
            sel = {c: s_and(symx.truth(r >= iv[c][0]), symx.truth(r < iv[c][1])) for c in "xyz"}
            wx = (S.of(ex[i]) + s_or(sel["x"], sel["y"])) % 2
            wz = (S.of(ez[i]) + s_or(sel["z"], sel["y"])) % 2
            ctx.check(S.of(a[i]) == wx, "X part flips iff the draw selects X or Y", i)
            ctx.check(S.of(b[i]) == wz, "Z part flips iff the draw selects Z or Y", i)

    return h


def data_any(n):
    """One harness per order of the sub-intervals would accept any; the order in use is found on one qubit first."""

    def h(ctx):
        return data(n, _order())(ctx)

    return h


_ORD = []


def _order():
    """Order of the sub-intervals, read off the code by running it at the midpoints (used only to choose the reference)."""
    if _ORD:
        return _ORD[0]
    p = {"x": 0.125, "y": 0.25, "z": 0.0625}
    for o in ORDERS:
        ok, lo = True, 0.0
        for c in o:
            mid = lo + p[c] / 2
            lo += p[c]
            old = np.random.default_rng
            np.random.default_rng = RandomMod(lambda m=mid: m).default_rng
            try:
                a, b = su.generate_err(1, tuple(np.array([p[c2]]) for c2 in "xyz"), [np.zeros(1, dtype=int), np.zeros(1, dtype=int)])
            except Exception:  # noqa: BLE001
                ok = False
                break
            finally:
                np.random.default_rng = old
            if (int(a[0]), int(b[0])) != (int(c in "xy"), int(c in "zy")):
                ok = False
                break
        if ok:
            _ORD.append(o)
            return o
    _ORD.append("zxy")
    return "zxy"


def syndrome(shape):
    def h(ctx):
        n = int(np.prod(shape))
        p = [ctx.real(f"p{i}", 0, 1) for i in range(n)]
        a = arr(ctx, p).reshape(shape)
        draws, undo = patched(ctx)
        try:
            e = su.generate_syndr_err(a)
        finally:
            undo()
        ctx.check(np.shape(e) == tuple(shape), "shape", np.shape(e))
        ctx.check(len(draws) == n, "one draw per entry", len(draws))
        for i, x in enumerate(np.asarray(e, dtype=object).flat):
            ctx.check(s_iff(S.of(x), symx.truth(draws[i] < p[i])), "error iff the draw is below the probability", i)
            ctx.check(s_or(S.of(x) == 0, S.of(x) == 1), "binary")

    return h


def channel(n, inf):
    def h(ctx):
        rate = ctx.real("rate", 0, 1)
        b = [ctx.real(f"b{i}", 0, 1000) for i in range(3)]
        if inf is not None:
            b[inf] = float("inf")
        else:
            ctx.assume(b[0] + b[1] + b[2] > 0)
            if not ctx.symbolic:
                ctx.assume(sum(b) > 1e-9)
        bias = symarray(b) if ctx.symbolic else np.array([x for x in b], dtype=float)
        undo = patch((su, "np", NumpyProxy(zeros_symbolic=True)))() if ctx.symbolic else (lambda: None)
        try:
            chans = su.error_channel_setup(rate, bias, n)
        finally:
            undo()
        ctx.check(len(chans) == 3, "three channels")
        tol = 1e-9

        def eq(a, c):
            if isinstance(a, (R, S)) or isinstance(c, (R, S)):
                return R.of(a) == R.of(c)
            return abs(float(a) - float(c)) <= tol * max(1.0, abs(float(c)))

        for c in chans:
            ctx.check(len(c) == n, "one probability per qubit")
        for q in range(n):
            px, py, pz = (ch[q] for ch in chans)
            ctx.check(eq(px + py + pz, rate), "probabilities sum to the rate")
            if inf is not None:
                for j, v in enumerate((px, py, pz)):
                    ctx.check(eq(v, rate if j == inf else 0), "infinite bias selects one Pauli", j)
            else:
                tot = b[0] + b[1] + b[2]
                for j, v in enumerate((px, py, pz)):
                    ctx.check(eq(v * tot, rate * b[j]), "probabilities are proportional to the bias", j)

    return h


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    for n in (1, 2, 3) + ((4,) if big else ()):
        hs.append(Harness(f"data errors n={n}", data_any(n), bounds="all draws, channels and residual errors", functions=FN, fallback=False,
                          must_reach=["X part flips iff the draw selects X or Y"]))
    for sh in ((1,), (3,), (2, 2)) + (((6,),) if big else ()):
        hs.append(Harness(f"syndrome errors {sh}", syndrome(sh), bounds="all draws and probabilities", functions=FN, fallback=False, must_reach=["error iff the draw is below the probability"]))
    for n in (1, 3):
        hs.append(Harness(f"channel n={n}", channel(n, None), bounds="all rates in [0,1], biases in [0,1000]", functions=FN, fallback=False, must_reach=["probabilities are proportional to the bias"]))
        for i in range(3):
            hs.append(Harness(f"channel n={n} infinite {'XYZ'[i]} bias", channel(n, i), bounds="all rates, the other biases arbitrary", functions=FN, fallback=False, must_reach=["infinite bias selects one Pauli"]))
    return hs
