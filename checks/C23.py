"""C23: analog, binary and signed syndromes convert consistently; block matrices; analog channel initialisation."""
from __future__ import annotations

from types import SimpleNamespace

import numpy as np
import z3

import symx
from mqt.qecc.analog_information_decoding.simulators import analog_tannergraph_decoding as atd
from mqt.qecc.analog_information_decoding.simulators import simulation as ss
from mqt.qecc.analog_information_decoding.utils import simulation_utils as su
from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams
from runner import Harness
from symx import NumpyProxy, R, S, ite, patch, s_iff, s_or, symarray

ASSUMPTIONS = [
    "exp is an uninterpreted function with positivity, monotony and exp(-x) = 1/exp(x); erfc and erfcinv are mutually inverse on (0, 1), sqrt is the positive root",
    "Gaussian samples are loc + scale * (a free real); BP+OSD is an arbitrary decoder",
    "real arithmetic instead of floating point",
]
OUTSIDE = ["NaN and infinite analog values", "BP/OSD itself"]
FN = ["get_binary_from_analog", "get_signed_from_binary", "get_noisy_analog_syndrome", "build_single_stage_pcm", "get_analog_pcm", "SingleShotSimulator.construct_analog_pcms",
      "get_analog_llr", "get_virtual_check_init_vals", "get_sigma_from_syndr_er", "get_error_rate_from_sigma", "AnalogTannergraphDecoder.__init__", "_set_analog_syndrome", "AnalogTannergraphDecoder.decode"]


def arr(ctx, v, dt=float):
    return symarray(v) if ctx.symbolic else np.array(v, dtype=dt)


def eq(a, c, tol=1e-9):
    if isinstance(a, (R, S)) or isinstance(c, (R, S)):
        return R.of(a) == R.of(c)
    return abs(float(a) - float(c)) <= tol * max(1.0, abs(float(c)))


def flat(a):
    return list(np.asarray(a, dtype=object).flat)


class Rng:
    def __init__(self, ctx, log):
        self.ctx, self.log, self.k = ctx, log, 0

    def standard_normal(self, size=None, *a, **k):
        n = 1 if size is None else int(np.prod(size))
        z = []
        for _ in range(n):
            z.append(self.ctx.real(f"z{self.k}"))
            self.k += 1
        self.log += z
        return z[0] if size is None else arr(self.ctx, z).reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc, dtype=object), np.asarray(scale, dtype=object)).shape or None
        return loc + scale * self.standard_normal(size)


def with_rng(ctx, log, extra=()):
    rng = Rng(ctx, log)
    rm = SimpleNamespace(default_rng=lambda *a: rng, normal=rng.normal, randn=lambda *s: rng.standard_normal(s), standard_normal=rng.standard_normal, seed=lambda *a: None)
    if ctx.symbolic:
        return patch((su, "np", NumpyProxy(random=rm)), *extra)()
    return patch((np.random, "default_rng", rm.default_rng), *extra)()


def threshold(shape):
    def h(ctx):
        n = int(np.prod(shape))
        a = [ctx.real(f"a{i}") for i in range(n)]
        b = flat(su.get_binary_from_analog(arr(ctx, a).reshape(shape)))
        ctx.check(len(b) == n, "shape")
        for x, y in zip(a, b):
            ctx.check(s_iff(S.of(y), symx.truth(x <= 0)), "positive values are 0, the rest 1")
            ctx.check(s_or(S.of(y) == 0, S.of(y) == 1), "binary")

    return h


def signed(shape):
    def h(ctx):
        s = ctx.bits("s", *shape)
        g = su.get_signed_from_binary(s)
        ctx.check(np.shape(g) == tuple(shape), "shape")
        for x, y in zip(flat(s), flat(g)):
            ctx.check(S.of(y) == 1 - 2 * S.of(int(x) if not isinstance(x, S) else x), "0 becomes +1, 1 becomes -1")
        for x, y in zip(flat(s), flat(su.get_binary_from_analog(g))):
            ctx.check(S.of(int(x) if not isinstance(x, S) else x) == y, "binary to signed and back is the identity")

    return h


def noisy(shape):
    def h(ctx):
        s = ctx.bits("s", *shape)
        keep = flat(s)
        sigma = ctx.real("sigma", 0, 10)
        log = []
        undo = with_rng(ctx, log)
        try:
            out = su.get_noisy_analog_syndrome(s, sigma)
        finally:
            undo()
        ctx.check(np.shape(out) == tuple(shape), "shape")
        ctx.check(len(log) == len(keep), "one sample per check", len(log))
        for x, y, zz in zip(keep, flat(out), log):
            ctx.check(eq(y, (1 - 2 * (x if isinstance(x, S) else int(x))) + sigma * zz), "centred on the signed syndrome with deviation sigma")

    return h


def noiseless(n):
    def h(ctx):
        s = ctx.bits("s", n)
        log = []
        undo = with_rng(ctx, log)
        try:
            out = su.get_binary_from_analog(su.get_noisy_analog_syndrome(s, 0.0))
        finally:
            undo()
        for x, y in zip(flat(s), flat(out)):
            ctx.check(S.of(x if isinstance(x, S) else int(x)) == y, "without noise the analog syndrome thresholds to the syndrome")

    return h


def single_stage(m, n, ln):
    def h(ctx):
        p, mt = ctx.bits("h", m, n), ctx.bits("m", ln, m)
        out = su.build_single_stage_pcm(p, mt)
        ctx.check(np.shape(out) == (m + ln, n + m), "shape", np.shape(out))
        for i in range(m + ln):
            for j in range(n + m):
                if i < m:
                    want = p[i, j] if j < n else int(j - n == i)
                else:
                    want = 0 if j < n else mt[i - m, j - n]
                ctx.check(out[i, j] == want, "[[H, 1], [0, M]]", (i, j))

    return h


def analog_pcm(m, n):
    def h(ctx):
        p, q = ctx.bits("h", m, n), ctx.bits("g", m + 1, n)
        outs = [(p, atd.get_analog_pcm(p))]
        a, b = ss.SingleShotSimulator.construct_analog_pcms(SimpleNamespace(Hx=p, Hz=q))
        outs += [(p, a), (q, b)]
        for src, out in outs:
            mm = src.shape[0]
            ctx.check(np.shape(out) == (mm, n + mm), "shape", np.shape(out))
            for i in range(mm):
                for j in range(n + mm):
                    ctx.check(out[i, j] == (src[i, j] if j < n else int(j - n == i)), "[H | 1]", (i, j))

    return h


def llr(n, sigma):
    def h(ctx):
        a = [ctx.real(f"a{i}", -50, 50) for i in range(n)]
        sg = sigma if sigma is not None else ctx.real("sigma", 0, 10, strict_lo=True)
        out = flat(su.get_analog_llr(arr(ctx, a), sg))
        ctx.check(len(out) == n, "length")
        for x, y in zip(a, out):
            ctx.check(eq(y * (sg * sg), 2 * x) if sg is not sigma or sigma > 0 else eq(y, 0), "log-likelihood ratio 2 y / sigma^2 (0 without noise)")

    return h


def init_vals(n, sigma):
    def h(ctx):
        a = [ctx.real(f"a{i}", -4, 4) for i in range(n)]
        out = flat(su.get_virtual_check_init_vals(arr(ctx, a), sigma))
        ctx.check(len(out) == n, "length")
        for x, y in zip(a, out):
            if sigma <= 0:
                ctx.check(eq(y, 0), "no noise: perfect measurement")
            elif ctx.symbolic:
                e = R(z3.If(x.e >= 0, x.e, -x.e) * 2 / z3.RealVal(str(sigma)) / z3.RealVal(str(sigma))).exp()
                ctx.check(R.of(y) * (e + 1) == 1, "flip probability 1 / (1 + exp(|llr|))")
                ctx.check(s_and_(R.of(y) > 0, R.of(y) <= 0.5), "a probability of at most one half")
            else:
                ctx.check(eq(y, 1 / (1 + np.exp(abs(2 * x / sigma**2)))), "flip probability 1 / (1 + exp(|llr|))")

    return h


def s_and_(*x):
    return symx.s_and(*[symx.truth(i) for i in x])


def round_trip(ctx):
    """error rate -> sigma -> error rate is the identity for rates in (0, 1/2), and sigma is positive."""
    ser = ctx.real("ser", 0.0009765625, 0.4375)
    if not ctx.symbolic:
        sg = su.get_sigma_from_syndr_er(ser)
        ctx.check(sg > 0, "sigma is positive")
        ctx.check(eq(su.get_error_rate_from_sigma(sg), ser, 1e-6), "rate -> sigma -> rate")
        return
    fc, fi = z3.Function("erfc", z3.RealSort(), z3.RealSort()), z3.Function("erfcinv", z3.RealSort(), z3.RealSort())
    sol = ctx.solver

    def erfcinv(x):
        x = R.of(x)
        sol.add(z3.Implies(z3.And(x.e > 0, x.e < 1), z3.And(fc(fi(x.e)) == x.e, fi(x.e) > 0)))
        return R(fi(x.e))

    def erfc(x):
        x = R.of(x)
        return R(fc(x.e))

    k = [0]

    def sqrt(x):
        x = R.of(x)
        s = z3.Real(f"sqrt!{k[0]}")
        k[0] += 1
        sol.add(z3.Implies(x.e >= 0, z3.And(s >= 0, s * s == x.e)))
        return R(s)

    undo = patch((su, "np", NumpyProxy(sqrt=sqrt)), (su, "erfc", erfc), (su, "erfcinv", erfcinv), (su, "float", lambda x: x if isinstance(x, R) else float(x)))()
    try:
        sg = su.get_sigma_from_syndr_er(ser)
        ctx.check(sg > 0, "sigma is positive")
        back = su.get_error_rate_from_sigma(sg)
    finally:
        undo()
    # lemma: the argument handed to erfc is the value erfcinv returned (nonlinear real arithmetic, no functions)
    ctx.check(back == ser, "rate -> sigma -> rate")


def zero_rates(ctx):
    ctx.bit("unused")
    ctx.check(su.get_sigma_from_syndr_er(0.0) == 0.0 and su.get_error_rate_from_sigma(0.0) == 0.0, "no noise")


class FakeBp:
    iter = 1

    def __init__(self, *a, **k):
        self.pcm = k.get("parity_check_matrix", a[0] if a else None)
        self.channel_probs = k.get("channel_probs", a[1] if len(a) > 1 else None)
        self.updates, self.calls = [], []
        self.kw = k

    def update_channel_probs(self, c):
        self.channel_probs = c
        self.updates.append(c)

    def decode(self, s):
        self.calls.append((s, self.channel_probs))
        return ("answer", len(self.calls))


def decoder(m, n):
    def h(ctx):
        p = ctx.bits("h", m, n)
        chan = [ctx.real(f"p{i}", 0, 1) for i in range(n)]
        a = [[ctx.real(f"a{k}_{i}") for i in range(m)] for k in range(2)]
        seen = []

        def stub(noisy, sigma):
            seen.append(sigma)
            return arr(ctx, [("v" and (x * 3 + 1)) for x in flat(noisy)])

        undo = patch((atd, "bposd_decoder", FakeBp), (su, "get_virtual_check_init_vals", stub))()
        try:
            d = atd.AnalogTannergraphDecoder(p, BpParams(), arr(ctx, chan), sigma=0.75)
            bp = d.bposd_decoder
            for i in range(m):
                for j in range(n + m):
                    ctx.check(bp.pcm[i, j] == (p[i, j] if j < n else int(j - n == i)), "decodes on [H | 1]")
            for k in range(2):
                r = d.decode(arr(ctx, a[k]))
                ctx.check(r == ("answer", k + 1), "returns the decoder's answer")
                s, ch = bp.calls[k]
                ctx.check(len(flat(s)) == m and len(flat(ch)) == n + m, "lengths")
                for x, y in zip(flat(s), a[k]):
                    ctx.check(s_iff(S.of(x), symx.truth(y <= 0)), "thresholded syndrome is decoded")
                for j, y in enumerate(flat(ch)):
                    ctx.check(eq(y, chan[j] if j < n else a[k][j - n] * 3 + 1), "channel: data part and this syndrome's analog part", j)
            ctx.check(all(x == 0.75 for x in seen), "sigma")
            bad = 0
            for kw in ({}, {"sigma": 0.5, "ser": 0.1}):
                try:
                    atd.AnalogTannergraphDecoder(p, BpParams(), arr(ctx, chan), **kw)
                except ValueError:
                    bad += 1
            ctx.check(bad == 2, "exactly one of sigma and ser is required", bad)
        finally:
            undo()

    return h


def setup():
    return patch((su, "np", NumpyProxy()), (atd, "np", NumpyProxy()), (ss, "np", NumpyProxy()))()


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    for sh in ((1,), (4,), (2, 3)) + (((8,), (4, 4)) if big else ()):
        hs.append(Harness(f"threshold {sh}", threshold(sh), setup=setup, bounds="all real analog values", functions=FN, fallback=False))
        hs.append(Harness(f"signed {sh}", signed(sh), setup=setup, bounds="all binary syndromes", functions=FN))
        hs.append(Harness(f"noisy analog {sh}", noisy(sh), setup=setup, bounds="all syndromes, sigma in [0,10], all samples", functions=FN, fallback=False))
    hs.append(Harness("noiseless analog", noiseless(4), setup=setup, bounds="all syndromes", functions=FN))
    for m, n, ln in ((1, 2, 1), (2, 3, 1), (3, 4, 2)):
        hs.append(Harness(f"single stage {m}x{n} meta {ln}", single_stage(m, n, ln), setup=setup, bounds="all check and meta-check matrices", functions=FN))
        hs.append(Harness(f"analog pcm {m}x{n}", analog_pcm(m, n), setup=setup, bounds="all check matrices", functions=FN))
    for sg in (0.0, 0.5, 2.0, None):
        hs.append(Harness(f"llr sigma={sg}", llr(3, sg), setup=setup, bounds="all analog values; sigma in (0,10] or fixed", functions=FN, fallback=False))
    for sg in (0.0, 0.25, 0.5, 1.5, 2.0):
        hs.append(Harness(f"init values sigma={sg}", init_vals(2, sg), setup=setup, bounds="all analog values in [-4,4]", functions=FN, fallback=False))
    hs.append(Harness("rate to sigma and back", round_trip, bounds="rates in [1/1024, 7/16]", functions=FN, fallback=False, must_reach=["rate -> sigma -> rate"]))
    hs.append(Harness("zero rates", zero_rates, bounds="zero rate", functions=FN))
    for m, n in ((1, 2), (2, 3)) + (((3, 5),) if big else ()):
        hs.append(Harness(f"decoder {m}x{n}", decoder(m, n), setup=setup, bounds="all check matrices, channels, two analog syndromes in a row", functions=FN, fallback=False))
    return hs
