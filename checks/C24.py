"""C24: logical failures are counted exactly; the simulators decode the errors they sampled."""
from __future__ import annotations

import json
import os
import tempfile

import numpy as np

import C21
import gf2
import symx
from C21 import close, sarr1, xor
from mqt.qecc.analog_information_decoding.simulators import analog_tannergraph_decoding as atd
from mqt.qecc.analog_information_decoding.simulators import quasi_single_shot_v2 as qss
from mqt.qecc.analog_information_decoding.simulators import simulation as ss
from mqt.qecc.analog_information_decoding.utils import simulation_utils as su
from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams
from runner import Harness
from symx import NumpyProxy, R, S, patch, s_iff, s_not, s_or, sym_rank, symarray

ASSUMPTIONS = [
    "BP+OSD is an arbitrary decoder (free bits); sampled data and measurement errors are free bits (their distribution is C22)",
    "ldpc.mod2.rank is the GF(2) rank",
]
OUTSIDE = ["analog_info mode (its soft-information decoder is not part of the repository)", "convergence test thresholds", "decoding time"]
FN = ["is_logical_err", "check_logical_err_h", "SingleShotSimulator.__init__", "_single_sample", "_get_noisy_syndrome", "_single_stage_decoding", "_two_stage_decoding", "_meta_code_decoding", "_analog_tg_decoding",
      "_ss_analog_tg_decoding", "run", "save_results", "AtdSimulator.__init__", "AtdSimulator.single_sample", "AtdSimulator.run", "QssSimulator.run", "QssSimulator._single_sample"]

HX = [[1, 1, 1, 1], [1, 1, 1, 1]]
HZ = [[1, 1, 0, 0], [0, 0, 1, 1], [1, 1, 1, 1]]
MX, MZ = [[1, 1]], [[1, 1, 1]]
LX, LZ = [[1, 1, 0, 0]], [[1, 0, 1, 0]]
N = 4
PER, SER = 0.05, 0.04
BIAS = (1.0, 2.0, 5.0)
PX, PY, PZ = (PER * b / 8 for b in BIAS)
SX, SY, SZ = (SER * b / 8 for b in BIAS)


def npint(v):
    return np.array(v, dtype=np.int32)


# ---------------------------------------------------------------------------------------------------- predicates
def pred_l(k, n, oned=False):
    def h(ctx):
        L = ctx.bits("l", k, n)
        r = ctx.bits("r", n)
        rows = [list(x) for x in L]
        v = su.is_logical_err(L[0] if oned else L, r)
        want = s_or(*[S.of(xor(*[S.of(_p(a)) * S.of(_p(b)) for a, b in zip(row, r)])) for row in (rows[:1] if oned else rows)])
        ctx.check(s_iff(bool(v), want), "failure iff the residual anticommutes with a logical", v)
        ctx.count(f"verdict {bool(v)}")

    return h


def _p(x):
    return x if isinstance(x, S) else int(x)


def pred_h(m, n):
    def h(ctx):
        H = ctx.bits("h", m, n)
        e, d = ctx.bits("e", n), ctx.bits("d", n)
        r = [xor(_p(a), _p(b)) for a, b in zip(e, d)]
        v = su.check_logical_err_h(H, e, d)
        # some combination of the rows equals the residual
        rows = [[_p(x) for x in row] for row in H]
        combos = []
        for mask in range(1 << m):
            vec = [xor(*[rows[i][j] for i in range(m) if mask >> i & 1], 0) for j in range(n)]
            combos.append(symx.s_and(*[S.of(xor(a, b)) == 0 for a, b in zip(vec, r)]))
        ctx.check(s_iff(bool(v), s_not(s_or(*combos))), "failure iff the residual is no product of checks", v)
        ctx.check(v is True or v is False, "a Boolean verdict", repr(v))
        ctx.count(f"verdict {bool(v)}")

    return h


# ---------------------------------------------------------------------------------------------- single shot sample
class Bp:
    """Arbitrary decoder for one matrix."""

    iter = 2
    env = None

    def __init__(self, *a, **k):
        self.pcm = np.asarray(k.get("parity_check_matrix", a[0] if a else None)).astype(int)
        self.channel = k.get("channel_probs", a[1] if len(a) > 1 else None)
        self.key = tuple(map(tuple, self.pcm.tolist()))

    @property
    def channel_probs(self):
        return self.channel

    def update_channel_probs(self, c):
        self.channel = c

    def decode(self, s, *a, **k):
        ctx, calls = Bp.env
        i = len(calls.setdefault(self.key, []))
        name = "d" + "".join(str(x) for x in self.pcm.shape) + "_" + str(sum(map(sum, self.key)))
        v = list(ctx.bits(f"{name}_{i}_", self.pcm.shape[1]))
        calls[self.key].append((list(np.asarray(s, dtype=object).flat), list(np.asarray(self.channel, dtype=object).flat), v))
        return sarr1(ctx, v)


def key(m):
    return tuple(map(tuple, np.asarray(m).astype(int).tolist()))


def aug(h):
    return np.hstack([npint(h), np.identity(len(h), dtype=int)])


def stage(h, m):
    h, m = npint(h), npint(m)
    return np.block([[h, np.identity(h.shape[0], dtype=int)], [np.zeros((m.shape[0], h.shape[1]), dtype=int), m]])


def single_shot(single, analog, xm, zm, logicals, depth, noisy):
    def h(ctx):
        calls = {}
        Bp.env = (ctx, calls)
        st = {"e": 0, "x": 0, "z": 0}
        data, meas = [], {"x": [], "z": []}

        def gen_err(nr_qubits, channel_probs, residual_err):
            ctx.check(nr_qubits == N and all(np.allclose(np.asarray(c, dtype=float), p) for c, p in zip(channel_probs, (PX, PY, PZ))), "data errors follow the configured channel")
            t = st["e"]
            st["e"] += 1
            dx, dz = list(ctx.bits(f"ex{t}_", N)), list(ctx.bits(f"ez{t}_", N))
            data.append((dx, dz))
            return sarr1(ctx, [xor(a, b) for a, b in zip(residual_err[0], dx)]), sarr1(ctx, [xor(a, b) for a, b in zip(residual_err[1], dz)])

        def side_of(m):
            return "x" if m == len(HZ) else "z"

        def gen_syn(channel_probs):
            sd = side_of(len(channel_probs))
            ctx.check(np.allclose(np.asarray(channel_probs, dtype=float), SX + SY if sd == "x" else SZ + SY), "measurement errors follow the configured channel")
            t = st[sd]
            st[sd] += 1
            v = list(ctx.bits(f"m{sd}{t}_", len(channel_probs)))
            meas[sd].append(v)
            return sarr1(ctx, v)

        def noisy_analog(perfect_syndr, sigma):
            sd = side_of(len(perfect_syndr))
            t = st[sd]
            st[sd] += 1
            want = su.get_sigma_from_syndr_er(SX + SY if sd == "x" else SZ + SY) if noisy else 0.0
            ctx.check(abs(sigma - want) < 1e-12, "analog noise has the configured strength", (sd, sigma))
            v = list(ctx.bits(f"m{sd}{t}_", len(perfect_syndr))) if noisy else [0] * len(perfect_syndr)
            meas[sd].append(v)
            return sarr1(ctx, [(1 - 2 * xor(_p(b), x)) * (10 * t + i + 1) for i, (b, x) in enumerate(zip(perfect_syndr, v))], float)

        def init_vals(noisy_syndr, sigma):
            vals = list(np.asarray(noisy_syndr, dtype=object).flat)
            return sarr1(ctx, [x * 2 + (1 if len(vals) == len(HZ) else 0) for x in vals], float)

        trip = [(ss, "bposd_decoder", Bp), (ss, "get_outpath", lambda **k: "/nonexistent/out.json")]
        for mod in (ss, su):
            trip += [(mod, "generate_err", gen_err), (mod, "generate_syndr_err", gen_syn), (mod, "get_noisy_analog_syndrome", noisy_analog), (mod, "get_virtual_check_init_vals", init_vals)]
        undo = patch(*trip)()
        try:
            sim = ss.SingleShotSimulator(
                codename="c", per=PER, ser=SER if noisy else 0.0, single_stage=single, seed=1, bias=np.array(BIAS), x_meta=xm, z_meta=zm, sus_th_depth=depth, bp_params=BpParams(osd_method="osd0"),
                code_params={"n": N, "k": 1}, hx=npint(HX), hz=npint(HZ), mx=npint(MX) if xm else None, mz=npint(MZ) if zm else None, lz=npint(LZ) if logicals else None,
                lx=npint(LX) if logicals else None, analog_tg=analog)
            res = sim._single_sample()
        finally:
            undo()
        ctx.check(len(data) == depth + 1, "one data error per round", len(data))
        rx = verify(ctx, "x", calls, data, meas, HZ, MZ if zm else None)
        rz = verify(ctx, "z", calls, data, meas, HX, MX if xm else None)
        if logicals:
            fx = s_or(*[S.of(b) for b in gf2.matvec(LZ, rx)])
            fz = s_or(*[S.of(b) for b in gf2.matvec(LX, rz)])
        else:
            for b in gf2.matvec(HZ, rx) + gf2.matvec(HX, rz):
                ctx.assume(S.of(b) == 0)
            fx = s_not(gf2.in_rowspace(HX, rx, N))
            fz = s_not(gf2.in_rowspace(HZ, rz, N))
        ctx.check(s_iff(bool(res[0]), fx), "X failure iff the X residual is no stabilizer", res[0])
        ctx.check(s_iff(bool(res[1]), fz), "Z failure iff the Z residual is no stabilizer", res[1])

    def verify(ctx, sd, calls, data, meas, H, M):
        ix = 0 if sd == "x" else 1
        bit = PX + PY if sd == "x" else PZ + PY
        syn = (SX + SY if sd == "x" else SZ + SY) if noisy else 0.0
        m = len(H)
        pos = {}

        def call(mat, syndrome, channel, what):
            k = key(mat)
            i = pos.get(k, 0)
            pos[k] = i + 1
            lst = calls.get(k, [])
            ctx.check(len(lst) > i, f"{what} is decoded", (sd, i))
            got, chan, d = lst[i]
            ctx.check(len(got) == len(syndrome), "syndrome length")
            for a, b in zip(got, syndrome):
                ctx.check(S.of(_p(a) if not isinstance(a, (float, np.floating)) else a) == b, f"{what}: the decoder sees the syndrome of the current error", (sd, i))
            ctx.check(len(chan) == len(channel), "channel length")
            for a, b in zip(chan, channel):
                ctx.check(close(ctx, a, b), f"{what}: channel of this error type", (sd, i))
            return d

        res = [0] * N
        for r in range(depth):
            err = [xor(a, b) for a, b in zip(res, data[r][ix])]
            mm = meas[sd][r] if noisy or analog else [0] * m
            s = [xor(a, b) for a, b in zip(gf2.matvec(H, err), mm)]
            anal = [((1 - 2 * b) * (10 * r + i + 1)) * 2 + (1 if m == len(HZ) else 0) for i, b in enumerate(s)]
            if single and M is not None:
                d = call(stage(H, M), s + gf2.matvec(M, s), [bit] * N + (anal if analog else [syn] * m), "single stage")
            else:
                if not single and M is not None:
                    f = call(M, gf2.matvec(M, s), [syn] * m, "meta check")
                    s = [xor(a, b) for a, b in zip(s, f)]
                d = call(aug(H) if analog else H, s, [bit] * N + (anal if analog else []), "noisy round")
            res = [xor(a, b) for a, b in zip(err, d[:N])]
        err = [xor(a, b) for a, b in zip(res, data[depth][ix])]
        d = call(H, gf2.matvec(H, err), [bit] * N, "perfect round")
        for k, v in pos.items():
            ctx.check(len(calls[k]) == v, "no further decoding", sd)
        return [xor(a, b) for a, b in zip(err, d)]

    return h


# -------------------------------------------------------------------------------------------------- ATD simulator
def atd_sample(by_sigma):
    def h(ctx):
        calls = {}
        Bp.env = (ctx, calls)
        e = {}
        m = {}
        sig = {}

        def gen_err(nr_qubits, channel_probs, residual_err):
            ctx.check(nr_qubits == N and all(np.allclose(np.asarray(c, dtype=float), p) for c, p in zip(channel_probs, (PX, PY, PZ))), "data errors follow the configured channel")
            ctx.check(s_not(s_or(*[S.of(_p(x)) for r in residual_err for x in r])), "a sample starts without residual error")
            t = len(e)
            e[t] = (list(ctx.bits(f"ex{t}_", N)), list(ctx.bits(f"ez{t}_", N)))
            return sarr1(ctx, e[t][0]), sarr1(ctx, e[t][1])

        def noisy_analog(perfect_syndr, sigma):
            sd = "x" if len(perfect_syndr) == len(HZ) else "z"
            t = len(m.setdefault(sd, []))
            sig.setdefault(sd, []).append(sigma)
            v = list(ctx.bits(f"m{sd}{t}_", len(perfect_syndr)))
            m[sd].append(v)
            return sarr1(ctx, [(1 - 2 * xor(_p(b), x)) * (10 * t + i + 1) for i, (b, x) in enumerate(zip(perfect_syndr, v))], float)

        def init_vals(noisy_syndr, sigma):
            sig.setdefault("x" if len(noisy_syndr) == len(HZ) else "z", []).append(sigma)
            return sarr1(ctx, [x * 2 for x in np.asarray(noisy_syndr, dtype=object).flat], float)

        undo = patch((atd, "bposd_decoder", Bp), (su, "generate_err", gen_err), (su, "get_noisy_analog_syndrome", noisy_analog), (su, "get_virtual_check_init_vals", init_vals))()
        try:
            kw = {"sigma": 0.5} if by_sigma else {"syndr_err_rate": SER}
            sim = atd.AtdSimulator(hx=npint(HX), lx=npint(LX), hz=npint(HZ), lz=npint(LZ), codename="c", seed=1, bp_params=BpParams(osd_method="osd0"), data_err_rate=PER, code_params={"n": N, "k": 1}, bias=np.array(BIAS), **kw)
            res = [sim.single_sample() for _ in range(2)]
        finally:
            undo()
        rate = su.get_error_rate_from_sigma(0.5) if by_sigma else SER
        for sd, frac in (("x", (BIAS[0] + BIAS[1]) / 8), ("z", (BIAS[2] + BIAS[1]) / 8)):
            want = su.get_sigma_from_syndr_er(rate * frac)
            ctx.check(len(sig[sd]) == 4 and all(abs(x - want) < 1e-12 for x in sig[sd]), "noise strength of this side everywhere", sd)
        for t in range(2):
            for ix, (sd, H, L, bit) in enumerate((("x", HZ, LZ, PX + PY), ("z", HX, LX, PZ + PY))):
                lst = calls[key(aug(H))]
                ctx.check(len(lst) == 2, "one decoding per sample and side", len(lst))
                got, chan, d = lst[t]
                err = e[t][ix]
                s = [xor(a, b) for a, b in zip(gf2.matvec(H, err), m[sd][t])]
                for a, b in zip(got, s):
                    ctx.check(S.of(_p(a)) == b, "the decoder sees the noisy syndrome of this sample", (sd, t))
                for j, a in enumerate(chan):
                    ctx.check(close(ctx, a, bit if j < N else (1 - 2 * s[j - N]) * (10 * t + j - N + 1) * 2), "channel: data part and this sample's analog values", (sd, t, j))
                ctx.check(len(chan) == N + len(H), "channel length")
                fail = s_or(*[S.of(b) for b in gf2.matvec(L, [xor(a, b) for a, b in zip(err, d[:N])])])
                ctx.check(s_iff(bool(res[t][ix]), s_not(fail)), "success iff the residual is no logical error", (sd, t))

    return h


# ----------------------------------------------------------------------------------------------------- run() totals
def runs(which, samples, interval):
    def h(ctx):
        outs = []

        def bits():
            i = len(outs)
            v = (int(ctx.bit(f"a{i}")), int(ctx.bit(f"b{i}")))
            outs.append(v)
            return v

        d = tempfile.mkdtemp(prefix="c24")
        out = os.path.join(d, "o.json")
        trip = [(ss, "bposd_decoder", Bp), (atd, "bposd_decoder", Bp), (ss, "get_outpath", lambda **k: _touch(out))]
        undo = patch(*trip)()
        old = os.getcwd()
        try:
            os.chdir(d)
            kw = {"save_interval": interval, "eb_precision": 1e-9}
            if which == "single shot":
                sim = ss.SingleShotSimulator(codename="c", per=PER, ser=SER, single_stage=True, seed=1, bias=np.array(BIAS), x_meta=False, z_meta=False, sus_th_depth=1, bp_params=BpParams(osd_method="osd0"),
                                             code_params={"n": N, "k": 2}, hx=npint(HX), hz=npint(HZ), mx=None, mz=None, lz=npint(LZ), lx=npint(LX), **kw)
                sim._single_sample = lambda: tuple(bool(x) for x in bits())  # failures
            elif which == "atd":
                sim = atd.AtdSimulator(hx=npint(HX), lx=npint(LX), hz=npint(HZ), lz=npint(LZ), codename="c", seed=1, bp_params=BpParams(osd_method="osd0"), data_err_rate=PER, code_params={"n": N, "k": 2},
                                       bias=np.array(BIAS), syndr_err_rate=SER, output_path=out, **kw)
                sim.single_sample = lambda: tuple(not x for x in bits())  # successes
            else:
                sim = qss.QssSimulator(pcm=npint(HX[:1]), per=PER, ser=SER, logicals=npint(LX), bias=np.array(BIAS), codename="c", bp_params=BpParams(osd_method="osd0"), code_params={"n": N, "k": 2}, repetitions=2, rounds=2,
                                       check_side="X" if which == "qss X" else "Z", outpath=out, **kw)
                sim._single_sample = lambda: int(not bits()[0])
            r = sim.run(samples)
            with open(out) as f:
                saved = json.load(f)
        finally:
            os.chdir(old)
            undo()
            import shutil

            shutil.rmtree(d)
        nr = len(outs)
        for res, where in ((r, "returned"), (saved, "saved")):
            ctx.check(res["nr_runs"] == nr, f"{where} number of runs is the number of samples", (res["nr_runs"], nr))
            sides = [("x", 0), ("z", 1)] if which in ("single shot", "atd") else [("z" if which == "qss X" else "x", 0)]
            for sd, ix in sides:
                succ = sum(1 - o[ix] for o in outs)
                ctx.check(res[f"{sd}_success_cnt"] == succ, f"{where} success count is the number of successful samples", (sd, res[f"{sd}_success_cnt"], succ))
                ler = 1 - succ / nr
                ctx.check(abs(res[f"{sd}_ler"] - ler) < 1e-12, f"{where} logical error rate is the fraction of failures")
                ctx.check(abs(res[f"{sd}_ler_eb"] - (ler * (1 - ler) / nr) ** 0.5) < 1e-12, f"{where} error bar")
                ctx.check(abs(res[f"{sd}_wer"] - (1 - (1 - ler) ** 0.5)) < 1e-12, f"{where} word error rate")
        ctx.check(nr == samples, "all samples are taken before convergence", nr)

    return h


def _touch(p):
    open(p, "w").close()
    return p


def srank(m):
    return int(sym_rank(np.asarray(m, dtype=object))) if symx.has_sym(m) else gf2.rank(np.asarray(m).astype(int).tolist())


def setup():
    return patch((su, "np", NumpyProxy()), (su, "rank", srank))()


def setup_sim():
    return patch((su, "np", NumpyProxy(zeros_symbolic=False)), (atd, "np", NumpyProxy(zeros_symbolic=False)), (su, "rank", srank), (ss, "np", SNP()))()


def setup_atd():
    return patch((su, "np", NumpyProxy(zeros_symbolic=False)), (atd, "np", NumpyProxy(zeros_symbolic=False)))()


class SNP(NumpyProxy):
    def __init__(self):
        super().__init__(zeros_symbolic=False)


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    for k, n in ((1, 4), (2, 3), (3, 3)) + (((4, 5),) if big else ()):
        hs.append(Harness(f"predicate logicals {k}x{n}", pred_l(k, n), setup=setup, bounds="all logical matrices, all residuals", functions=FN, must_reach=["verdict True", "verdict False"]))
    hs.append(Harness("predicate logical row", pred_l(1, 5, True), setup=setup, bounds="all logical rows, all residuals", functions=FN, must_reach=["verdict True", "verdict False"]))
    for m, n in ((1, 3), (2, 3), (3, 3)) + (((3, 4),) if big else ()):
        hs.append(Harness(f"predicate checks {m}x{n}", pred_h(m, n), setup=setup, bounds="all check matrices, errors and estimates", functions=FN, must_reach=["verdict True", "verdict False"]))
    confs = []
    for single in (True, False):
        for analog in (True, False):
            for xm, zm in ((False, False), (True, False), (False, True), (True, True)):
                for lg in (True, False):
                    for noisy in (True, False):
                        if not lg and not noisy and not big:
                            continue
                        for depth in (1, 2) + ((0, 3) if big else ()):
                            if depth == 2 and not lg and not big:
                                continue
                            confs.append((single, analog, xm, zm, lg, depth, noisy))
    for c in confs:
        nm = f"single shot {'single' if c[0] else 'two'} stage{' analog' if c[1] else ''} meta={'x' * c[2]}{'z' * c[3]} logicals={c[4]} depth={c[5]} noisy={c[6]}"
        hs.append(Harness(nm, single_shot(*c), setup=setup_sim, bounds="all data and measurement errors, all decoder answers", functions=FN, must_reach=["X failure iff the X residual is no stabilizer"]))
    for b in (True, False):
        hs.append(Harness(f"atd sample sigma={b}", atd_sample(b), setup=setup_atd, bounds="all data and measurement errors, all decoder answers, two samples", functions=FN, must_reach=["success iff the residual is no logical error"]))
    for w in ("single shot", "atd", "qss X", "qss Z"):
        for smp, iv in ((1, 50), (3, 2)) + (((4, 3), (5, 1)) if big else ()):
            hs.append(Harness(f"run {w} {smp} {iv}", runs(w, smp, iv), bounds="all outcomes of the samples", functions=FN))
    for a in (("ring3", 2, 2, "bposd", "X"), ("ring3", 2, 2, "analog", "Z")):
        hs.append(Harness("quasi single shot " + " ".join(map(str, a)), C21.end_to_end(*a), setup=C21.setup_e2e, bounds="all errors and decoder answers", functions=FN, must_reach=["success iff the residual is no logical error"]))
    return hs
