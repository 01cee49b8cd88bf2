"""C21: multi-round check matrix and overlapping-window decoding are consistent with the error history."""
from __future__ import annotations

import numpy as np

import gf2
import symx
from mqt.qecc.analog_information_decoding.simulators import memory_experiment_v2 as mem
from mqt.qecc.analog_information_decoding.simulators import quasi_single_shot_v2 as qss
from mqt.qecc.analog_information_decoding.utils import simulation_utils as su
from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams
from runner import Harness
from symx import NumpyProxy, R, S, patch, s_iff, symarray

ASSUMPTIONS = [
    "the window decoder (BP+OSD, PyMatching) is replaced by an arbitrary decoder: its answer is a vector of free bits",
    "scipy.sparse block_diag / eye / hstack build the matrices they document (the built matrix itself is read back and used)",
    "random data and measurement errors are free bits; numpy object arrays compute exactly (no machine overflow)",
]
OUTSIDE = ["numbers of rounds that do not fill a whole number of windows (the simulator leaves the tail undecoded)", "BP/OSD and matching themselves", "the number of BP iterations that is averaged"]
FN = ["build_multiround_pcm", "move_syndrome", "decode_multiround", "get_updated_decoder", "QssSimulator.__init__", "QssSimulator._single_sample", "QssSimulator._decode_multiround", "get_binary_from_analog"]

PCM = {
    "rep3": [[1, 1, 0], [0, 1, 1]],
    "ring3": [[1, 1, 0], [0, 1, 1], [1, 0, 1]],
    "row": [[1, 0, 1, 1]],
    "hamming": [[1, 0, 1, 0, 1, 0, 1], [0, 1, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]],
    "tall": [[1, 0], [1, 1], [0, 1]],
}
LOG = {"rep3": [[1, 1, 1]], "ring3": [[1, 1, 1], [1, 0, 0]], "row": [[0, 1, 0, 0], [1, 0, 1, 1]], "hamming": [[1] * 7], "tall": [[1, 0]]}


def history(ctx, m, n, rounds):
    return [list(ctx.bits(f"e{t}_", n)) for t in range(rounds)], [list(ctx.bits(f"m{t}_", m)) for t in range(rounds)]


def xor(*xs):
    s = 0
    for x in xs:
        s = x + s
    return s % 2


def matrix(pcm, reps, fmt, arg):
    """M . history = difference syndromes (rounds 0..reps)."""

    def h(ctx):
        p = pcm
        if p is None:
            m_, n_ = 2, 3
            p = [[int(ctx.bit(f"h{i}{j}")) for j in range(n_)] for i in range(m_)]
        a = np.array(p, dtype=np.int32)
        if arg == "csr":
            from scipy.sparse import csr_matrix

            a = csr_matrix(a)
        m = mem.build_multiround_pcm(a, reps) if fmt is None else mem.build_multiround_pcm(a, reps, matrix_format=fmt)
        M = np.asarray(m.toarray() if hasattr(m, "toarray") else m)
        mm, n = len(p), len(p[0])
        rounds = reps + 1
        ctx.check(M.shape == (mm * rounds, (mm + n) * rounds), "shape", M.shape)
        ctx.check(bool(np.isin(M, (0, 1)).all()), "entries are bits")
        es, ms = history(ctx, mm, n, rounds)
        got = gf2.matvec(M.astype(int).tolist(), [b for e in es for b in e] + [b for x in ms for b in x])
        for t in range(rounds):
            he = gf2.matvec(p, es[t])
            for i in range(mm):
                want = xor(he[i], ms[t][i], ms[t - 1][i] if t else 0)
                ctx.check(S.of(got[t * mm + i]) == want, "difference syndrome of the history", (t, i))

    return h


def move(m, T, dt):
    def h(ctx):
        s = ctx.bits("s", m, 2 * T) if dt == "bits" else symarray([[ctx.real(f"r{i}_{j}") for j in range(2 * T)] for i in range(m)])
        if not ctx.symbolic and dt != "bits":
            s = np.array([[float(x) for x in r] for r in s], dtype=np.float64)
        keep = [[x for x in r] for r in s]
        out = mem.move_syndrome(s) if dt == "bits" else mem.move_syndrome(s, data_type=np.float64)
        ctx.check(np.shape(out) == (m, 2 * T), "shape", np.shape(out))
        for i in range(m):
            for t in range(2 * T):
                want = keep[i][t + T] if t < T else 0
                ctx.check(out[i, t] == want, "second half moves to the front, rest is cleared", (i, t))

    return h


class Decoder:
    """Arbitrary decoder: records its input and channel, answers with free bits."""

    iter = 3

    def __init__(self, ctx, size, log):
        self.ctx, self.size, self.log, self.k, self.channel = ctx, size, log, 0, None

    def update_channel_probs(self, ch):
        self.channel = ch

    def decode(self, s, *a, **k):
        v = list(self.ctx.bits(f"d{self.k}_", self.size))
        self.k += 1
        self.log.append((list(np.asarray(s, dtype=object).flat), self.channel, v))
        if self.ctx.symbolic:
            return symarray(v)
        return np.array(v, dtype=np.int32)


def fake_matching(ctx, log, weights_log):
    class Matching(Decoder):
        n = 0

        def __init__(self, h, weights=None, **kw):
            super().__init__(ctx, h.shape[1], log)
            weights_log.append(weights)
            Matching.n += 1
            self.k = 100 * Matching.n
            self.channel = weights

    return Matching


def sarr(ctx, rows, dt=np.int32):
    return symarray(rows) if ctx.symbolic else np.array([[x for x in r] for r in rows], dtype=dt)


def close(ctx, a, b):
    if isinstance(a, (R, S)) or isinstance(b, (R, S)):
        return R.of(a) == R.of(b)
    return abs(float(a) - float(b)) < 1e-9 * max(1.0, abs(float(b)))


def window(pname, reps, last, mode):
    """decode_multiround on an arbitrary recorded window and an arbitrary decoder answer."""
    p = PCM[pname]
    m, n = len(p), len(p[0])

    def h(ctx):
        s = [list(ctx.bits(f"s{i}_", reps)) for i in range(m)]
        keep = [list(r) for r in s]
        log, wlog = [], []
        chan = np.array([0.01 * (i + 1) for i in range((n + m) * reps)])
        dec = Decoder(ctx, (n + m) * reps, log)
        dec.channel = "stale"
        analog = None
        undo = lambda: None  # noqa: E731
        marks = None
        trip = [(mem, "Matching", fake_matching(ctx, log, wlog))]
        if mode.startswith("analog"):
            vals = [[(i * reps + t + 1) * (-1) ** (i + t) for t in range(reps)] for i in range(m)]
            if mode == "analog-bposd":
                analog = symarray([[ctx.real(f"a{i}_{t}") for t in range(reps)] for i in range(m)])
                if not ctx.symbolic:
                    analog = np.array([[float(x) for x in r] for r in analog])
            else:
                analog = np.array(vals, dtype=float)
            flat = [analog[i, t] for t in range(reps) for i in range(m)]
            seen = []

            def stub(noisy, sigma):
                seen.append((list(np.asarray(noisy, dtype=object).flat), sigma))
                return np.array([0.001 * (k + 1) for k in range(m * reps)])

            trip += [(mem, "get_virtual_check_init_vals", stub), (su, "get_virtual_check_init_vals", stub)]
            marks = seen
        undo = patch(*trip)()
        meth = "matching" if "matching" in mode else "bposd"
        if meth == "matching" and analog is None and not last:
            dec.channel = "given"
        try:
            out = mem.decode_multiround(
                syndrome=sarr(ctx, s), pcm=np.array(p), decoder=dec, channel_probs=chan, repetitions=reps,
                analog_syndr=analog, last_round=last, check_block_size=n * reps, sigma=0.5,
                h3d=mem.build_multiround_pcm(np.array(p), reps - 1), decoding_method=meth)
        finally:
            undo()
        ctx.check(len(log) == 1, "decoder called once", len(log))
        got, channel, d = log[0]
        ctx.check(len(got) == m * reps, "length of the decoded syndrome")
        for t in range(reps):
            for i in range(m):
                want = xor(keep[i][t], keep[i][t - 1] if t else 0)
                ctx.check(S.of(got[t * m + i]) == want, "decoder sees the difference syndrome", (t, i))
        # channel used by the decoder
        base = list(chan)
        if marks is not None:
            ctx.check(len(marks) >= 1, "analog values are converted")
            vals_seen, sg = marks[-1]
            ctx.check(sg == 0.5, "sigma passed on")
            ctx.check(len(vals_seen) == m * reps, "all analog values")
            for a, b in zip(vals_seen, flat):
                ctx.check(close(ctx, a, b), "analog values follow the column order of the matrix")
            base = list(chan[: n * reps]) + [0.001 * (k + 1) for k in range(m * reps)]
        if last:
            base[-m:] = [1e-15] * m
        if meth == "matching":
            if marks is not None or last:
                want_w = np.log((1 - np.array(base)) / np.array(base))
                ctx.check(np.allclose(np.asarray(channel, dtype=float), want_w), "matching weights are the log-likelihoods of the channel")
            else:
                ctx.check((isinstance(channel, str) and channel == "given") or np.allclose(np.asarray(channel, dtype=float), np.log((1 - np.array(base)) / np.array(base))), "decoder with the configured weights is used")
        else:
            ctx.check(channel is not None and not isinstance(channel, str) and len(channel) == len(base), "channel set for this window", str(channel)[:40])
            for a, b in zip(channel, base):
                ctx.check(close(ctx, a, b), "channel: data part, measurement part, perfect last round")
        T = reps if last else reps // 2
        corr = [xor(*[d[t * n + q] for t in range(T)]) for q in range(n)]
        for q in range(n):
            ctx.check(S.of(out[0][q]) == corr[q], "estimate accumulates the accepted rounds", q)
        if not last:
            hc = gf2.matvec(p, corr)
            new = out[1]
            for i in range(m):
                for t in range(reps // 2, reps):
                    ctx.check(S.of(new[i, t]) == xor(keep[i][t], hc[i]), "tentative syndromes are updated by the committed correction", (i, t))
        if analog is not None:
            for i in range(m):
                for t in range(reps):
                    ctx.check(close(ctx, out[2][i, t], flat[t * m + i]), "analog values unchanged")

    return h


XYZ = [1.0, 2.0, 5.0]  # relative rates of X, Y and Z errors


def end_to_end(pname, reps, windows, mode, side, samples=1):
    """The simulator with arbitrary errors and arbitrary decoder answers."""
    p, L = PCM[pname], LOG[pname]
    m, n = len(p), len(p[0])
    T = reps // 2
    rounds = reps + (windows - 1) * T
    share = ((XYZ[2] if side == "X" else XYZ[0]) + XYZ[1]) / 8  # X checks see Z and Y errors

    def h(ctx):
        log, wlog = [], []
        meth = "matching" if "matching" in mode else "bposd"
        analog = mode.startswith("analog")
        Mt = fake_matching(ctx, log, wlog)
        trip = [(mem, "Matching", Mt), (qss, "Matching", Mt)]
        state = {"t": 0, "m": 0}
        es, ms, clean = [], [], []

        def gen_err(nr_qubits, channel_probs, residual_err):
            t = state["t"]
            state["t"] += 1
            d = list(ctx.bits(f"e{t}_", n))
            es.append(d)
            ctx.check(nr_qubits == n and all(len(c) == n and np.allclose(np.asarray(c, dtype=float), 0.05 * b / 8) for c, b in zip(channel_probs, XYZ)), "data errors follow the configured channel")
            o = [xor(residual_err[0][i], d[i]) for i in range(n)], [xor(residual_err[1][i], d[i]) for i in range(n)]
            junk = [0] * n  # the other side is irrelevant
            pick = (sarr1(ctx, o[0]), sarr1(ctx, junk)) if side == "Z" else (sarr1(ctx, junk), sarr1(ctx, o[1]))
            return pick

        def gen_syn(channel_probs):
            t = state["m"]
            state["m"] += 1
            v = list(ctx.bits(f"m{t}_", m))
            ms.append(v)
            ctx.check(np.allclose(np.asarray(channel_probs, dtype=float), 0.04 * share), "measurement errors follow the configured channel")
            return sarr1(ctx, v)

        def noisy_analog(perfect_syndr, sigma):
            t = state["m"]
            state["m"] += 1
            v = list(ctx.bits(f"m{t}_", m)) if sigma else [0] * m
            ms.append(v)
            ctx.check(sigma == 0 or abs(sigma - su.get_sigma_from_syndr_er(0.04 * share)) < 1e-12, "analog noise has the configured strength", sigma)
            a = [(1 - 2 * xor(b, x)) * (10 * t + i + 1) for i, (b, x) in enumerate(zip(perfect_syndr, v))]
            return sarr1(ctx, a, float)

        def init_vals(noisy, sigma):
            return sarr1(ctx, list(np.asarray(noisy, dtype=object).flat), float)  # the values themselves, to be recognised below

        for mod in (qss, su):
            trip += [(mod, "generate_err", gen_err), (mod, "generate_syndr_err", gen_syn), (mod, "get_noisy_analog_syndrome", noisy_analog)]
        if analog:
            trip += [(mem, "get_virtual_check_init_vals", init_vals), (su, "get_virtual_check_init_vals", init_vals)]
        undo = patch(*trip)()
        try:
            sim = qss.QssSimulator(
                pcm=np.array(p), per=0.05, ser=0.04, logicals=np.array(L), bias=np.array(XYZ), codename="x", bp_params=BpParams(osd_method="osd0"),
                code_params={"n": n, "k": len(L), "d": 1}, decoding_method=meth, check_side=side, analog_tg=analog, repetitions=reps, rounds=rounds, outpath="/nonexistent/x")
            if meth == "bposd":
                H3 = np.asarray(sim.decoder.parity_check_matrix.toarray() if hasattr(sim.decoder, "parity_check_matrix") and hasattr(sim.decoder.parity_check_matrix, "toarray") else sim.H3D.toarray())
                ch0 = np.asarray(sim.decoder.channel_probs, dtype=float).ravel()
                sim.decoder = Decoder(ctx, (n + m) * reps, log)
                sim.decoder.channel = ch0
            else:
                H3 = np.asarray(sim.H3D.toarray())
                ch0 = None
            ctx.check(H3.shape == (m * reps, (m + n) * reps), "decoder works on the multi-round matrix", H3.shape)
            for _ in range(samples):
                start = len(log)
                es.clear()
                ms.clear()
                res = sim._single_sample()
                verify(ctx, es, ms, log[start:], res, ch0, meth, analog)
                if samples > 1:
                    ctx.count("sample")
        finally:
            undo()

    def verify(ctx, es, ms, calls, res, ch0, meth, analog):
        ctx.check(len(es) == rounds, "one data error per round", len(es))
        ctx.check(len(calls) == windows, "one decoding per window", len(calls))
        ms = list(ms) + [[0] * m for _ in range(rounds - len(ms))]
        corr = [0] * n
        E = []
        acc = [0] * n
        for t in range(rounds):
            acc = [xor(a, b) for a, b in zip(acc, es[t])]
            E.append(acc)
        pdat, psyn = 0.05 * share, 0.04 * share
        for k, (got, channel, d) in enumerate(calls):
            lastw = k == windows - 1
            ts = range(k * T, k * T + reps)
            cols, pure = [], []
            for t in ts:
                pure.append(gf2.matvec(p, [xor(a, c) for a, c in zip(E[t], corr)]))
                mt = ms[t] if t < rounds - 1 else [0] * m
                cols.append([xor(a, b) for a, b in zip(pure[-1], mt)])
            for j in range(reps):
                for i in range(m):
                    want = xor(cols[j][i], cols[j - 1][i] if j else 0)
                    ctx.check(S.of(got[j * m + i]) == want, "window syndromes belong to the corrected state", (k, j, i))
            if meth == "bposd":
                ctx.check(len(channel) == (n + m) * reps, "channel length")
                for j in range(n * reps):
                    ctx.check(close(ctx, channel[j], pdat), "data channel", (k, j))
                for j in range(reps):
                    for i in range(m):
                        c = channel[n * reps + j * m + i]
                        if lastw and j == reps - 1:
                            ctx.check(close(ctx, c, 1e-15), "the last round is perfect", (k, j))
                        elif not analog:
                            ctx.check(close(ctx, c, psyn), "syndrome channel", (k, j))
                        else:
                            mag = 10 * ts[j] + i + 1
                            # the analog value as measured in that round (sign before later corrections)
                            ctx.check(close(ctx, abs_(c), mag), "analog value of the round it was measured in", (k, j))
            elif not analog:
                ctx.check(len(channel) == (n + m) * reps, "channel length")
                for j in range((n + m) * reps):
                    w = pdat if j < n * reps else 1e-15 if lastw and j >= (n + m) * reps - m else psyn
                    ctx.check(close(ctx, channel[j], float(np.log((1 - w) / w))), "matching weights are those of the channel", (k, j))
            steps = reps if lastw else T
            corr = [xor(c, *[d[t * n + q] for t in range(steps)]) for q, c in enumerate(corr)]
        fin = [xor(a, c) for a, c in zip(E[-1], corr)]
        bad = 0
        from symx import s_or

        bad = s_or(*[S.of(x) for x in gf2.matvec(L, fin)])
        ctx.check(s_iff(bool(res), 1 - S.of(bad)), "success iff the residual is no logical error", res)

    return h


def abs_(x):
    if isinstance(x, S):
        return abs(R.of(x))
    return abs(x)


def sarr1(ctx, v, dt=np.int32):
    return symarray(list(v)) if ctx.symbolic else np.array([x for x in v], dtype=dt)


def setup():
    import sys

    t = []
    for m in (mem, qss, su):
        t.append((m, "np", NumpyProxy()))
    return patch(*t)()


def setup_e2e():
    return patch((mem, "np", NumpyProxy(zeros_symbolic=True)), (su, "np", NumpyProxy(zeros_symbolic=False)), (qss, "np", QNP()))()


class QNP(NumpyProxy):
    """Only integer zeros (syndrome matrix, error) hold symbolic entries; float arrays stay numeric unless they are analog syndromes."""

    def __init__(self):
        super().__init__(zeros_symbolic=True)

    def _f_zeros(self, shape, dtype=float, **k):
        return np.zeros(shape, dtype=float) if np.ndim(shape) == 0 and dtype in (float, np.float64) else NumpyProxy._f_zeros(self, shape, dtype)


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    for nm, p in PCM.items():
        for reps in (0, 1, 2, 3) + ((4, 6) if big else ()):
            hs.append(Harness(f"matrix {nm} {reps}", matrix(p, reps, None, "np"), bounds="all data and measurement error histories", functions=FN, must_reach=["difference syndrome of the history"]))
    hs.append(Harness("matrix csr input, csc format", matrix(PCM["ring3"], 2, "csc", "csr"), bounds="all histories", functions=FN))
    hs.append(Harness("matrix every 2x3 pcm", matrix(None, 2 if big else 1, None, "np"), bounds="every 2x3 check matrix, all histories", functions=FN))
    for m, T in ((1, 1), (2, 2), (3, 3)):
        hs.append(Harness(f"move bits {m} {T}", move(m, T, "bits"), setup=setup, bounds="all syndrome matrices", functions=FN))
        hs.append(Harness(f"move reals {m} {T}", move(m, T, "reals"), setup=setup, bounds="all analog syndrome matrices", functions=FN))
    for nm, reps in (("rep3", 2), ("rep3", 4), ("row", 4), ("tall", 2)) + ((("ring3", 6), ("hamming", 6), ("rep3", 8)) if big else ()):
        for last in (False, True):
            for mode in ("bposd", "matching", "analog-bposd", "analog-matching"):
                hs.append(Harness(f"window {nm} {reps} last={last} {mode}", window(nm, reps, last, mode), setup=setup, bounds="all recorded syndromes, all decoder answers, all analog values (bposd)", functions=FN,
                                  must_reach=["decoder sees the difference syndrome", "estimate accumulates the accepted rounds"]))
    e2e = [("rep3", 2, 1, "bposd", "X"), ("rep3", 2, 3, "bposd", "Z"), ("rep3", 4, 2, "bposd", "X"), ("row", 4, 3, "analog", "X"), ("rep3", 2, 3, "analog", "Z"), ("tall", 4, 2, "matching", "X"), ("ring3", 2, 2, "matching", "Z")]
    if big:
        e2e += [("hamming", 4, 3, "bposd", "X"), ("hamming", 6, 3, "analog", "Z"), ("ring3", 6, 4, "bposd", "Z"), ("rep3", 4, 6, "analog", "X"), ("rep3", 8, 2, "matching", "X")]
    for a in e2e:
        hs.append(Harness("simulation " + " ".join(map(str, a)), end_to_end(*a), setup=setup_e2e, bounds="all data errors, measurement errors and decoder answers in every round", functions=FN,
                          must_reach=["window syndromes belong to the corrected state", "success iff the residual is no logical error"]))
    hs.append(Harness("simulation two samples", end_to_end("rep3", 2, 2, "bposd", "X", 2), setup=setup_e2e, bounds="all errors and answers, second sample after the first on the same simulator", functions=FN, must_reach=["sample"]))
    return hs
