"""C28: C++ decoding simulator."""
import cppsym

ASSUMPTIONS = ["random errors are free bits; the Bernoulli parameter of every draw is checked", "the decoders answer as in C16 (their estimate is recomputed by a fresh decoder)",
               "a clock with increasing readings"]
OUTSIDE = ["more runs, rates and codes than listed", "rates that agree in six decimals", "real running times", "the status field written by the runtime simulation (not evaluated there)"]
FN = ["DecodingSimulator::simulateWER", "DecodingSimulator::simulateAverageRuntime", "DecodingRunInformation::to_json", "Utils::sampleErrorIidPauliNoise", "Utils::computeResidualErr",
      "Code::isXStabilizer"]


def harnesses(tier):
    th = tier == "thorough"
    out = []
    for kind in ("uf", "heur"):
        for s in ("", " without statistics"):
            names = ["422 1 run, 3 rates", "3q 2 runs, 2 rates", "422 3 runs, 1 rate"]
            names += ["422 2 runs, 2 rates", "hamming 2 runs, 1 rate", "hamming 1 run, 2 rates", "shor-z 1 run, 1 rate"] if th else []
            for n in names:
                if s and not th and n != "3q 2 runs, 2 rates":
                    continue
                out.append(cppsym.harness(f"wer {kind} {n}{s}", paths=100000, seconds=600 if th else 150, must_reach=["corrected", "failed"], bounds="every error of every run", functions=FN))
        for n in ("2 runs of 2 samples", "2 runs of 1 sample, 2 codes", "1 run of 2 samples, 2 codes"):
            out.append(cppsym.harness(f"average runtime {kind} {n}", paths=100000, seconds=300, bounds="repetition codes on 2 (and 3) qubits, every error of every sample", functions=FN, must_reach=["averaged"]))
    return out
