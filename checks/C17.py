"""C17: decoders can be used again."""
import cppsym

ASSUMPTIONS = ["random growth choices are the same free choices for the used and the fresh decoder"]
OUTSIDE = ["more than two decodings (the state left by the first is compared with a fresh decoder's)", "codes larger than listed"]
FN = ["UFDecoder::decode", "UFDecoder::reset", "UFHeuristic::decode", "UFHeuristic::reset", "Decoder::setCode", "Decoder::setGrowth"]


def harnesses(tier):
    th = tier == "thorough"
    out = []
    for kind in ("uf", "heur"):
        growth = ("all", "invalid", "smallest", "random") + (("qubit",) if kind == "uf" else ())
        for g in growth:
            codes = ("hamming", "rep5", "ring4", "surf3", "shor-x", "toric8", "blocks") if th or g not in ("random", "qubit") else ("hamming", "ring4", "surf3")
            for c in codes + (("shor-z", "toric18") if th else ()):
                for r in ("", " reset"):
                    for b in ("", " both") if th or c in ("hamming", "surf3") else ("",):
                        out.append(cppsym.harness(f"reuse {kind} {g} {c}{r}{b}", paths=200000, seconds=400 if th else 60,
                                                  bounds="first error: " + ("at most one qubit, second at most two" if b else "any, second: any"), functions=FN))
            out.append(cppsym.harness(f"switch {kind} {g}", paths=20000, seconds=100, bounds="every error of the first and of the second code", functions=FN))
        out.append(cppsym.harness(f"reset early {kind}", bounds="reset before a code is set / before decoding; every error afterwards", functions=FN))
    return out
