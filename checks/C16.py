"""C16: union-find decoders."""
import cppsym

ASSUMPTIONS = ["every outcome of the random growth choices is explored (the generators are replaced by free choices)"]
OUTSIDE = [
    "the heuristic on errors other than listed (it is a heuristic: for other errors its estimate need not reproduce the syndrome) and its single-cluster growth variants, for which only termination, shape and consistency of the answer are claimed",
    "whether an estimate of the right syndrome is also logically right", "codes larger than listed",
]
FN = ["UFDecoder::decode", "UFDecoder::doDecode", "UFDecoder::isValidComponent", "UFDecoder::getEstimateForComponent", "UFDecoder::computeInteriorBitNodes",
      "UFDecoder::getConnectedComps", "UFHeuristic::decode", "UFHeuristic::doDecoding", "UFHeuristic::erasureDecoder", "TreeNode::Union", "Decoder::setCode", "PluDecomposition::luSolve"]
GROWTH = ("all", "invalid", "smallest", "random", "qubit")


def harnesses(tier):
    th = tier == "thorough"
    out = []

    def add(n, b, reach=(), **k):
        out.append(cppsym.harness(n, bounds=b, must_reach=reach, functions=FN, **k))

    both = ["trivial syndrome", "non-trivial syndrome"]
    for g in GROWTH:
        rnd = g in ("random", "qubit")
        for c in ("hamming", "rep5", "ring4", "surf3", "surf3x", "shor-z", "shor-x", "toric8", "blocks"):
            add(f"decode uf {g} {c}", f"every error of the {c} code", both, paths=50000, seconds=400 if th else 100)
        if th or not rnd:
            add(f"decode uf {g} toric18", "every error of the 3x3 toric code", both, paths=100000, seconds=600)
        else:
            add(f"decode uf {g} toric18 weight 1", "every single-qubit error of the 3x3 toric code", both, paths=20000, seconds=100)
        for c in ("hamming", "surf3", "shor-z"):
            w = "" if th or not rnd else " weight 1"
            add(f"decode both uf {g} {c}{w}", f"every pair of{' single-qubit' if w else ''} X and Z errors of the {c} code", paths=100000, seconds=600 if th else 100)
        for s in ("1x3", "2x3", "3x3", "2x4") + (("3x4",) if th else ()):
            add(f"decode uf {g} symbolic {s}", f"every {s} check matrix and every error", paths=200000, seconds=600 if th else 100)
    for g in ("all", "invalid"):
        for c in ("hamming", "steane-file", "surf3", "surf3x", "shor-z", "shor-x"):
            add(f"decode heur {g} {c}", f"every error of the {c} code", both, paths=20000, seconds=100)
        for c in ("rep5", "ring4", "toric8", "toric18", "blocks"):
            add(f"decode heur {g} {c} weight 1", f"every error of at most one qubit of the {c} code", both, paths=20000, seconds=100)
        for c in ("hamming", "surf3", "shor-z"):
            add(f"decode both heur {g} {c}", f"every pair of X and Z errors of the {c} code", paths=20000, seconds=100)
        add(f"decode heur {g} symbolic 1x3", "every 1x3 check matrix and every error", paths=20000, seconds=100)
    for g in ("all", "invalid", "smallest", "random"):
        for c in ("hamming", "rep5", "ring4", "surf3", "shor-z", "toric8", "toric18", "blocks"):
            add(f"answers heur {g} {c}", f"every error of the {c} code: the decoder ends with a well-formed answer", both, paths=20000, seconds=100)
        for s in ("2x3", "3x3") + (("3x4",) if th else ()):
            add(f"answers heur {g} symbolic {s}", f"every {s} check matrix and every error: the decoder ends with a well-formed answer", paths=50000, seconds=600 if th else 100)
    add("unsupported growth", "the heuristic with single-qubit growth, every error of the hamming code")
    return out
