"""C15: the C++ code object and the decoder's copy of it."""
import cppsym

ASSUMPTIONS = ["files are written to a scratch directory by the harness", "built-in codes read the files of /repo/examples/test"]
OUTSIDE = ["codes larger than listed", "commutation of X and Z checks (not checked by the constructor)", "malformed files other than listed"]
FN = ["Code::Code", "Code::getXSyndrome", "Code::getSyndrome", "Code::isStabilizer", "Code::isXStabilizer", "Code::setHx", "Code::setHz", "ParityCheckMatrix::getNbrs",
      "ParityCheckMatrix::ParityCheckMatrix", "Decoder::setCode", "SteaneCode", "SteaneXCode", "ToricCode8", "ToricCode18", "ToricCode32", "HGPcode"]


def harnesses(tier):
    th = tier == "thorough"
    out = []

    def add(n, b, reach=(), **k):
        out.append(cppsym.harness(n, bounds=b, must_reach=reach, functions=FN, **k))

    for d in ("1,1 x 3", "2,1 x 3", "1,2 x 4", "3,2 x 5", "2,4 x 7"):
        add(f"syndrome {d}", f"every pair of {d} check matrices and every error")
    for d in ("1,1 x 3", "2,1 x 3", "1,2 x 4"):
        add(f"file {d}", f"every pair of {d} check matrices")
    for d in ("1,1 x 2", "1,1 x 3", "2,1 x 2", "1,2 x 2") + (("2,1 x 3", "1,2 x 3", "2,2 x 2") if th else ()):
        add(f"stabilizer {d}", f"every pair of {d} check matrices and every operator", ["stabilizer", "no stabilizer"], paths=200000, seconds=600)
    for d in ("1 x 4", "2 x 3", "2 x 4", "3 x 3") + (("3 x 4",) if th else ()):
        add(f"X stabilizer {d}", f"every {d} check matrix and every vector", ["stabilizer", "no stabilizer"], paths=200000, seconds=600)
    for d in ("hamming", "shor-z", "surf3", "toric18", "toric8"):
        add(f"syndrome {d}", f"every error of the {d} code")
    for d in ("hamming", "shor-x", "surf3x", "toric8"):
        add(f"X stabilizer {d}", f"every operator of the {d} code", ["stabilizer", "no stabilizer"])
    for d in ("1 x 3", "2 x 3", "3 x 2", "2 x 4", "3 x 4"):
        add(f"neighbours {d}", f"every {d} check matrix")
    for d in ("constructor 3", "constructor 6", "set_code 3", "set_code 6"):
        add(d, "every entry of the check matrices")
    add("built-in codes", "the seven built-in codes", path_seconds=60)
    return out
