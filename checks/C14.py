"""C14: GF(2) linear algebra of the C++ core."""
import cppsym

ASSUMPTIONS = ["g++ 13 with libstdc++ assertions and AddressSanitizer; plain bool and the solver-backed Boolean behave alike (counterexamples are replayed on plain bool)"]
OUTSIDE = ["matrices larger than listed", "solutions of inconsistent systems"]
FN = ["Utils::rectMatrixMultiply", "Utils::getTranspose", "Utils::toCsc", "Utils::isVectorInRowspace", "Utils::swapRows", "Utils::computeResidualErr",
      "Utils::sampleErrorIidPauliNoise", "Utils::getStringFrom", "Utils::importGf2MatrixFromFile", "PluDecomposition::rref", "PluDecomposition::luSolve"]


def harnesses(tier):
    th = tier == "thorough"
    out = []
    for r, c in [(1, 1), (1, 4), (4, 1), (3, 4), (4, 3), (6, 8), (8, 6)]:
        for k in ("product", "transpose", "swap"):
            out.append(cppsym.harness(f"{k} {r}x{c}", bounds=f"every {r}x{c} matrix and vector, one path", functions=FN))
    sizes = [(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (2, 5), (5, 2)]
    for r, c in sizes + [(3, 4), (4, 3), (2, 6), (6, 2)] + ([(3, 5), (4, 4)] if th else []):
        out.append(cppsym.harness(f"columns {r}x{c}", paths=70000, seconds=200, bounds=f"every {r}x{c} matrix", functions=FN))
        out.append(cppsym.harness(f"rank {r}x{c}", paths=70000, seconds=300, bounds=f"every {r}x{c} matrix", must_reach=[f"rank {min(r, c)}", "rank 0"], functions=FN))
    for r, c in [x for x in sizes if th or x != (2, 5)] + ([(3, 4), (4, 3), (2, 6), (6, 2)] if th else []):
        out.append(cppsym.harness(f"solve {r}x{c}", paths=150000, seconds=600, bounds=f"every consistent {r}x{c} system", functions=FN))
        out.append(cppsym.harness(f"span {r}x{c}", paths=150000, seconds=600, bounds=f"every {r}x{c} matrix and vector", must_reach=["inside", "outside"], functions=FN))
    for m in ("hamming", "rep5", "surf3", "toric8"):
        out.append(cppsym.harness(f"span {m}", bounds=f"every vector for the {m} checks", must_reach=["inside", "outside"], functions=FN))
    for n in ("product dimensions", "solve dimensions", "residual", "text", "import", "noise", "empty"):
        out.append(cppsym.harness(n, bounds="sizes in the harness, all entries", functions=FN))
    return out
