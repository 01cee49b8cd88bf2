// C14: GF(2) linear algebra
static void hMul(size_t r, size_t c) {
    const Mat m = symMat("m", r, c);
    const Vec v = symVec("v", c);
    Vec       res(r, false);
    Utils::rectMatrixMultiply(m, v, res);
    ctx::check(vecEq(res, mulRef(m, v)), "product is the matrix times the vector");
    Vec pre = symVec("old", r);
    Utils::rectMatrixMultiply(m, v, pre);
    ctx::check(vecEq(pre, mulRef(m, v)), "the product is stored whatever the result vector held");
}
static void hMulDim() {
    const Mat m = symMat("m", 2, 3);
    for (const size_t n : {2U, 4U}) {
        const Vec v = symVec("v", n);
        Vec       res(2, false);
        ctx::check(throws([&] { Utils::rectMatrixMultiply(m, v, res); }), "a vector of the wrong length is rejected");
    }
    Vec small;
    ctx::check(throws([&] { Utils::rectMatrixMultiply(m, symVec("v", 3), small); }), "a result vector that is too short is rejected");
}
static void hTranspose(size_t r, size_t c) {
    const Mat m = symMat("m", r, c);
    const Mat t = Utils::getTranspose(m);
    Mat       ref(c, Vec(r));
    for (size_t i = 0; i < r; i++) {
        for (size_t j = 0; j < c; j++) {
            ref[j][i] = m[i][j];
        }
    }
    ctx::check(matEq(t, ref), "the transpose swaps rows and columns");
    ctx::check(matEq(Utils::getTranspose(t), m), "transposing twice gives the matrix back");
}
static void hCsc(size_t r, size_t c) {
    const Mat m   = symMat("m", r, c);
    const auto cs = Utils::toCsc(m);
    ctx::check(Bit(cs.size() == c), "one entry per column");
    for (size_t j = 0; j < c; j++) {
        std::vector<uint64_t> ref;
        for (size_t i = 0; i < r; i++) {
            if (val(m[i][j])) {
                ref.push_back(i);
            }
        }
        ctx::check(Bit(cs[j] == ref), "a column lists its non-zero rows in order");
    }
}
static void hRank(size_t r, size_t c) {
    const Mat  m  = symMat("m", r, c);
    const auto cs = Utils::toCsc(m);
    const auto p  = PluDecomposition(r, c, cs);
    const auto k  = rankRef(imat(m));
    ctx::check(Bit(p.getMatrixRank() == k), "rank", "got " + S(p.getMatrixRank()) + " expected " + S(k));
    ctx::reach("rank " + S(k));
}
static void hSolve(size_t r, size_t c) {
    const Mat m = symMat("m", r, c);
    const Vec x = symVec("x", c);
    const Vec y = mulRef(m, x); // a consistent system
    auto      p = PluDecomposition(r, c, Utils::toCsc(m));
    std::vector<uint64_t> yi;
    for (const auto& b : y) {
        yi.push_back(val(b) ? 1U : 0U);
    }
    for (int rep = 0; rep < 2; rep++) { // solving does not use up the decomposition
        const auto s = p.luSolve(yi);
        ctx::check(Bit(s.size() == c), "the solution has one entry per column");
        Vec sol;
        for (const auto e : s) {
            ctx::check(Bit(e <= 1), "the solution is a bit vector");
            sol.push_back(Bit(e != 0));
        }
        ctx::check(vecEq(mulRef(m, sol), y), "the solution of a consistent system satisfies it");
    }
}
static void hSolveDim() {
    const Mat m = symMat("m", 2, 2);
    auto      p = PluDecomposition(2, 2, Utils::toCsc(m));
    ctx::check(throws([&] { p.luSolve({1, 0, 1}); }), "a right-hand side of the wrong length is rejected");
}
static void hSpan(size_t r, size_t c) {
    const Mat m = symMat("m", r, c);
    const Vec v = symVec("v", c);
    const Bit got = Utils::isVectorInRowspace(m, v);
    const Bit ref = inSpanRef(m, v);
    ctx::check(beq(got, ref), "in the row space iff a sum of rows");
    ctx::reach(val(got) ? "inside" : "outside");
}
// fixed larger matrices, every vector
static void hSpanConst(const string& code) {
    const IMat im = CODE(code);
    const Mat  m  = toMat(im);
    const Vec  v  = symVec("v", im[0].size());
    // only as many free bits as can be followed: the others are fixed to zero by assumption
    const Bit got = Utils::isVectorInRowspace(m, v);
    ctx::check(beq(got, inSpanConst(im, v)), "in the row space iff a sum of rows");
    ctx::reach(val(got) ? "inside" : "outside");
}
static void hSwap(size_t r, size_t c) {
    const Mat m = symMat("m", r, c);
    for (size_t a = 0; a < r; a++) {
        for (size_t b = 0; b < r; b++) {
            Mat w = m;
            Utils::swapRows(w, a, b);
            Mat ref = m;
            ref[a]  = m[b];
            ref[b]  = m[a];
            ctx::check(matEq(w, ref), "exactly the two rows are exchanged");
        }
    }
}
static void hResidual(size_t n) {
    const Vec e = symVec("e", n);
    const Vec f = symVec("f", n);
    Vec       res = f;
    Utils::computeResidualErr(e, res);
    Vec ref;
    for (size_t i = 0; i < n; i++) {
        ref.push_back(bx(e[i], f[i]));
    }
    ctx::check(vecEq(res, ref), "the residual is the sum of error and estimate");
}
static void hText(size_t r, size_t c) {
    const Mat m = symMat("m", r, c);
    string    ref = S(r) + "x" + S(c) + "matrix [\n";
    for (size_t i = 0; i < r; i++) {
        string row = "[";
        for (size_t j = 0; j < c; j++) {
            row += (j ? "," : "") + string(val(m[i][j]) ? "1" : "0");
        }
        row += "]";
        ctx::check(Bit(Utils::getStringFrom(m[i]) == row), "text of a vector");
        ref += row + (i + 1 < r ? "," : "") + "\n";
    }
    ctx::check(Bit(Utils::getStringFrom(m) == ref + "]"), "text of a matrix");
}
static void hImport(size_t r, size_t c) {
    const Mat    m    = symMat("m", r, c);
    const string path = scratch() + "/m.txt";
    {
        std::ofstream f(path);
        for (const auto& row : m) {
            for (size_t j = 0; j < c; j++) {
                f << (j ? " " : "") << (val(row[j]) ? 1 : 0);
            }
            f << "\n";
        }
    }
    ctx::check(matEq(Utils::importGf2MatrixFromFile(path), m), "reading a written matrix gives it back");
    ctx::check(matEq(*ParityCheckMatrix(path).pcm, m), "a parity check matrix file gives the matrix");
    ctx::check(throws([&] { Utils::importGf2MatrixFromFile(path + ".missing"); }), "a missing file is rejected");
}
static void hNoise(size_t n) {
    const double p = 0.17;
    const Vec    v = Utils::sampleErrorIidPauliNoise(n, p);
    ctx::check(Bit(v.size() == n), "one bit per qubit");
    ctx::check(Bit(rngsym::bernoulliP.size() == n), "one draw per qubit");
    Vec ref;
    for (size_t i = 0; i < rngsym::bernoulliP.size(); i++) {
        ctx::check(Bit(rngsym::bernoulliP[i] == p), "every qubit has the given error rate");
        ref.push_back(ctx::bit("noise" + S(i)));
    }
    ctx::check(vecEq(v, ref), "bit i is the i-th draw");
}
static void hEmpty() {
    const Mat none;
    const Mat hollow(2);
    const Vec v(3, true);
    const Vec nil;
    const Mat m(2, v);
    ctx::check(throws([&] { Utils::isVectorInRowspace(none, v); }), "an empty matrix is rejected");
    ctx::check(throws([&] { Utils::isVectorInRowspace(hollow, v); }), "an empty matrix is rejected");
    ctx::check(throws([&] { Utils::isVectorInRowspace(m, nil); }), "an empty vector is rejected");
    ctx::check(throws([&] { Utils::isVectorInRowspace(m, Vec(2, true)); }), "a vector of the wrong length is rejected");
    ctx::check(throws([&] { Utils::isVectorInRowspace(m, Vec(4, true)); }), "a vector of the wrong length is rejected");
    ctx::check(throws([&] { Utils::getTranspose(none); }), "an empty matrix is rejected");
}
static void regGf2() {
    for (const auto& [r, c] : vector<std::pair<size_t, size_t>>{{1, 1}, {1, 4}, {4, 1}, {3, 4}, {4, 3}, {6, 8}, {8, 6}}) {
        const string d = S(r) + "x" + S(c);
        table["product " + d]   = [r = r, c = c] { hMul(r, c); };
        table["transpose " + d] = [r = r, c = c] { hTranspose(r, c); };
        table["swap " + d]      = [r = r, c = c] { hSwap(r, c); };
    }
    for (const auto& [r, c] : vector<std::pair<size_t, size_t>>{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}, {2, 5}, {5, 2}, {3, 4}, {4, 3}, {2, 6}, {6, 2}, {3, 5}, {4, 4}}) {
        const string d = S(r) + "x" + S(c);
        table["columns " + d] = [r = r, c = c] { hCsc(r, c); };
        table["rank " + d]    = [r = r, c = c] { hRank(r, c); };
        table["solve " + d]   = [r = r, c = c] { hSolve(r, c); };
        table["span " + d]    = [r = r, c = c] { hSpan(r, c); };
    }
    for (const string c : {"hamming", "rep5", "surf3", "toric8"}) {
        table["span " + c] = [c] { hSpanConst(c); };
    }
    table["product dimensions"] = hMulDim;
    table["solve dimensions"]   = hSolveDim;
    table["residual"]           = [] { hResidual(9); };
    table["text"]               = [] { hText(2, 3); };
    table["import"]             = [] { hImport(2, 4); };
    table["noise"]              = [] { hNoise(6); };
    table["empty"]              = hEmpty;
}
