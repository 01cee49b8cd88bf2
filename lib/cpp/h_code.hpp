// C15: the code object
static void writeMat(const string& path, const Mat& m) {
    std::ofstream f(path);
    for (const auto& row : m) {
        for (size_t j = 0; j < row.size(); j++) {
            f << (j ? " " : "") << (val(row[j]) ? 1 : 0);
        }
        f << "\n";
    }
}
static void hSyndrome(size_t rx, size_t rz, size_t n) {
    Mat        hx = symMat("hx", rx, n);
    Mat        hz = symMat("hz", rz, n);
    const Code c(hx, hz);
    const Vec  x = symVec("x", n);
    const Vec  z = symVec("z", n);
    ctx::check(Bit(c.getN() == n), "number of qubits");
    ctx::check(vecEq(c.getXSyndrome(x), mulRef(hz, x)), "X errors are detected by the Z checks");
    const Vec both = cat(mulRef(hz, x), mulRef(hx, z));
    ctx::check(vecEq(c.getSyndrome(x, z), both), "two-sided syndrome");
    ctx::check(vecEq(c.getXSyndrome(cat(x, z)), both), "syndrome of a symplectic vector");
    Code s(hz);
    ctx::check(vecEq(s.getXSyndrome(x), mulRef(hz, x)), "single-sided code");
    ctx::check(Bit(s.getN() == n), "number of qubits");
    ctx::check(throws([&] { s.isXStabilizer(x); }), "no stabilizer test without X checks");
    for (const size_t len : {static_cast<size_t>(0), n - 1, n + 1, 2 * n - 1, 2 * n + 1}) {
        if (len != n && len != 2 * n) {
            ctx::check(throws([&] { c.getXSyndrome(Vec(len, true)); }), "errors of the wrong length are rejected", S(len));
        }
    }
    ctx::check(throws([&] { c.getSyndrome(x, Vec(n + 1)); }), "errors of the wrong length are rejected");
    ctx::check(throws([&] { c.getSyndrome(Vec(n + 1), z); }), "errors of the wrong length are rejected");
}
// large fixed codes: all errors
static void hSyndromeConst(const string& xn, const string& zn) {
    Mat        hx = toMat(CODE(xn));
    Mat        hz = toMat(CODE(zn));
    const Code c(hx, hz);
    const Vec  x    = symVec("x", c.getN());
    const Vec  z    = symVec("z", c.getN());
    const Vec  both = cat(mulRef(hz, x), mulRef(hx, z));
    ctx::check(vecEq(c.getXSyndrome(x), mulRef(hz, x)), "X errors are detected by the Z checks");
    ctx::check(vecEq(c.getSyndrome(x, z), both), "two-sided syndrome");
    ctx::check(vecEq(c.getXSyndrome(cat(x, z)), both), "syndrome of a symplectic vector");
}
static void hStab(size_t rx, size_t rz, size_t n) {
    Mat        hx = symMat("hx", rx, n);
    Mat        hz = symMat("hz", rz, n);
    const Code c(hx, hz);
    const Vec  x = symVec("x", n);
    const Vec  z = symVec("z", n);
    const Bit  a = c.isStabilizer(x, z);
    ctx::check(beq(a, ba(inSpanRef(hx, x), inSpanRef(hz, z))), "stabilizer iff X part and Z part are sums of rows");
    const Bit b = c.isStabilizer(cat(x, z));
    ctx::check(beq(b, ba(inSpanRef(hx, x), inSpanRef(hz, z))), "symplectic vector");
    ctx::reach(val(a) ? "stabilizer" : "no stabilizer");
}
static void hStabX(size_t rx, size_t n) {
    Mat        hx = symMat("hx", rx, n);
    Mat        hz = symMat("hz", 1, n);
    const Code c(hx, hz);
    const Vec  x = symVec("x", n);
    const Bit  a = c.isXStabilizer(x);
    ctx::check(beq(a, inSpanRef(hx, x)), "X stabilizer iff a sum of X checks");
    const Bit b = c.isStabilizer(x);
    ctx::check(beq(b, inSpanRef(hx, x)), "a vector of length n is an X operator");
    ctx::reach(val(a) ? "stabilizer" : "no stabilizer");
}
static void hStabConst(const string& xn, const string& zn) {
    const IMat ix = CODE(xn);
    Mat        hx = toMat(ix);
    Mat        hz = toMat(CODE(zn));
    const Code c(hx, hz);
    const Vec  x = symVec("x", c.getN());
    const Bit  a = c.isXStabilizer(x);
    ctx::check(beq(a, inSpanConst(ix, x)), "X stabilizer iff a sum of X checks");
    ctx::reach(val(a) ? "stabilizer" : "no stabilizer");
}
static void hNbrs(size_t r, size_t n) {
    Mat               h = symMat("h", r, n);
    ParityCheckMatrix p(h);
    for (int rep = 0; rep < 2; rep++) { // second round: answered from the cache
        for (size_t v = 0; v < n + r; v++) {
            std::vector<size_t> ref;
            for (size_t o = 0; o < n + r; o++) {
                const bool edge = (v < n && o >= n && val(h[o - n][v])) || (v >= n && o < n && val(h[v - n][o]));
                if (edge) {
                    ref.push_back(o);
                }
            }
            auto got = p.getNbrs(v);
            std::sort(got.begin(), got.end());
            ctx::check(Bit(got == ref), "neighbours are the adjacent nodes of the Tanner graph", "node " + S(v));
        }
    }
}
static void hFile(size_t rx, size_t rz, size_t n) {
    const Mat    hx = symMat("hx", rx, n);
    const Mat    hz = symMat("hz", rz, n);
    const string fx = scratch() + "/hx.txt";
    const string fz = scratch() + "/hz.txt";
    writeMat(fx, hx);
    writeMat(fz, hz);
    Code c(fx, fz);
    ctx::check(matEq(c.getHxMat(), hx), "X checks as in the file");
    ctx::check(matEq(c.getHzMat(), hz), "Z checks as in the file");
    ctx::check(Bit(c.getN() == n), "number of qubits");
    Code s(fz);
    ctx::check(matEq(s.getHzMat(), hz), "Z checks as in the file");
    ctx::check(Bit(s.getN() == n && !s.gethX()), "single-sided code");
    const string bad = scratch() + "/bad.txt";
    writeMat(bad, Mat(1, Vec(n + 1, true)));
    ctx::check(throws([&] { const Code q(fx, bad); }), "check matrices of different width are rejected");
    ctx::check(throws([&] { const Code q(bad, fz); }), "check matrices of different width are rejected");
    ctx::check(throws([&] { const Code q(fx, fx + ".missing"); }), "a missing file is rejected");
    ctx::check(throws([&] { const Code q(fx + ".missing", fz); }), "a missing file is rejected");
    ctx::check(throws([&] { const Code q(fx + ".missing"); }), "a missing file is rejected");
}
static void hCtor(size_t n) {
    Mat hx = symMat("hx", 2, n);
    Mat hz = symMat("hz", 1, n);
    Mat wide(1, Vec(n + 1, true));
    Mat none;
    Mat hollow(1);
    ctx::check(throws([&] { const Code q(hx, wide); }), "check matrices of different width are rejected");
    ctx::check(throws([&] { const Code q(wide, hz); }), "check matrices of different width are rejected");
    ctx::check(throws([&] { const Code q(none, hz); }), "empty check matrices are rejected");
    ctx::check(throws([&] { const Code q(hx, none); }), "empty check matrices are rejected");
    ctx::check(throws([&] { const Code q(hollow, hz); }), "empty check matrices are rejected");
    ctx::check(throws([&] { const Code q(none); }), "empty check matrices are rejected");
    ctx::check(throws([&] { const Code q(hollow); }), "empty check matrices are rejected");
    Code c(hx, hz);
    ctx::check(matEq(c.getHxMat(), hx), "the X checks given");
    ctx::check(matEq(c.getHzMat(), hz), "the Z checks given");
    Mat ox = symMat("ox", 1, n);
    Mat oz = symMat("oz", 2, n);
    c.setHx(ox);
    ctx::check(ba(matEq(c.getHxMat(), ox), matEq(c.getHzMat(), hz)), "setHx replaces the X checks only");
    c.setHz(oz);
    ctx::check(ba(matEq(c.getHxMat(), ox), matEq(c.getHzMat(), oz)), "setHz replaces the Z checks only");
    const Vec x = symVec("x", n);
    ctx::check(vecEq(c.getXSyndrome(x), mulRef(oz, x)), "syndromes use the checks that were set");
}
static void hSetCode(size_t n) {
    Mat     hx = symMat("hx", 2, n);
    Mat     hz = symMat("hz", 1, n);
    Code    c(hx, hz);
    Decoder d;
    d.setCode(c);
    ctx::check(Bit(d.getCode()->getN() == n), "number of qubits of the decoder's code");
    ctx::check(matEq(d.getCode()->getHxMat(), hx), "the decoder's code has the X checks of the code given");
    ctx::check(matEq(d.getCode()->getHzMat(), hz), "the decoder's code has the Z checks of the code given");
    const Vec x = symVec("x", n);
    const Vec z = symVec("z", n);
    ctx::check(vecEq(d.getCode()->getXSyndrome(cat(x, z)), c.getXSyndrome(cat(x, z))), "the decoder's code gives the same syndromes");
    Code s(hz);
    d.setCode(s);
    ctx::check(Bit(!d.getCode()->gethX()), "single-sided stays single-sided");
    ctx::check(matEq(d.getCode()->getHzMat(), hz), "the decoder's code has the Z checks of the code given");
}
// parameters stated for the built-in codes, from their own files
static void hBuiltin() {
    const auto old = std::filesystem::current_path();
    const string root = scratch() + "/cwd";
    std::filesystem::create_directories(root + "/resources");
    if (!std::filesystem::exists(root + "/resources/codes")) {
        std::filesystem::create_directory_symlink("/repo/examples/test", root + "/resources/codes");
    }
    std::filesystem::current_path(root);
    struct Back {
        std::filesystem::path p;
        ~Back() { std::filesystem::current_path(p); }
    } back{old};
    const auto look = [&](Code& c, const string& name, size_t n, size_t k) {
        ctx::check(Bit(c.getN() == n && c.gethZ()->pcm->front().size() == n && c.n == n), "number of qubits of " + name);
        ctx::check(Bit(c.getK() == k && c.k == k && c.getProperties().k == k && c.getProperties().n == n), "number of logical qubits of " + name, S(c.getK()));
        if (c.gethX()) {
            const auto ix = imat(*c.gethX()->pcm);
            const auto iz = imat(*c.gethZ()->pcm);
            ctx::check(Bit(n - rankRef(ix) - rankRef(iz) == k), "logical qubits of the check matrices of " + name);
            for (const auto& a : ix) {
                for (const auto& b : iz) {
                    int s = 0;
                    for (size_t j = 0; j < n; j++) {
                        s ^= a[j] & b[j];
                    }
                    ctx::check(Bit(s == 0), "checks of " + name + " commute");
                }
            }
        }
    };
    SteaneXCode a;
    look(a, "SteaneXCode", 7, 1);
    SteaneCode b;
    look(b, "SteaneCode", 7, 1);
    ToricCode8 t8;
    look(t8, "ToricCode8", 8, 2);
    ToricCode18 t18;
    look(t18, "ToricCode18", 18, 2);
    ToricCode32 t32;
    look(t32, "ToricCode32", 32, 2);
    HGPcode g;
    look(g, "HGPcode", 900, 36);
    HGPcode g2("./resources/codes/hgp_(4,7)-[[900,36,10]]_hx.txt", "./resources/codes/hgp_(4,7)-[[900,36,10]]_hz.txt", 36);
    look(g2, "HGPcode (two-sided)", 900, 36);
}
static void regCode() {
    for (const auto& t : vector<std::array<size_t, 3>>{{1, 1, 3}, {2, 1, 3}, {1, 2, 4}, {3, 2, 5}, {2, 4, 7}}) {
        const string d = S(t[0]) + "," + S(t[1]) + " x " + S(t[2]);
        table["syndrome " + d] = [t] { hSyndrome(t[0], t[1], t[2]); };
        if (t[2] <= 4) {
            table["file " + d] = [t] { hFile(t[0], t[1], t[2]); };
        }
    }
    for (const auto& t : vector<std::array<size_t, 3>>{{1, 1, 2}, {1, 1, 3}, {2, 1, 2}, {1, 2, 2}, {2, 1, 3}, {1, 2, 3}, {2, 2, 2}}) {
        table["stabilizer " + S(t[0]) + "," + S(t[1]) + " x " + S(t[2])] = [t] { hStab(t[0], t[1], t[2]); };
    }
    for (const auto& t : vector<std::array<size_t, 2>>{{1, 4}, {2, 3}, {2, 4}, {3, 3}, {3, 4}}) {
        table["X stabilizer " + S(t[0]) + " x " + S(t[1])] = [t] { hStabX(t[0], t[1]); };
    }
    for (const auto& t : vector<std::array<string, 2>>{{"hamming", "hamming"}, {"surf3x", "surf3"}, {"shor-x", "shor-z"}, {"toric8", "toric8"}, {"toric18", "toric18"}}) {
        table["syndrome " + t[1]] = [t] { hSyndromeConst(t[0], t[1]); };
        if (t[0] != "toric18") {
            table["X stabilizer " + t[0]] = [t] { hStabConst(t[0], t[1]); };
        }
    }
    for (const auto& t : vector<std::array<size_t, 2>>{{1, 3}, {2, 3}, {3, 2}, {2, 4}, {3, 4}}) {
        table["neighbours " + S(t[0]) + " x " + S(t[1])] = [t] { hNbrs(t[0], t[1]); };
    }
    table["constructor 3"] = [] { hCtor(3); };
    table["constructor 6"] = [] { hCtor(6); };
    table["set_code 3"]    = [] { hSetCode(3); };
    table["set_code 6"]    = [] { hSetCode(6); };
    table["built-in codes"] = hBuiltin;
}
static IMat CODE(const string& name) {
    if (name == "hamming") {
        return {{1, 0, 0, 1, 0, 1, 1}, {0, 1, 0, 1, 1, 0, 1}, {0, 0, 1, 0, 1, 1, 1}};
    }
    if (name == "rep5") {
        return {{1, 1, 0, 0, 0}, {0, 1, 1, 0, 0}, {0, 0, 1, 1, 0}, {0, 0, 0, 1, 1}};
    }
    if (name == "ring4") {
        return {{1, 1, 0, 0}, {0, 1, 1, 0}, {0, 0, 1, 1}, {1, 0, 0, 1}};
    }
    if (name == "surf3") {
        return {{1, 1, 0, 1, 1, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 1, 0, 1, 1}, {0, 0, 1, 0, 0, 1, 0, 0, 0}, {0, 0, 0, 1, 0, 0, 1, 0, 0}};
    }
    if (name == "surf3x") {
        return {{0, 1, 1, 0, 1, 1, 0, 0, 0}, {0, 0, 0, 1, 1, 0, 1, 1, 0}, {1, 1, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 1, 1}};
    }
    if (name.rfind("toric", 0) == 0) { // vertex checks of the L x L torus, 2 L^2 qubits
        const size_t L = name == "toric8" ? 2 : 3;
        IMat         m(L * L, vector<int>(2 * L * L, 0));
        for (size_t x = 0; x < L; x++) {
            for (size_t y = 0; y < L; y++) {
                auto& r = m[x * L + y];
                r[x * L + y] ^= 1;
                r[x * L + (y + L - 1) % L] ^= 1;
                r[L * L + x * L + y] ^= 1;
                r[L * L + ((x + L - 1) % L) * L + y] ^= 1;
            }
        }
        return m;
    }
    if (name == "steane-file") { // examples/test/testCode.txt
        return {{1, 0, 0, 1, 0, 1, 1}, {0, 1, 0, 1, 1, 0, 1}, {0, 0, 1, 0, 1, 1, 1}};
    }
    if (name == "blocks") { // two unconnected repetition codes of different length
        return {{1, 1, 0, 0, 0, 0, 0}, {0, 0, 1, 1, 0, 0, 0}, {0, 0, 0, 1, 1, 0, 0}, {0, 0, 0, 0, 1, 1, 0}, {0, 0, 0, 0, 0, 1, 1}};
    }
    if (name == "shor-z") {
        return {{1, 1, 0, 0, 0, 0, 0, 0, 0}, {0, 1, 1, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 1, 1, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 1, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 1, 1, 0}, {0, 0, 0, 0, 0, 0, 0, 1, 1}};
    }
    if (name == "shor-x") {
        return {{1, 1, 1, 1, 1, 1, 0, 0, 0}, {0, 0, 0, 1, 1, 1, 1, 1, 1}};
    }
    throw std::runtime_error("unknown code " + name);
}
