// C16 / C17: union-find decoders
static std::unique_ptr<Decoder> makeDecoder(const string& kind) {
    if (kind == "uf") {
        return std::make_unique<UFDecoder>();
    }
    return std::make_unique<UFHeuristic>();
}
static const char* const GROWTH[] = {"all", "invalid", "smallest", "random", "qubit"};
static GrowthVariant growthOf(const string& g) {
    for (int i = 0; i < 5; i++) {
        if (g == GROWTH[i]) {
            return growthVariantFromString(std::to_string(i));
        }
    }
    throw std::runtime_error("growth");
}
static void atMost(const Vec& e, size_t w) {
    // at most w bits set, as a sequential counter
    vector<Bit> cnt(w + 1, Bit(false)); // cnt[i]: more than i bits so far
    for (const auto& b : e) {
        for (size_t i = w + 1; i-- > 1;) {
            cnt[i] = bo(cnt[i], ba(cnt[i - 1], b));
        }
        cnt[0] = bo(cnt[0], b);
    }
    ctx::assume(bn(cnt[w]));
}
static void shape(const Decoder& d, size_t n) {
    const auto& r = d.result;
    ctx::check(Bit(r.estimBoolVector.size() == n), "the estimate has one bit per qubit", S(r.estimBoolVector.size()));
    std::set<size_t> a;
    for (size_t i = 0; i < n; i++) {
        if (val(r.estimBoolVector[i])) {
            a.insert(i);
        }
    }
    const std::set<size_t> b(r.estimNodeIdxVector.begin(), r.estimNodeIdxVector.end());
    ctx::check(Bit(a == b), "the list of qubits agrees with the estimate");
    ctx::check(Bit(b.size() == r.estimNodeIdxVector.size()), "no qubit is listed twice");
}
// every error (of at most the given weight): the estimate has the syndrome of the error
static void hDecode(const string& kind, const string& growth, const string& code, size_t weight) {
    Mat       hz = toMat(CODE(code));
    Code      c(hz);
    const Vec e = symVec("e", c.getN());
    if (weight != 0) {
        atMost(e, weight);
    }
    const auto d = makeDecoder(kind);
    d->setCode(c);
    d->setGrowth(growthOf(growth));
    d->decode(c.getXSyndrome(e));
    shape(*d, c.getN());
    ctx::check(vecEq(mulRef(hz, d->result.estimBoolVector), mulRef(hz, e)), "the estimate has the syndrome of the error", show(d->result.estimBoolVector));
    Bit any = false;
    for (const auto& b : mulRef(hz, e)) {
        any = bo(any, b);
    }
    ctx::reach(val(any) ? "non-trivial syndrome" : "trivial syndrome");
    if (!val(any)) {
        ctx::check(vecEq(d->result.estimBoolVector, Vec(c.getN(), false)), "no correction without a syndrome");
    }
}
// whatever the estimate is: the decoder ends, and its answer is well-formed and empty without a syndrome
static void answers(const string& kind, const string& growth, Mat hz) {
    const auto n = hz[0].size();
    Code       c(hz);
    const Vec  e = symVec("e", n);
    const auto d = makeDecoder(kind);
    d->setCode(c);
    d->setGrowth(growthOf(growth));
    d->decode(c.getXSyndrome(e));
    shape(*d, n);
    ctx::check(Bit(d->getGrowth() == growthOf(growth)), "decoding keeps the growth variant");
    Bit any = false;
    for (const auto& b : mulRef(hz, e)) {
        any = bo(any, b);
    }
    ctx::reach(val(any) ? "non-trivial syndrome" : "trivial syndrome");
    if (!val(any)) {
        ctx::check(vecEq(d->result.estimBoolVector, Vec(n, false)), "no correction without a syndrome");
    }
}
static void hUnsupported() {
    Mat       hz = toMat(CODE("hamming"));
    Code      c(hz);
    const Vec e = symVec("e", 7);
    const auto d = makeDecoder("heur");
    d->setCode(c);
    d->setGrowth(growthOf("qubit"));
    Bit any = false;
    for (const auto& b : mulRef(hz, e)) {
        any = bo(any, b);
    }
    const bool t = throws([&] { d->decode(c.getXSyndrome(e)); });
    ctx::check(Bit(t || !val(any)), "an unsupported growth variant is rejected");
    d->setGrowth(growthOf("all"));
    d->decode(c.getXSyndrome(e));
    ctx::check(vecEq(mulRef(hz, d->result.estimBoolVector), mulRef(hz, e)), "afterwards the decoder can be used with a supported one");
}
// symbolic check matrix
static void hDecodeSym(const string& kind, const string& growth, size_t r, size_t n, size_t weight) {
    Mat  hz = symMat("h", r, n);
    Code c(hz);
    const Vec e = symVec("e", n);
    if (weight != 0) {
        atMost(e, weight);
    }
    const auto d = makeDecoder(kind);
    d->setCode(c);
    d->setGrowth(growthOf(growth));
    d->decode(c.getXSyndrome(e));
    shape(*d, n);
    ctx::check(vecEq(mulRef(hz, d->result.estimBoolVector), mulRef(hz, e)), "the estimate has the syndrome of the error");
}
// both error types at once
static void hDecodeBoth(const string& kind, const string& growth, const string& xn, const string& zn, size_t weight) {
    Mat        hx = toMat(CODE(xn));
    Mat        hz = toMat(CODE(zn));
    Code       c(hx, hz);
    const auto n = c.getN();
    const Vec  x = symVec("x", n);
    const Vec  z = symVec("z", n);
    if (weight != 0) {
        atMost(x, weight);
        atMost(z, weight);
    }
    const auto d = makeDecoder(kind);
    d->setCode(c);
    d->setGrowth(growthOf(growth));
    d->decode(c.getXSyndrome(cat(x, z)));
    const auto est = d->result.estimBoolVector;
    ctx::check(Bit(est.size() == 2 * n), "the estimate has an X and a Z part", S(est.size()));
    const Vec ex(est.begin(), est.begin() + static_cast<std::ptrdiff_t>(n));
    const Vec ez(est.begin() + static_cast<std::ptrdiff_t>(n), est.end());
    ctx::check(vecEq(mulRef(hz, ex), mulRef(hz, x)), "the X part has the syndrome of the X error");
    ctx::check(vecEq(mulRef(hx, ez), mulRef(hx, z)), "the Z part has the syndrome of the Z error");
    ctx::check(Bit(d->getGrowth() == growthOf(growth)), "decoding keeps the growth variant");
}
// a used decoder answers like a fresh one
static void hReuse(const string& kind, const string& growth, const string& code, bool withReset, bool both) {
    Mat  hz = toMat(CODE(code));
    Mat  hx = toMat(CODE(code == "surf3" ? "surf3x" : code));
    Code single(hz);
    Code dbl(hx, hz);
    Code& c = both ? dbl : single;
    const size_t len = c.getN() * (both ? 2 : 1);
    const Vec e1 = symVec("first", len);
    const Vec e2 = symVec("second", len);
    if (both) {
        atMost(e1, 1);
        atMost(e2, 2);
    }
    const auto used = makeDecoder(kind);
    used->setCode(c);
    used->setGrowth(growthOf(growth));
    rngsym::draws = 0;
    used->decode(c.getXSyndrome(e1));
    if (withReset) {
        used->reset();
        ctx::check(Bit(used->getGrowth() == growthOf(growth)), "reset keeps the growth variant");
        ctx::check(Bit(used->result.estimBoolVector.empty() && used->result.estimNodeIdxVector.empty()), "reset drops the result");
        ctx::check(matEq(used->getCode()->getHzMat(), hz), "reset keeps the code");
    }
    rngsym::draws = 1000;
    used->decode(c.getXSyndrome(e2));
    const auto fresh = makeDecoder(kind);
    fresh->setCode(c);
    fresh->setGrowth(growthOf(growth));
    rngsym::draws = 1000; // the same random choices
    fresh->decode(c.getXSyndrome(e2));
    ctx::check(vecEq(used->result.estimBoolVector, fresh->result.estimBoolVector), "a used decoder answers like a fresh one",
               show(used->result.estimBoolVector) + " instead of " + show(fresh->result.estimBoolVector));
    ctx::check(Bit(used->result.estimNodeIdxVector == fresh->result.estimNodeIdxVector), "a used decoder lists the same qubits");
}
// the code of a used decoder can be exchanged
static void hSwitch(const string& kind, const string& growth) {
    Mat  h1 = toMat(CODE("hamming"));
    Mat  h2 = toMat(CODE("ring4"));
    Code c1(h1);
    Code c2(h2);
    const Vec  e1   = symVec("first", 7);
    const Vec  e2   = symVec("second", 4);
    const auto used = makeDecoder(kind);
    used->setCode(c1);
    used->setGrowth(growthOf(growth));
    used->decode(c1.getXSyndrome(e1));
    used->setCode(c2);
    rngsym::draws = 1000;
    used->decode(c2.getXSyndrome(e2));
    const auto fresh = makeDecoder(kind);
    fresh->setCode(c2);
    fresh->setGrowth(growthOf(growth));
    rngsym::draws = 1000;
    fresh->decode(c2.getXSyndrome(e2));
    ctx::check(vecEq(used->result.estimBoolVector, fresh->result.estimBoolVector), "after exchanging the code a used decoder answers like a fresh one");
}
static void hResetEarly(const string& kind) {
    const auto d = makeDecoder(kind);
    d->reset();
    Mat  hz = toMat(CODE("hamming"));
    Code c(hz);
    d->setCode(c);
    d->reset();
    const Vec e = symVec("e", 7);
    d->decode(c.getXSyndrome(e));
    ctx::check(vecEq(mulRef(hz, d->result.estimBoolVector), mulRef(hz, e)), "the estimate has the syndrome of the error");
}
static void regUf() {
    table["unsupported growth"] = hUnsupported;
    for (const string kind : {"uf", "heur"}) {
        for (const string g : GROWTH) {
            for (const string code : {"hamming", "rep5", "ring4", "surf3", "surf3x", "shor-z", "shor-x", "toric8", "toric18", "steane-file", "blocks"}) {
                for (const size_t w : {static_cast<size_t>(0), static_cast<size_t>(1), static_cast<size_t>(2)}) {
                    table["decode " + kind + " " + g + " " + code + (w != 0 ? " weight " + S(w) : "")] = [=] { hDecode(kind, g, code, w); };
                }
                table["answers " + kind + " " + g + " " + code] = [=] { answers(kind, g, toMat(CODE(code))); };
                for (const int r : {0, 1}) {
                    for (const int b : {0, 1}) {
                        table["reuse " + kind + " " + g + " " + code + (r ? " reset" : "") + (b ? " both" : "")] = [=] { hReuse(kind, g, code, r != 0, b != 0); };
                    }
                }
            }
            for (const auto& t : vector<std::array<string, 2>>{{"hamming", "hamming"}, {"surf3x", "surf3"}, {"shor-x", "shor-z"}}) {
                for (const size_t w : {static_cast<size_t>(0), static_cast<size_t>(1)}) {
                    table["decode both " + kind + " " + g + " " + t[1] + (w != 0 ? " weight " + S(w) : "")] = [=] { hDecodeBoth(kind, g, t[0], t[1], w); };
                }
            }
            for (const auto& t : vector<std::array<size_t, 2>>{{1, 3}, {2, 3}, {3, 3}, {2, 4}, {3, 4}}) {
                for (const size_t w : {static_cast<size_t>(0), static_cast<size_t>(1)}) {
                    table["decode " + kind + " " + g + " symbolic " + S(t[0]) + "x" + S(t[1]) + (w != 0 ? " weight " + S(w) : "")] = [=] { hDecodeSym(kind, g, t[0], t[1], w); };
                }
            }
            for (const auto& t : vector<std::array<size_t, 2>>{{2, 3}, {3, 3}, {3, 4}}) {
                table["answers " + kind + " " + g + " symbolic " + S(t[0]) + "x" + S(t[1])] = [=] { answers(kind, g, symMat("h", t[0], t[1])); };
            }
            table["switch " + kind + " " + g] = [=] { hSwitch(kind, g); };
        }
        table["reset early " + kind] = [=] { hResetEarly(kind); };
    }
}
