// C28: decoding simulator
static json readOnly(const string& dir, const string& prefix, bool& found) {
    json r;
    found = false;
    for (const auto& f : std::filesystem::directory_iterator(dir)) {
        const auto name = f.path().filename().string();
        if (name.rfind(prefix + "-", 0) == 0) {
            ctx::check(Bit(!found), "one output file");
            found = true;
            std::ifstream     in(f.path());
            std::stringstream ss;
            ss << in.rdbuf();
            r = json::parse(ss.str(), nullptr, false);
        }
    }
    return r;
}
static string freshDir(const string& name) {
    const string d = scratch() + "/" + name;
    std::filesystem::remove_all(d);
    std::filesystem::create_directories(d);
    return d;
}
static Vec estimateOf(const string& kind, Code& c, const Vec& e) {
    const auto d = makeDecoder(kind);
    d->setCode(c);
    d->decode(c.getXSyndrome(e));
    return d->result.estimBoolVector;
}
static string textOf(const Vec& v) {
    string t = "[";
    for (size_t i = 0; i < v.size(); i++) {
        t += (i != 0 ? "," : "") + string(val(v[i]) ? "1" : "0");
    }
    return t + "]";
}
static void hWer(const string& kind, const string& code, size_t k, size_t runs, size_t nrRates, bool stats) {
    IMat im = CODE(code == "422" || code == "3q" ? "ring4" : code);
    if (code == "422") {
        im = {{1, 1, 1, 1}};
    }
    if (code == "3q") { // qubits 0 and 1 are checked together, qubit 2 is stabilised
        im = {{1, 1, 0}};
    }
    Mat  hx = toMat(im);
    Mat  hz = toMat(code == "shor-z" ? CODE("shor-z") : im);
    if (code == "shor-z") {
        hx = toMat(CODE("shor-x"));
    }
    if (code == "3q") {
        hx = toMat({{0, 0, 1}});
    }
    Code c(hx, hz);
    c.k                  = k;
    const auto   n       = c.getN();
    const string dir     = freshDir("wer");
    const double lo      = 0.125;
    const double step    = 0.25;
    const double hi      = lo + step * static_cast<double>(nrRates) - 0.0625;
    rngsym::draws        = 0;
    rngsym::bernoulliP.clear();
    DecodingSimulator::simulateWER(dir + "/raw", stats ? dir + "/stats" : "", lo, hi, runs, c, step, kind == "uf" ? DecoderType::UfDecoder : DecoderType::UfHeuristic);
    ctx::check(Bit(rngsym::bernoulliP.size() == nrRates * runs * n), "one error per run", S(rngsym::bernoulliP.size()));
    bool       found = false;
    const json raw   = readOnly(dir, "raw", found);
    ctx::check(Bit(found && raw.is_object() && raw.size() == nrRates), "the raw data file holds one word error rate per physical error rate");
    json st;
    if (stats) {
        st = readOnly(dir, "stats", found);
        ctx::check(Bit(found && st.is_object()), "the statistics file is JSON");
        ctx::check(Bit(st.contains("runs") && st["runs"].is_array() && st["runs"].size() == nrRates), "the statistics list every physical error rate");
    }
    size_t draw = 0;
    for (size_t q = 0; q < nrRates; q++) {
        const double p      = lo + step * static_cast<double>(q);
        size_t       failed = 0;
        for (size_t j = 0; j < runs; j++) {
            Vec e;
            for (size_t i = 0; i < n; i++) {
                ctx::check(Bit(rngsym::bernoulliP[draw] == p), "errors are drawn with the physical error rate");
                e.push_back(ctx::bit("noise" + S(draw++)));
            }
            const Vec synd = c.getXSyndrome(e);
            Vec       r    = estimateOf(kind, c, e);
            for (size_t i = 0; i < n; i++) {
                r[i] = bx(r[i], e[i]);
            }
            const bool ok = val(inSpanConst(imat(hx), r));
            failed += ok ? 0 : 1;
            ctx::reach(ok ? "corrected" : "failed");
            if (stats) {
                const auto& run = st["runs"][q]["run"];
                ctx::check(Bit(run["physicalErrRate"].get<double>() == p && run["data"].size() == runs), "the statistics list every run of the rate");
                const auto& x = run["data"][j];
                ctx::check(Bit(x["decodingStatus"] == (ok ? "success" : "failure")), "the status of a run is success iff estimate and error differ by a stabilizer");
                ctx::check(Bit(x["physicalErrRate"].get<double>() == p && x["codeSize"].get<size_t>() == n), "a run states rate and code size");
                ctx::check(Bit(x["error"] == textOf(e) && x["syndrome"] == textOf(synd)), "a run states its error and syndrome", x.dump());
            }
        }
        const auto key = std::to_string(p);
        ctx::check(Bit(raw.contains(key)), "the raw data is listed under the physical error rate");
        const double want = static_cast<double>(failed) / static_cast<double>(runs) / static_cast<double>(k);
        ctx::check(Bit(std::abs(raw[key].get<double>() - want) < 1e-9), "word error rate is failures over runs and logical qubits", raw.dump() + " expected " + std::to_string(want));
    }
}
static void hAvg(const string& kind, size_t runs, size_t samples, size_t nrCodes) {
    const string dir   = freshDir("avg");
    const string codes = freshDir("avgcodes");
    for (size_t q = 0; q < nrCodes; q++) { // code q: repetition code on q + 2 qubits
        std::ofstream f(codes + "/c" + S(q) + ".txt");
        for (size_t r = 0; r <= q; r++) {
            for (size_t i = 0; i < q + 2; i++) {
                f << (i == r || i == r + 1 ? "1" : "0") << (i == q + 1 ? "\n" : " ");
            }
        }
    }
    rngsym::draws = 0;
    rngsym::bernoulliP.clear();
    DecodingSimulator::simulateAverageRuntime(dir + "/raw", dir + "/info", 0.25, runs, codes, samples, kind == "uf" ? DecoderType::UfDecoder : DecoderType::UfHeuristic);
    for (const double p : rngsym::bernoulliP) {
        ctx::check(Bit(p == 0.25), "errors are drawn with the physical error rate");
    }
    bool       found = false;
    const json raw   = readOnly(dir, "raw", found);
    ctx::check(Bit(found && raw.is_object() && raw.size() == nrCodes), "one entry per code");
    const json info = readOnly(dir, "info", found);
    ctx::check(Bit(found && info.is_array() && info.size() == nrCodes * runs * samples), "the decoding information of every sample is written");
    size_t draw = 0;
    size_t k    = 0;
    std::set<size_t> seen;
    for (size_t block = 0; block < nrCodes; block++) { // the codes are visited in the order the directory lists them
        const size_t n = info[k]["codeSize"].get<size_t>();
        ctx::check(Bit(n >= 2 && n < nrCodes + 2 && seen.insert(n).second), "every code is simulated once");
        const string path = codes + "/c" + S(n - 2) + ".txt";
        ctx::check(Bit(raw.contains(path) && raw[path].size() == runs), "one average per run of a code");
        for (size_t j = 0; j < runs; j++) {
            size_t sum = 0;
            for (size_t i = 0; i < samples; i++) {
                const auto& x = info[k++];
                sum += x["decodingResult"]["decodingTime(ms)"].get<size_t>();
                Vec e;
                for (size_t b = 0; b < n; b++) {
                    e.push_back(ctx::bit("noise" + S(draw++)));
                }
                Vec syn;
                for (size_t b = 0; b + 1 < n; b++) {
                    syn.push_back(bx(e[b], e[b + 1]));
                }
                ctx::check(Bit(x["error"] == textOf(e)), "a sample states its error");
                ctx::check(Bit(x["syndrome"] == textOf(syn)), "a sample states its syndrome");
                ctx::check(Bit(x["codeSize"] == n && x["physicalErrRate"] == 0.25), "a sample states rate and code size");
            }
            ctx::check(Bit(raw[path][S(j)].get<size_t>() == sum / samples), "the average runtime of a run is that of its samples", raw.dump());
        }
    }
    ctx::check(Bit(rngsym::bernoulliP.size() == draw), "one error per sample");
    ctx::reach("averaged");
}
static void regSim() {
    for (const string kind : {"uf", "heur"}) {
        for (const int s : {0, 1}) {
            const string t = s != 0 ? "" : " without statistics";
            table["wer " + kind + " 422 1 run, 3 rates" + t]  = [=] { hWer(kind, "422", 2, 1, 3, s != 0); };
            table["wer " + kind + " 422 2 runs, 2 rates" + t] = [=] { hWer(kind, "422", 2, 2, 2, s != 0); };
            table["wer " + kind + " 3q 2 runs, 2 rates" + t]  = [=] { hWer(kind, "3q", 1, 2, 2, s != 0); };
            table["wer " + kind + " 422 3 runs, 1 rate" + t]  = [=] { hWer(kind, "422", 2, 3, 1, s != 0); };
            table["wer " + kind + " hamming 1 run, 2 rates" + t] = [=] { hWer(kind, "hamming", 1, 1, 2, s != 0); };
            table["wer " + kind + " hamming 2 runs, 1 rate" + t] = [=] { hWer(kind, "hamming", 1, 2, 1, s != 0); };
            table["wer " + kind + " shor-z 1 run, 1 rate" + t] = [=] { hWer(kind, "shor-z", 1, 1, 1, s != 0); };
        }
        table["average runtime " + kind + " 2 runs of 2 samples"]                 = [=] { hAvg(kind, 2, 2, 1); };
        table["average runtime " + kind + " 2 runs of 1 sample, 2 codes"]         = [=] { hAvg(kind, 2, 1, 2); };
        table["average runtime " + kind + " 1 run of 2 samples, 2 codes"]         = [=] { hAvg(kind, 1, 2, 2); };
    }
}
