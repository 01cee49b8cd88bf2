// Harnesses for the C++ core. -DSYM: bool is a solver term; otherwise the same harness runs on plain values to replay a counterexample.
#ifdef SYM
#include "sym.hpp"
#else
#include "native.hpp"
#endif
#include "rng.hpp"
#include "repo.hpp"

using std::size_t;
using std::string;
using std::vector;
using Vec = gf2Vec;
using Mat = gf2Mat;

// ---------------------------------------------------------------- helpers
static Bit bx(const Bit& a, const Bit& b) {
#if defined(SYM) && !defined(FORKFIRST)
    return SBool::mxor(a, b);
#else
    return a != b;
#endif
}
static Bit ba(const Bit& a, const Bit& b) {
#if defined(SYM) && !defined(FORKFIRST)
    return SBool::mand(a, b);
#else
    return a && b;
#endif
}
static Bit bn(const Bit& a) { return !a; }
static Bit bo(const Bit& a, const Bit& b) { return bn(ba(bn(a), bn(b))); }
static Bit beq(const Bit& a, const Bit& b) { return bn(bx(a, b)); }
static bool val(const Bit& b) { return static_cast<bool>(b); } // forks if undecided

static string S(size_t i) { return std::to_string(i); }
static Vec    symVec(const string& n, size_t len) {
    Vec v;
    for (size_t i = 0; i < len; i++) {
        v.push_back(ctx::bit(n + S(i)));
    }
    return v;
}
static Mat symMat(const string& n, size_t r, size_t c) {
    Mat m;
    for (size_t i = 0; i < r; i++) {
        m.push_back(symVec(n + S(i) + "_", c));
    }
    return m;
}
static Vec mulRef(const Mat& m, const Vec& v) {
    Vec r;
    for (const auto& row : m) {
        Bit b = false;
        for (size_t j = 0; j < v.size(); j++) {
            b = bx(b, ba(row[j], v[j]));
        }
        r.push_back(b);
    }
    return r;
}
static Bit vecEq(const Vec& a, const Vec& b) {
    if (a.size() != b.size()) {
        return false;
    }
    Bit r = true;
    for (size_t i = 0; i < a.size(); i++) {
        r = ba(r, beq(a[i], b[i]));
    }
    return r;
}
static Bit matEq(const Mat& a, const Mat& b) {
    if (a.size() != b.size()) {
        return false;
    }
    Bit r = true;
    for (size_t i = 0; i < a.size(); i++) {
        r = ba(r, vecEq(a[i], b[i]));
    }
    return r;
}
// v is a sum of rows of m: disjunction over all subsets of rows
static Bit inSpanRef(const Mat& m, const Vec& v) {
    Bit any = false;
    for (size_t s = 0; s < (static_cast<size_t>(1) << m.size()); s++) {
        Bit all = true;
        for (size_t j = 0; j < v.size(); j++) {
            Bit b = v[j];
            for (size_t i = 0; i < m.size(); i++) {
                if (s >> i & 1U) {
                    b = bx(b, m[i][j]);
                }
            }
            all = ba(all, bn(b));
        }
        any = bo(any, all);
    }
    return any;
}
using IMat = vector<vector<int>>;
static IMat imat(const Mat& m) {
    IMat r;
    for (const auto& row : m) {
        vector<int> x;
        for (const auto& b : row) {
            x.push_back(val(b) ? 1 : 0);
        }
        r.push_back(x);
    }
    return r;
}
static size_t rankRef(IMat m) {
    size_t r = 0;
    if (m.empty()) {
        return 0;
    }
    for (size_t c = 0; c < m[0].size() && r < m.size(); c++) {
        size_t p = r;
        while (p < m.size() && m[p][c] == 0) {
            p++;
        }
        if (p == m.size()) {
            continue;
        }
        std::swap(m[p], m[r]);
        for (size_t i = 0; i < m.size(); i++) {
            if (i != r && m[i][c] != 0) {
                for (size_t j = 0; j < m[0].size(); j++) {
                    m[i][j] ^= m[r][j];
                }
            }
        }
        r++;
    }
    return r;
}
// basis of the vectors orthogonal to all rows (concrete)
static IMat kernelRef(IMat m, size_t n) {
    vector<size_t> piv;
    size_t         r = 0;
    for (size_t c = 0; c < n && r < m.size(); c++) {
        size_t p = r;
        while (p < m.size() && m[p][c] == 0) {
            p++;
        }
        if (p == m.size()) {
            continue;
        }
        std::swap(m[p], m[r]);
        for (size_t i = 0; i < m.size(); i++) {
            if (i != r && m[i][c] != 0) {
                for (size_t j = 0; j < n; j++) {
                    m[i][j] ^= m[r][j];
                }
            }
        }
        piv.push_back(c);
        r++;
    }
    IMat out;
    for (size_t f = 0; f < n; f++) {
        if (std::find(piv.begin(), piv.end(), f) != piv.end()) {
            continue;
        }
        vector<int> v(n, 0);
        v[f] = 1;
        for (size_t i = 0; i < r; i++) {
            if (m[i][f] != 0) {
                v[piv[i]] = 1;
            }
        }
        out.push_back(v);
    }
    return out;
}
static Mat toMat(const IMat& m) {
    Mat r;
    for (const auto& row : m) {
        Vec x;
        for (const int b : row) {
            x.push_back(Bit(b != 0));
        }
        r.push_back(x);
    }
    return r;
}
// membership in the row space of a concrete matrix without branching on v
static Bit inSpanConst(const IMat& m, const Vec& v) {
    Bit r = true;
    for (const auto& k : kernelRef(m, v.size())) {
        Bit b = false;
        for (size_t j = 0; j < v.size(); j++) {
            if (k[j] != 0) {
                b = bx(b, v[j]);
            }
        }
        r = ba(r, bn(b));
    }
    return r;
}
static string show(const Vec& v) {
    string s;
    for (const auto& b : v) {
#if defined(SYM) && !defined(FORKFIRST)
        s += b.isConst() ? (b.k ? "1" : "0") : "?";
#else
        s += b ? "1" : "0";
#endif
    }
    return s;
}
template <class F>
static bool throws(F f) {
    try {
        f();
    } catch (const QeccException&) {
        return true;
    } catch (const std::invalid_argument&) {
        return true;
    } catch (const std::out_of_range&) {
        return true;
    }
    return false;
}
static Vec cat(const Vec& a, const Vec& b) {
    Vec r = a;
    for (const auto& x : b) {
        r.push_back(x);
    }
    return r;
}
static string scratch(); // scratch directory
static IMat   CODE(const string& name);

using Fn = std::function<void()>;
static std::map<string, Fn> table;

#include "h_gf2.hpp"
#include "h_code.hpp"
#include "h_tree.hpp"
#include "h_uf.hpp"
#include "h_sim.hpp"

static string scratchDir;
static string scratch() { return scratchDir; }

static void buildTable() {
    regGf2();
    regCode();
    regTree();
    regUf();
    regSim();
}

#ifdef SYM
static volatile sig_atomic_t alarms = 0;
static void                  onSignal(int sig) {
    auto& E = eng::E;
    if (sig == SIGALRM) {
        E.currentModel();
        E.record("does not terminate", "no end within the time allowed for one path");
    } else {
        E.currentModel();
        E.record("crash", "signal " + std::to_string(sig));
    }
    E.truncated.emplace_back("exploration stopped at a crash or hang");
    E.print();
    std::_Exit(0);
}
extern "C" void __asan_set_death_callback(void (*)()) __attribute__((weak));
static void onAsan() { onSignal(SIGSEGV); }

int main(int argc, char** argv) {
    if (argc < 6) {
        std::fprintf(stderr, "usage: harness NAME PATHS SECONDS PATHSECONDS SCRATCH\n");
        return 2;
    }
    if (__asan_set_death_callback != nullptr) {
        __asan_set_death_callback(onAsan);
    }
    auto& E = eng::E;
    E.init();
    buildTable();
    if (string(argv[1]) == "--list") {
        for (const auto& [k, v] : table) {
            std::printf("%s\n", k.c_str());
        }
        return 0;
    }
    scratchDir             = argv[5];
    const long   maxPaths  = std::atol(argv[2]);
    const double maxSecs   = std::atof(argv[3]);
    const auto   pathSecs  = static_cast<unsigned>(std::atoi(argv[4]));
    const auto   t0        = std::chrono::steady_clock::now();
    for (const int s : {SIGALRM, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) {
        std::signal(s, onSignal);
    }
    // the code under test prints
    std::ofstream null("/dev/null");
    std::cout.rdbuf(null.rdbuf());
    std::cerr.rdbuf(null.rdbuf());
    const auto it = table.find(argv[1]);
    if (it == table.end()) {
        std::fprintf(stderr, "no such harness\n");
        return 2;
    }
    while (true) {
        E.pos = 0;
        E.known.clear();
        Z3_solver_pop(E.c, E.s, 1);
        Z3_solver_push(E.c, E.s);
        rngsym::draws = 0;
        rngsym::bernoulliP.clear();
        alarm(pathSecs);
        try {
            it->second();
            if (E.sample.empty()) {
                alarm(0);
                E.currentModel();
                E.sample = E.modelJson();
            }
        } catch (const eng::PathEnd&) {
        } catch (const eng::Stop&) {
        } catch (const std::exception& e) {
            alarm(0);
            E.currentModel();
            E.record("exception", e.what());
        }
        alarm(0);
        E.paths++;
        if (!E.nextPrefix()) {
            break;
        }
        if (E.viols.size() >= 5) {
            E.truncated.emplace_back("stopped after five violations");
            break;
        }
        if (E.paths >= maxPaths || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxSecs) {
            E.truncated.emplace_back("path or time limit: " + std::to_string(E.paths) + " paths");
            break;
        }
    }
    E.print();
    std::fflush(stdout);
    std::_Exit(0);
}
#else
int main(int argc, char** argv) {
    if (argc < 3) {
        return 2;
    }
    buildTable();
    scratchDir = argv[2];
    for (int i = 3; i < argc; i++) {
        ctx::values[argv[i]] = true;
    }
    const auto it = table.find(argv[1]);
    if (it == table.end()) {
        return 2;
    }
    std::ofstream null("/dev/null");
    std::cout.rdbuf(null.rdbuf());
    std::cerr.rdbuf(null.rdbuf());
    try {
        it->second();
    } catch (const ctx::PathEnd&) {
        std::printf("OUTSIDE\n");
        return 0;
    } catch (const ctx::Fail&) {
        return 1;
    } catch (const std::exception& e) {
        std::printf("FAIL exception\t%s\n", e.what());
        return 1;
    }
    std::printf("PASS\n");
    return 0;
}
#endif
