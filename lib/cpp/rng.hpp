// Random choices of the code under test become free choices: every outcome is explored.
#pragma once
namespace rngsym {
inline int    draws = 0;
inline double lastP = -1;
inline std::vector<double> bernoulliP;
inline std::size_t pick(std::size_t n) { // 0..n-1
    const int   k = draws++;
    std::size_t v = 0;
    unsigned    b = 0;
    while ((static_cast<std::size_t>(1) << b) < n) {
        b++;
    }
    for (unsigned i = b; i-- > 0;) {
        const Bit t = ctx::bit("rnd" + std::to_string(k) + "_" + std::to_string(i));
        if (static_cast<int>(static_cast<decltype(true)>(t)) != 0) {
            v |= static_cast<std::size_t>(1) << i;
        }
        if (v > n - 1) {
            ctx::assume(Bit(false));
        }
    }
    return v;
}
} // namespace rngsym
namespace std {
template <class T = int>
struct SymUniform {
    T lo, hi;
    SymUniform(T a, T b) : lo(a), hi(b) {}
    template <class G>
    T operator()(G&&) { return static_cast<T>(lo + static_cast<T>(rngsym::pick(static_cast<size_t>(hi - lo) + 1))); }
    T min() const { return lo; }
    T max() const { return hi; }
};
struct SymBernoulli {
    double p;
    explicit SymBernoulli(double q) : p(q) {}
    template <class G>
    Bit operator()(G&&) {
        rngsym::bernoulliP.push_back(p);
        return ctx::bit("noise" + std::to_string(rngsym::draws++));
    }
};
template <class UInt, int>
struct SymGenT {
    using result_type = UInt;
    template <class... A>
    explicit SymGenT(A&&...) {}
    SymGenT() = default;
    static constexpr UInt min() { return 0; }
    static constexpr UInt max() { return 15; }
    UInt                  operator()() { return static_cast<UInt>(rngsym::pick(16)); }
    template <class... A>
    void seed(A&&...) {}
};
using SymMt   = SymGenT<uint32_t, 0>;
using SymMt64 = SymGenT<uint64_t, 1>;
} // namespace std
namespace std::chrono {
struct SymClock { // every reading is later than the one before, by growing amounts
    using duration                  = nanoseconds;
    using rep                       = duration::rep;
    using period                    = duration::period;
    using time_point                = std::chrono::time_point<SymClock>;
    static constexpr auto is_steady = true;
    static time_point     now() {
        static long long t = 0;
        static long long k = 0;
        t += 1000000LL * (1 + (++k % 7));
        return time_point(duration(t));
    }
};
} // namespace std::chrono
#define high_resolution_clock SymClock
#define uniform_int_distribution SymUniform
#define bernoulli_distribution SymBernoulli
#define mt19937 SymMt
#define mt19937_64 SymMt64
#define default_random_engine SymMt
