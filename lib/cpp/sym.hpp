// Symbolic Boolean for the C++ sources: `bool` becomes SBool, a constant or a z3 term. Branching on a term (the conversion to the
// built-in bool) asks the solver which outcomes the path condition allows and explores every one of them by re-execution.
#pragma once
#include "common_includes.hpp"

#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <z3.h>

namespace eng {
struct PathEnd {};   // assumption violated / nothing left on this path
struct Stop {};      // a violation was recorded: end the path

struct Decision {
    bool value;
    bool open; // the other side still has to be explored
};

struct Engine {
    Z3_context                          c = nullptr;
    Z3_solver                           s = nullptr;
    std::vector<Decision>               prefix;
    std::size_t                         pos = 0;
    std::map<Z3_ast, bool>              known; // literals decided on this path
    std::map<std::string, Z3_ast>       inputs;
    std::vector<std::string>            order;
    std::map<std::string, bool>         fixedInputs;
    // statistics
    long   paths = 0, queries = 0, forks = 0, obligations = 0, trivial = 0, unsat = 0, unknown = 0, assumes = 0;
    double solverSeconds = 0;
    std::map<std::string, long> reached;
    std::vector<std::string>    truncated, viols;
    std::set<std::string>       violLabels;
    std::string                 sample;

    void init() {
        Z3_config cfg = Z3_mk_config();
        c             = Z3_mk_context_rc(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(c, [](Z3_context cc, Z3_error_code e) {
            std::fprintf(stderr, "z3: %s\n", Z3_get_error_msg(cc, e));
            std::_Exit(3); });
        s = Z3_mk_solver(c);
        Z3_solver_inc_ref(c, s);
        Z3_solver_push(c, s);
    }
    Z3_ast keep(Z3_ast a) {
        Z3_inc_ref(c, a);
        return a;
    }
    Z3_ast mkInput(const std::string& n) {
        auto it = inputs.find(n);
        if (it == inputs.end()) {
            Z3_ast a = keep(Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), Z3_mk_bool_sort(c)));
            it       = inputs.emplace(n, a).first;
            order.push_back(n);
        }
        return it->second;
    }
    Z3_ast neg(Z3_ast a) {
        if (Z3_get_ast_kind(c, a) == Z3_APP_AST) {
            Z3_app p = Z3_to_app(c, a);
            if (Z3_get_decl_kind(c, Z3_get_app_decl(c, p)) == Z3_OP_NOT) {
                return Z3_get_app_arg(c, p, 0);
            }
        }
        return keep(Z3_mk_not(c, a));
    }
    int check(Z3_ast a) { // is path /\ a satisfiable?
        auto t0 = std::chrono::steady_clock::now();
        Z3_solver_push(c, s);
        Z3_solver_assert(c, s, a);
        const auto r = Z3_solver_check(c, s);
        lastModel.clear();
        if (r == Z3_L_TRUE) {
            Z3_model m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            for (const auto& n : order) {
                Z3_ast v = nullptr;
                Z3_model_eval(c, m, inputs[n], true, &v);
                lastModel[n] = Z3_get_bool_value(c, v) == Z3_L_TRUE;
            }
            Z3_model_dec_ref(c, m);
        }
        Z3_solver_pop(c, s, 1);
        solverSeconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        queries++;
        if (r == Z3_L_UNDEF) {
            unknown++;
            truncated.emplace_back("the solver gave no answer");
        }
        return r;
    }
    std::map<std::string, bool> lastModel;

    void add(Z3_ast a, bool v) {
        known[a]      = v;
        known[neg(a)] = !v;
        Z3_solver_assert(c, s, v ? a : neg(a));
    }
    bool branch(Z3_ast a) {
        if (auto it = known.find(a); it != known.end()) {
            return it->second;
        }
        bool v = false;
        if (pos < prefix.size()) {
            v = prefix[pos].value;
        } else {
            const bool t = check(a) == Z3_L_TRUE;
            const bool f = check(neg(a)) == Z3_L_TRUE;
            if (!t && !f) {
                throw PathEnd{};
            }
            v = t;
            prefix.push_back({v, t && f});
            if (t && f) {
                forks++;
            }
        }
        pos++;
        add(a, v);
        return v;
    }
    bool nextPrefix() {
        while (!prefix.empty() && !prefix.back().open) {
            prefix.pop_back();
        }
        if (prefix.empty()) {
            return false;
        }
        prefix.back().value = !prefix.back().value;
        prefix.back().open  = false;
        return true;
    }
    static std::string esc(const std::string& x) {
        std::string o;
        for (const char ch : x) {
            if (ch == '"' || ch == '\\') {
                o += '\\';
            }
            o += (ch < 32) ? ' ' : ch;
        }
        return o;
    }
    std::string modelJson() const {
        std::string o = "{";
        for (const auto& n : order) {
            const auto it = lastModel.find(n);
            if (it != lastModel.end() && it->second) {
                o += (o.size() > 1 ? ", " : "") + std::string("\"") + n + "\": 1";
            }
        }
        return o + "}";
    }
    void record(const std::string& label, const std::string& info) { // uses lastModel
        if (violLabels.insert(label).second) {
            viols.push_back("{\"label\": \"" + esc(label) + "\", \"info\": \"" + esc(info) + "\", \"inputs\": " + modelJson() + "}");
        }
    }
    void currentModel() { check(Z3_mk_true(c)); }
    void print() {
        std::printf("{\"paths\": %ld, \"solver_queries\": %ld, \"forks\": %ld, \"assertions\": %ld, \"assertions_closed_by_normal_form\": %ld, "
                    "\"assertions_unsat_by_solver\": %ld, \"unknown\": %ld, \"solver_s\": %.3f, \"viol\": [",
                    paths, queries, forks, obligations, trivial, unsat, unknown, solverSeconds);
        for (std::size_t i = 0; i < viols.size(); i++) {
            std::printf("%s%s", i ? ", " : "", viols[i].c_str());
        }
        std::printf("], \"truncated\": [");
        for (std::size_t i = 0; i < truncated.size() && i < 5; i++) {
            std::printf("%s\"%s\"", i ? ", " : "", esc(truncated[i]).c_str());
        }
        std::printf("], \"reached\": {");
        bool first = true;
        for (const auto& [k, v] : reached) {
            std::printf("%s\"%s\": %ld", first ? "" : ", ", esc(k).c_str(), v);
            first = false;
        }
        std::printf("}, \"sample\": %s}\n", sample.empty() ? "null" : sample.c_str());
        std::fflush(stdout);
    }
};
inline Engine E;
} // namespace eng

#ifdef FORKFIRST
// Inputs are decided one by one by the solver where they are created; the code under test then runs on built-in values.
using Bit = bool;
namespace ctx {
inline bool symbolic() { return false; }
inline Bit  bit(const std::string& n) { return eng::E.branch(eng::E.mkInput(n)); }
inline void assume(bool b) {
    eng::E.assumes++;
    if (!b) {
        throw eng::PathEnd{};
    }
}
inline void reach(const std::string& l) { eng::E.reached[l]++; }
inline void check(bool b, const std::string& label, const std::string& info = "") {
    auto& E = eng::E;
    E.obligations++;
    E.reached[label]++;
    if (b) {
        E.trivial++;
        return;
    }
    E.currentModel();
    E.record(label, info);
    throw eng::Stop{};
}
} // namespace ctx
#else
class SBool {
public:
    signed char k = 0; // 0/1 constant, 2 term
    Z3_ast      a = nullptr;

    SBool() = default;
    template <class T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_pointer_v<T> || std::is_same_v<T, std::nullptr_t>, int> = 0>
    SBool(T v) : k(v ? 1 : 0) {} // NOLINT
    static SBool term(Z3_ast t) {
        SBool r;
        switch (Z3_get_bool_value(eng::E.c, t)) {
        case Z3_L_TRUE:
            r.k = 1;
            return r;
        case Z3_L_FALSE:
            return r;
        default:
            break;
        }
        r.k = 2;
        r.a = t;
        return r;
    }
    bool isConst() const { return k != 2; }
    Z3_ast ast() const { return k == 2 ? a : eng::E.keep(k ? Z3_mk_true(eng::E.c) : Z3_mk_false(eng::E.c)); }
    operator bool() const { return k == 2 ? eng::E.branch(a) : k == 1; } // NOLINT

    SBool operator!() const {
        if (k != 2) {
            return SBool(k == 0);
        }
        return term(eng::E.neg(a));
    }
    static SBool mxor(const SBool& x, const SBool& y) {
        if (x.isConst()) {
            return x.k ? !y : y;
        }
        if (y.isConst()) {
            return y.k ? !x : x;
        }
        if (x.a == y.a) {
            return SBool(false);
        }
        return term(eng::E.keep(Z3_mk_xor(eng::E.c, x.a, y.a)));
    }
    static SBool mand(const SBool& x, const SBool& y) {
        if (x.isConst()) {
            return x.k ? y : SBool(false);
        }
        if (y.isConst()) {
            return y.k ? x : SBool(false);
        }
        if (x.a == y.a) {
            return x;
        }
        Z3_ast v[2] = {x.a, y.a};
        return term(eng::E.keep(Z3_mk_and(eng::E.c, 2, v)));
    }
    static SBool mor(const SBool& x, const SBool& y) { return !mand(!x, !y); }
    SBool& operator^=(const SBool& o) { return *this = mxor(*this, o); }
    SBool& operator&=(const SBool& o) { return *this = mand(*this, o); }
    SBool& operator|=(const SBool& o) { return *this = mor(*this, o); }
    void   flip() { *this = !*this; }
};
template <class A, class B>
using BothS = std::enable_if_t<std::is_same_v<std::decay_t<A>, SBool> && std::is_same_v<std::decay_t<B>, SBool>, int>;
template <class A, class B>
inline constexpr bool oneS = (std::is_same_v<A, SBool> && (std::is_same_v<B, SBool> || std::is_same_v<B, bool>)) || (std::is_same_v<B, SBool> && std::is_same_v<A, bool>);
template <class A, class B>
using OneS = std::enable_if_t<oneS<A, B>, int>;
template <class A, class B>
inline constexpr bool mixS = (std::is_same_v<A, SBool> && (std::is_same_v<B, SBool> || std::is_arithmetic_v<B>)) || (std::is_same_v<B, SBool> && std::is_arithmetic_v<A>);
// && and || on two symbolic values are kept as terms (both sides are evaluated; a counterexample that depends on that does not
// replay natively and makes the driver use the forking build instead); with one built-in side they fork as the language says.
#ifndef SYM_FORK_LOGIC
template <class A, class B, BothS<A, B> = 0>
inline SBool operator&&(const A& x, const B& y) { return SBool::mand(x, y); }
template <class A, class B, BothS<A, B> = 0>
inline SBool operator||(const A& x, const B& y) { return SBool::mor(x, y); }
#endif
template <class A, class B, OneS<A, B> = 0>
inline SBool operator^(const A& x, const B& y) { return SBool::mxor(x, y); }
template <class A, class B, OneS<A, B> = 0>
inline SBool operator&(const A& x, const B& y) { return SBool::mand(x, y); }
template <class A, class B, OneS<A, B> = 0>
inline SBool operator|(const A& x, const B& y) { return SBool::mor(x, y); }
template <class A, class B, OneS<A, B> = 0>
inline SBool operator==(const A& x, const B& y) { return !SBool::mxor(x, y); }
template <class A, class B, OneS<A, B> = 0>
inline SBool operator!=(const A& x, const B& y) { return SBool::mxor(x, y); }
inline void swap(SBool& x, SBool& y) {
    const SBool t = x;
    x             = y;
    y             = t;
}
template <class T>
struct SAlloc : std::allocator<T> {
    using value_type = T;
    template <class U>
    struct rebind {
        using other = SAlloc<U>;
    };
    SAlloc() = default;
    template <class U>
    SAlloc(const SAlloc<U>&) {} // NOLINT
};
namespace std {
template <>
class vector<SBool, allocator<SBool>> : public vector<SBool, SAlloc<SBool>> {
    using Base = vector<SBool, SAlloc<SBool>>;

public:
    using Base::Base;
    using Base::swap;
    vector() = default;
    static void swap(SBool& x, SBool& y) { ::swap(x, y); }
    void        flip() {
        for (auto& x : *this) {
            x.flip();
        }
    }
};
inline bool operator==(const vector<SBool>& x, const vector<SBool>& y) {
    if (x.size() != y.size()) {
        return false;
    }
    SBool r(true);
    for (size_t i = 0; i < x.size(); i++) {
        r = SBool::mand(r, x[i] == y[i]);
    }
    return r;
}
inline bool operator!=(const vector<SBool>& x, const vector<SBool>& y) { return !(x == y); }
template <>
struct hash<SBool> {
    size_t operator()(const SBool& x) const { return static_cast<bool>(x) ? 1U : 0U; }
};
} // namespace std
inline std::ostream& operator<<(std::ostream& os, const SBool& b) { return os << static_cast<bool>(b); }
inline std::istream& operator>>(std::istream& is, SBool& b) {
    bool v = false;
    is >> v;
    b = SBool(v);
    return is;
}
inline void to_json(nlohmann::basic_json<>& j, const SBool& b) { j = static_cast<bool>(b); }
inline void from_json(const nlohmann::basic_json<>& j, SBool& b) { b = SBool(j.get<bool>()); }

using Bit = SBool;
namespace ctx {
inline bool symbolic() { return true; }
inline Bit  bit(const std::string& n) { return SBool::term(eng::E.mkInput(n)); }
inline void assume(const Bit& b) {
    eng::E.assumes++;
    if (b.isConst()) {
        if (!b.k) {
            throw eng::PathEnd{};
        }
        return;
    }
    if (auto it = eng::E.known.find(b.a); it != eng::E.known.end()) {
        if (!it->second) {
            throw eng::PathEnd{};
        }
        return;
    }
    // cached as a forced decision so that re-execution costs nothing
    if (eng::E.pos < eng::E.prefix.size()) {
        if (!eng::E.prefix[eng::E.pos].value) {
            throw eng::PathEnd{};
        }
    } else {
        if (eng::E.check(b.a) != Z3_L_TRUE) {
            throw eng::PathEnd{};
        }
        eng::E.prefix.push_back({true, false});
    }
    eng::E.pos++;
    eng::E.add(b.a, true);
}
inline void reach(const std::string& l) { eng::E.reached[l]++; }
inline void check(const Bit& b, const std::string& label, const std::string& info = "") {
    auto& E = eng::E;
    E.obligations++;
    E.reached[label]++;
    if (b.isConst()) {
        if (b.k) {
            E.trivial++;
            return;
        }
        E.currentModel();
        E.record(label, info);
        throw eng::Stop{};
    }
    const auto r = E.check(E.neg(b.a));
    if (r == Z3_L_FALSE) {
        E.unsat++;
    } else if (r == Z3_L_TRUE) {
        E.record(label, info);
        throw eng::Stop{};
    }
}
} // namespace ctx
#endif
