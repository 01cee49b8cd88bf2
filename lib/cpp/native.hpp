// The same harness interface on plain values: replays a counterexample on the code as it is.
#pragma once
#include "common_includes.hpp"
#include <unistd.h>

using Bit = bool;
namespace ctx {
struct PathEnd {};
struct Fail {};
inline std::map<std::string, bool> values;
inline std::string                 failed;
inline bool symbolic() { return false; }
inline Bit  bit(const std::string& n) {
    const auto it = values.find(n);
    return it != values.end() && it->second;
}
inline void assume(bool b) {
    if (!b) {
        throw PathEnd{};
    }
}
inline void reach(const std::string&) {}
inline void check(bool b, const std::string& label, const std::string& info = "") {
    if (!b) {
        failed = label;
        std::printf("FAIL %s\t%s\n", label.c_str(), info.c_str());
        std::fflush(stdout);
        throw Fail{};
    }
}
} // namespace ctx
