// Shared parts of the C++ simulator: PRNG, program text, violations.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

// splitmix64: the only source of randomness in the simulator.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    long below(long n) { return n <= 0 ? 0 : static_cast<long>(next() % static_cast<uint64_t>(n)); }
    long range(long lo, long hi) { return lo + below(hi - lo + 1); }  // inclusive
    bool chance(int pct) { return below(100) < pct; }
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[below(static_cast<long>(v.size()))]; }
    template <class T>
    void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(static_cast<long>(i))]);
    }
};

// The random stream handed to default moves. Mode 0: uniform. Mode 1: mostly boundary draws.
// Never constant, because rejection sampling would not terminate on a constant stream.
struct AdvRng {
    using result_type = uint32_t;
    Rng r;
    int mode;
    AdvRng(uint64_t seed, int mode) : r(seed), mode(mode) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xFFFFFFFFu; }
    result_type operator()() {
        uint32_t v = static_cast<uint32_t>(r.next());
        if (mode == 0) return v;
        switch (r.below(6)) {
            case 0: return 0;
            case 1: return 0xFFFFFFFFu;
            case 2: return 1;
            case 3: return 0x80000000u;
            case 4: return 0xFFFFFFFEu;
            default: return v;
        }
    }
};

using Line = std::vector<std::string>;
using Prog = std::vector<Line>;

inline Line split(const std::string& s) {
    std::istringstream is(s);
    Line out;
    std::string t;
    while (is >> t) out.push_back(t);
    return out;
}
inline std::string join(const Line& l) {
    std::string s;
    for (auto& t : l) { if (!s.empty()) s += ' '; s += t; }
    return s;
}
inline std::string num(double v) {
    char b[64];
    if (v == std::floor(v) && std::abs(v) < 1e15) snprintf(b, sizeof b, "%lld", (long long)v);
    else snprintf(b, sizeof b, "%.17g", v);
    return b;
}
template <class... Ts>
Line L(const Ts&... ts) {
    Line out;
    auto add = [&](const auto& t) {
        using T = std::decay_t<decltype(t)>;
        if constexpr (std::is_convertible_v<T, std::string>) out.push_back(std::string(t));
        else if constexpr (std::is_arithmetic_v<T>) out.push_back(num(static_cast<double>(t)));
        else for (auto& x : t) { if constexpr (std::is_convertible_v<std::decay_t<decltype(x)>, std::string>) out.push_back(std::string(x)); else out.push_back(num(static_cast<double>(x))); }
    };
    (add(ts), ...);
    return out;
}

struct Violation : std::exception {
    std::string what_;
    explicit Violation(std::string w) : what_(std::move(w)) {}
    const char* what() const noexcept override { return what_.c_str(); }
};

struct Hash {
    uint64_t h = 1469598103934665603ull;
    void bytes(const void* p, size_t n) {
        auto c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    }
    void add(double d) { if (d == 0) d = 0; bytes(&d, sizeof d); }
    void add(long d) { bytes(&d, sizeof d); }
    void add(const std::string& s) { bytes(s.data(), s.size()); }
};

}  // namespace sim
