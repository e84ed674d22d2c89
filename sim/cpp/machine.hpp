// The simulated system: the real dwave-optimization engine driven by program lines, and the oracles.
#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <span>
#include <unordered_set>

#include "common.hpp"
#include "dwave-optimization/array.hpp"
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"
#include "dwave-optimization/nodes/testing.hpp"
#include "dwave-optimization/state.hpp"

namespace sim {

namespace dw = dwave::optimization;
using dw::ArrayNode;
using dw::Graph;
using dw::Node;
using dw::State;

extern long g_alloc_countdown;  // < 0: disabled. 0: next operator new throws.

struct Val {
    std::vector<long> shape;
    std::vector<double> v;
};

inline long prodShape(const std::vector<long>& s, size_t from = 0) {
    long p = 1;
    for (size_t i = from; i < s.size(); ++i) p *= s[i];
    return p;
}
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline std::string show(const std::vector<double>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 24; ++i) s += (i ? " " : "") + num(v[i]);
    return s + (v.size() > 24 ? " ...]" : "]");
}
inline std::string showS(const std::vector<long>& v) {
    std::string s = "(";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + ")";
}

// Read the values of an array straight from its buffer, shape and strides.
inline Val readRaw(const ArrayNode* a, const State& st) {
    Val out;
    auto sh = a->shape(st);
    out.shape.assign(sh.begin(), sh.end());
    for (long d : out.shape)
        if (d < 0) throw Violation("negative dimension in the shape of a state");
    long n = prodShape(out.shape);
    if (n > 1000000) throw Violation("absurd shape " + showS(out.shape));
    if (n == 0) return out;
    const double* p = a->buff(st);
    auto strides = a->strides();
    size_t nd = out.shape.size();
    if (strides.size() != nd) throw Violation("strides and shape disagree in length");
    std::vector<long> idx(nd, 0);
    out.v.reserve(n);
    for (long k = 0; k < n; ++k) {
        long off = 0;
        for (size_t d = 0; d < nd; ++d) off += idx[d] * strides[d];
        out.v.push_back(p[off / static_cast<long>(sizeof(double))]);
        for (long d = static_cast<long>(nd) - 1; d >= 0; --d) {
            if (++idx[d] < out.shape[d]) break;
            idx[d] = 0;
        }
    }
    return out;
}

struct Idx {
    char t = 's';  // s slice, i integer, a array
    std::optional<long> a, b, c;
    int ref = -1;
};

struct Rec {
    int id = -1;
    std::string kind, op;
    std::vector<int> preds;
    std::vector<long> ip;
    std::vector<double> dp;
    std::vector<Idx> idx;
    bool hasInit = false;
    double init = 0;
    Node* node = nullptr;
    ArrayNode* arr = nullptr;
    dw::DecisionNode* dec = nullptr;
    std::shared_ptr<std::vector<double>> data;
    // own facts
    double lo = 0, hi = 0, scale = 0;
    bool integral = false;
    int grid = -1;   // values are multiples of 2^-grid; -1 if not representable exactly
    long maxsize = 0;
    bool dyn = false;
    double mag() const { return std::max(std::abs(lo), std::abs(hi)); }
};

struct Skip {};  // the line does not apply (e.g. refers to something the minimiser removed)

struct Tok {
    const Line& l;
    size_t i;
    explicit Tok(const Line& l, size_t i = 0) : l(l), i(i) {}
    bool done() const { return i >= l.size(); }
    const std::string& s() {
        if (i >= l.size()) throw Skip();
        return l[i++];
    }
    double d() { return std::strtod(s().c_str(), nullptr); }
    long n() { return std::strtol(s().c_str(), nullptr, 10); }
    std::optional<long> on() {
        const std::string& t = s();
        if (t == ".") return std::nullopt;
        return std::strtol(t.c_str(), nullptr, 10);
    }
};

struct Stats {
    long lines = 0, nodes = 0, refusedBuilds = 0, refusedInits = 0, refusedMoves = 0, mutations = 0, defaultMoves = 0;
    long accepted = 0, rejected = 0, thrown = 0, partial = 0, abandoned = 0, reinits = 0, fresh = 0, allocFaults = 0;
    long nodeChecks = 0, diffChecks = 0, boundChecks = 0, twinChecks = 0, advDraws = 0, interleavings = 0, switches = 0, copies = 0, copySteps = 0;
    std::set<uint64_t> sig;
    void merge(const Stats& o) {
        const long* a = &o.lines;
        long* b = &lines;
        for (size_t i = 0; i < offsetof(Stats, sig) / sizeof(long); ++i) b[i] += a[i];
        for (auto x : o.sig) if (sig.size() < 400000) sig.insert(x);
    }
};

struct Oracles {
    bool p01 = false, p02 = false, p03 = false, p05 = false, p06 = false, p07 = false, p16 = false;
};

// ---------------------------------------------------------------- reference semantics
inline double refBin(const std::string& op, double x, double y) {
    if (op == "add") return x + y;
    if (op == "sub") return x - y;
    if (op == "mul") return x * y;
    if (op == "div") return x / y;
    if (op == "mod") {
        if (y == 0) return 0;
        double r = std::fmod(x, y);
        if (r != 0 && ((r < 0) != (y < 0))) r += y;
        return r;
    }
    if (op == "eq") return x == y;
    if (op == "le") return x <= y;
    if (op == "and") return x != 0 && y != 0;
    if (op == "or") return x != 0 || y != 0;
    if (op == "xor") return (x != 0) != (y != 0);
    if (op == "max") return x < y ? y : x;
    if (op == "min") return y < x ? y : x;
    throw Skip();
}
inline double refUn(const std::string& op, double x) {
    if (op == "abs") return x < 0 ? -x : x;
    if (op == "neg") return -x;
    if (op == "sq") return x * x;
    if (op == "sqrt") return std::sqrt(x);
    if (op == "logical") return x != 0;
    if (op == "not") return x == 0;
    throw Skip();
}
inline std::vector<long> refBroadcast(const std::vector<long>& a, const std::vector<long>& b) {
    std::vector<long> out(std::max(a.size(), b.size()));
    for (size_t i = 0; i < out.size(); ++i) {
        long x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1;
        out[out.size() - 1 - i] = x == 1 ? y : x;
    }
    return out;
}
struct PySlice { long start, step, len; };
inline PySlice refSlice(const Idx& ix, long n) {  // positive steps only
    long step = ix.c.value_or(1), start = ix.a.value_or(0), stop = ix.b.value_or(n);
    if (start < 0) start = std::max(0L, start + n);
    if (start > n) start = n;
    if (stop < 0) stop = std::max(0L, stop + n);
    if (stop > n) stop = n;
    long len = stop > start ? (stop - start + step - 1) / step : 0;
    return {start, step, len};
}
inline std::vector<long> cstrides(const std::vector<long>& sh) {
    std::vector<long> st(sh.size(), 1);
    for (long i = static_cast<long>(sh.size()) - 2; i >= 0; --i) st[i] = st[i + 1] * sh[i + 1];
    return st;
}
template <class F>
void forEachIndex(const std::vector<long>& sh, F f) {
    long n = prodShape(sh);
    std::vector<long> idx(sh.size(), 0);
    for (long k = 0; k < n; ++k) {
        f(idx);
        for (long d = static_cast<long>(sh.size()) - 1; d >= 0; --d) {
            if (++idx[d] < sh[d]) break;
            idx[d] = 0;
        }
    }
}

struct Unsettled {};  // an operand holds an impossible value: another oracle reports it

inline Val refEval(const Rec& r, const std::vector<const Val*>& p) {
    Val out;
    if (r.kind == "binop") {
        out.shape = refBroadcast(p[0]->shape, p[1]->shape);
        size_t n = prodShape(out.shape);
        const auto &x = p[0]->v, &y = p[1]->v;
        for (size_t i = 0; i < n; ++i)
            out.v.push_back(refBin(r.op, x.size() == 1 ? x[0] : x.at(i), y.size() == 1 ? y[0] : y.at(i)));
    } else if (r.kind == "nary") {
        out = *p[0];
        for (size_t i = 0; i < out.v.size(); ++i)
            for (size_t k = 1; k < p.size(); ++k) out.v[i] = refBin(r.op, out.v[i], p[k]->v.at(i));
    } else if (r.kind == "un") {
        out = *p[0];
        for (auto& x : out.v) x = refUn(r.op, x);
    } else if (r.kind == "red") {
        const auto& v = p[0]->v;
        double acc;
        size_t i = 0;
        if (r.op == "all") { acc = r.hasInit ? r.init != 0 : 1; for (double x : v) acc = acc && x != 0; }
        else if (r.op == "any") { acc = r.hasInit ? r.init != 0 : 0; for (double x : v) acc = acc || x != 0; }
        else if (r.op == "sum" || r.op == "prod") {
            acc = r.hasInit ? r.init : (r.op == "sum" ? 0 : 1);
            for (double x : v) acc = refBin(r.op == "sum" ? "add" : "mul", acc, x);
        } else {
            if (r.hasInit) acc = r.init; else acc = v.at(i++);
            for (; i < v.size(); ++i) acc = refBin(r.op, acc, v[i]);
        }
        out.v = {acc};
    } else if (r.kind == "psum") {
        long ax = r.ip[0];
        out.shape = p[0]->shape;
        out.shape.erase(out.shape.begin() + ax);
        auto st = cstrides(out.shape);
        out.v.assign(prodShape(out.shape), r.hasInit ? r.init : 0.0);
        size_t k = 0;
        forEachIndex(p[0]->shape, [&](const std::vector<long>& ix) {
            long o = 0, d2 = 0;
            for (size_t d = 0; d < ix.size(); ++d) if (static_cast<long>(d) != ax) o += ix[d] * st[d2++];
            out.v.at(o) += p[0]->v.at(k++);
        });
    } else if (r.kind == "bidx") {
        const auto& sh = p[0]->shape;
        auto st = cstrides(sh);
        std::vector<long> base(sh.size()), step(sh.size());
        std::vector<size_t> dims;
        for (size_t d = 0; d < sh.size(); ++d) {
            if (r.idx[d].t == 'i') {
                long i = *r.idx[d].a;
                base[d] = i < 0 ? i + sh[d] : i;
            } else {
                auto s = refSlice(r.idx[d], sh[d]);
                base[d] = s.start; step[d] = s.step;
                out.shape.push_back(s.len);
                dims.push_back(d);
            }
        }
        forEachIndex(out.shape, [&](const std::vector<long>& ix) {
            long o = 0;
            for (size_t d = 0; d < sh.size(); ++d) o += base[d] * st[d];
            for (size_t k = 0; k < dims.size(); ++k) o += ix[k] * step[dims[k]] * st[dims[k]];
            out.v.push_back(p[0]->v.at(o));
        });
    } else if (r.kind == "aidx") {
        const auto& sh = p[0]->shape;
        auto st = cstrides(sh);
        std::vector<const Val*> ia(sh.size(), nullptr);
        size_t k = 1;
        long first = -1, last = -1; size_t count = 0;
        for (size_t d = 0; d < sh.size(); ++d)
            if (r.idx[d].t == 'a') {
                ia[d] = p[k++];
                if (first < 0) first = d;
                last = d; ++count;
            }
        bool split = static_cast<size_t>(last - first + 1) != count;
        const auto& is = ia[first]->shape;
        // where the index dimensions go
        std::vector<long> where;  // >=0: array dim (slice); -1: index dim
        if (split) for (size_t i = 0; i < is.size(); ++i) where.push_back(-1);
        for (size_t d = 0; d < sh.size(); ++d) {
            if (!split && static_cast<long>(d) == first) for (size_t i = 0; i < is.size(); ++i) where.push_back(-1);
            if (!ia[d]) where.push_back(d);
        }
        size_t q = 0;
        for (long w : where) out.shape.push_back(w < 0 ? is[q++] : sh[w]);
        auto ist = cstrides(is);
        forEachIndex(out.shape, [&](const std::vector<long>& ix) {
            long flat = 0; size_t qq = 0; long o = 0;
            for (size_t j = 0; j < where.size(); ++j) {
                if (where[j] < 0) flat += ix[j] * ist[qq++];
                else o += ix[j] * st[where[j]];
            }
            for (size_t d = 0; d < sh.size(); ++d)
                if (ia[d]) {
                    double x = ia[d]->v.at(flat);
                    long i = std::llround(x);
                    if (!(x == x) || i < 0 || i >= sh[d]) throw Unsettled();
                    o += i * st[d];
                }
            out.v.push_back(p[0]->v.at(o));
        });
    } else if (r.kind == "perm") {
        const auto& sh = p[0]->shape;
        auto st = cstrides(sh);
        out.shape = sh;
        forEachIndex(sh, [&](const std::vector<long>& ix) {
            long o = 0;
            for (size_t d = 0; d < sh.size(); ++d) {
                long i = std::llround(p[1]->v.at(ix[d]));
                if (i < 0 || i >= sh[d]) throw Unsettled();
                o += i * st[d];
            }
            out.v.push_back(p[0]->v.at(o));
        });
    } else if (r.kind == "cat") {
        long ax = r.ip[0];
        out.shape = p[0]->shape;
        out.shape[ax] = 0;
        for (auto* q : p) out.shape[ax] += q->shape[ax];
        auto st = cstrides(out.shape);
        out.v.assign(prodShape(out.shape), 0);
        long off = 0;
        for (auto* q : p) {
            size_t k = 0;
            forEachIndex(q->shape, [&](const std::vector<long>& ix) {
                long o = 0;
                for (size_t d = 0; d < ix.size(); ++d) o += (ix[d] + (static_cast<long>(d) == ax ? off : 0)) * st[d];
                out.v.at(o) = q->v.at(k++);
            });
            off += q->shape[ax];
        }
    } else if (r.kind == "reshape") {
        out.shape = r.ip;
        out.v = p[0]->v;
    } else if (r.kind == "size") {
        out.v = {static_cast<double>(p[0]->v.size())};
    } else if (r.kind == "where") {
        if (p[0]->v.size() == 1 && p[1]->shape != p[0]->shape) out = p[0]->v[0] != 0 ? *p[1] : *p[2];
        else if (p[0]->v.size() == 1) out = p[0]->v[0] != 0 ? *p[1] : *p[2];
        else {
            out.shape = p[1]->shape;
            for (size_t i = 0; i < p[0]->v.size(); ++i) out.v.push_back(p[0]->v[i] != 0 ? p[1]->v.at(i) : p[2]->v.at(i));
        }
    } else if (r.kind == "qm") {
        long n = r.ip[0];
        double acc = 0;
        for (long i = 0; i < n; ++i) acc += r.dp[i] * p[0]->v.at(i);
        for (size_t k = n; k + 2 < r.dp.size() + 0; k += 3) acc += r.dp[k + 2] * p[0]->v.at((long)r.dp[k]) * p[0]->v.at((long)r.dp[k + 1]);
        out.v = {acc};
    } else throw Skip();
    return out;
}

inline const std::vector<std::string>& binops() { static std::vector<std::string> v{"add","sub","mul","div","mod","eq","le","and","or","xor","max","min"}; return v; }
inline const std::vector<std::string>& unops() { static std::vector<std::string> v{"abs","neg","sq","sqrt","logical","not"}; return v; }
inline const std::vector<std::string>& redops() { static std::vector<std::string> v{"all","any","max","min","prod","sum"}; return v; }
inline const std::vector<std::string>& naryops() { static std::vector<std::string> v{"add","mul","max","min"}; return v; }

// ---------------------------------------------------------------- the machine
struct Machine {
    Graph g;
    std::map<int, Rec> recs;
    std::vector<int> cons;
    int obj = -1;
    bool locked = false, inited = false;
    State st, twin;
    Oracles o;
    Stats stats;
    Hash hash;
    std::map<int, Val> snap;          // all arrays at the last quiescent point
    std::map<int, Val> expectDec;     // decisions: expected visible values now
    std::map<int, Val> committedDec;
    std::vector<Line> pending;        // mutations of the open proposal
    std::vector<int> pendingDecs;
    std::set<int> pokedDecs;

    [[noreturn]] void fail(const std::string& w) { throw Violation(w); }
    std::string name(const Rec& r) const {
        return "#" + std::to_string(r.id) + " " + r.kind + (r.op.empty() ? "" : ":" + r.op);
    }

    // ------------------------------------------------------------ building
    Rec parse(Tok& t) {
        Rec r;
        r.id = static_cast<int>(t.n());
        r.kind = t.s();
        auto dims = [&]() { long n = t.n(); if (n < 0 || n > 6) throw Skip(); for (long i = 0; i < n; ++i) r.ip.push_back(t.n()); };
        auto ref = [&]() { int id = static_cast<int>(t.n()); auto it = recs.find(id); if (it == recs.end() || !it->second.arr) throw Skip(); r.preds.push_back(id); };
        if (r.kind == "const") { dims(); long n = prodShape(r.ip); if (n < 0 || n > 4096) throw Skip(); for (long i = 0; i < n; ++i) r.dp.push_back(t.d()); }
        else if (r.kind == "int") { dims(); r.dp = {t.d(), t.d()}; }
        else if (r.kind == "bin") dims();
        else if (r.kind == "list" || r.kind == "set") r.ip = {t.n(), t.n(), t.n()};
        else if (r.kind == "dlists" || r.kind == "dbits") r.ip = {t.n(), t.n()};
        else if (r.kind == "dlist" || r.kind == "dbit") { int id = static_cast<int>(t.n()); if (!recs.count(id)) throw Skip(); r.preds = {id}; }
        else if (r.kind == "dyn") { r.ip = {t.n(), t.n(), t.n()}; r.dp = {t.d(), t.d()}; r.ip.push_back(t.n()); }  // cols minrows maxrows lo hi integral
        else if (r.kind == "binop") { r.op = t.s(); ref(); ref(); }
        else if (r.kind == "nary") { r.op = t.s(); long k = t.n(); if (k < 1 || k > 64) throw Skip(); while (k--) ref(); }
        else if (r.kind == "un") { r.op = t.s(); ref(); }
        else if (r.kind == "red") { r.op = t.s(); ref(); r.hasInit = t.n() != 0; r.init = t.d(); }
        else if (r.kind == "psum") { r.ip = {t.n()}; ref(); r.hasInit = t.n() != 0; r.init = t.d(); }
        else if (r.kind == "bidx" || r.kind == "aidx") {
            ref();
            long k = t.n();
            if (k < 0 || k > 8) throw Skip();
            while (k--) {
                Idx ix;
                ix.t = t.s()[0];
                if (ix.t == 's') { ix.a = t.on(); ix.b = t.on(); ix.c = t.on(); }
                else if (ix.t == 'i') ix.a = t.n();
                else { ix.ref = static_cast<int>(t.n()); auto it = recs.find(ix.ref); if (it == recs.end() || !it->second.arr) throw Skip(); r.preds.push_back(ix.ref); }
                r.idx.push_back(ix);
            }
        } else if (r.kind == "perm") { ref(); ref(); }
        else if (r.kind == "cat") { r.ip = {t.n()}; long k = t.n(); if (k < 0 || k > 16) throw Skip(); while (k--) ref(); }
        else if (r.kind == "reshape") { ref(); dims(); }
        else if (r.kind == "size") ref();
        else if (r.kind == "where") { ref(); ref(); ref(); }
        else if (r.kind == "qm") { ref(); r.ip = {t.n()}; long n = r.ip[0]; if (n < 0 || n > 64) throw Skip(); for (long i = 0; i < n; ++i) r.dp.push_back(t.d()); long k = t.n(); while (k-- > 0) { r.dp.push_back(t.n()); r.dp.push_back(t.n()); r.dp.push_back(t.d()); if (r.dp[r.dp.size()-3] >= n || r.dp[r.dp.size()-2] >= n) throw Skip(); } }
        else throw Skip();
        return r;
    }

    static int gridOf(double v) {
        for (int g = 0; g <= 6; ++g) { double s = std::ldexp(v, g); if (s == std::floor(s)) return g; }
        return -1;
    }

    // Own interval and exactness analysis. False: values could get too large to compare safely.
    bool facts(Rec& r) {
        auto P = [&](size_t i) -> const Rec& { return recs.at(r.preds[i]); };
        const double CAP = std::ldexp(1.0, 34), ICAP = std::ldexp(1.0, 16);
        auto corners = [&](double a, double b, double c, double d, auto f) {
            double q[4] = {f(a, c), f(a, d), f(b, c), f(b, d)};
            r.lo = *std::min_element(q, q + 4); r.hi = *std::max_element(q, q + 4);
        };
        auto inherit = [&](const Rec& p) { r.lo = p.lo; r.hi = p.hi; r.integral = p.integral; r.grid = p.grid; r.maxsize = p.maxsize; r.dyn = p.dyn; };
        auto both = [](int a, int b) { return a < 0 || b < 0 ? -1 : std::max(a, b); };
        auto boolean = [&]() { r.lo = 0; r.hi = 1; r.integral = true; r.grid = 0; };
        auto binary = [&](const std::string& op, double alo, double ahi, bool ai, int ag, double blo, double bhi, bool bi, int bg) -> bool {
            r.integral = ai && bi; r.grid = both(ag, bg);
            if (op == "add") { r.lo = alo + blo; r.hi = ahi + bhi; }
            else if (op == "sub") { r.lo = alo - bhi; r.hi = ahi - blo; }
            else if (op == "mul") { corners(alo, ahi, blo, bhi, [](double x, double y) { return x * y; }); r.grid = ag < 0 || bg < 0 ? -1 : ag + bg; }
            else if (op == "div") { if (blo <= 0 && bhi >= 0) { r.lo = 0; r.hi = 0; r.integral = false; r.grid = -1; return true; } corners(alo, ahi, blo, bhi, [](double x, double y) { return x / y; }); r.integral = false; r.grid = -1; }
            else if (op == "mod") { double m = std::max(std::abs(blo), std::abs(bhi)); r.lo = blo < 0 ? -m : 0; r.hi = bhi > 0 ? m : 0; }
            else if (op == "max") { r.lo = std::max(alo, blo); r.hi = std::max(ahi, bhi); }
            else if (op == "min") { r.lo = std::min(alo, blo); r.hi = std::min(ahi, bhi); }
            else boolean();
            return true;
        };
        r.dyn = false;
        if (r.kind == "const") {
            r.maxsize = prodShape(r.ip); r.grid = 0; r.integral = true;
            for (size_t i = 0; i < r.dp.size(); ++i) { double v = r.dp[i]; if (!i || v < r.lo) r.lo = v; if (!i || v > r.hi) r.hi = v; int gg = gridOf(v); r.grid = both(r.grid, gg); if (v != std::floor(v)) r.integral = false; }
        } else if (r.kind == "int") { r.lo = r.dp[0]; r.hi = r.dp[1]; r.integral = true; r.grid = 0; r.maxsize = prodShape(r.ip); }
        else if (r.kind == "bin" ) { boolean(); r.maxsize = prodShape(r.ip); }
        else if (r.kind == "list" || r.kind == "set") { r.lo = 0; r.hi = r.ip[0] - 1.0; r.integral = true; r.grid = 0; r.maxsize = r.ip[2]; r.dyn = r.ip[1] != r.ip[2]; }
        else if (r.kind == "dlists" || r.kind == "dbits") { }
        else if (r.kind == "dlist") { auto& p = recs.at(r.preds[0]); r.lo = 0; r.hi = p.ip[0] - 1.0; r.integral = true; r.grid = 0; r.maxsize = p.ip[0]; r.dyn = true; }
        else if (r.kind == "dbit") { boolean(); r.maxsize = recs.at(r.preds[0]).ip[0]; }
        else if (r.kind == "dyn") { r.lo = r.dp[0]; r.hi = r.dp[1]; r.integral = r.ip[3]; r.grid = r.integral ? 0 : 2; r.maxsize = r.ip[2] * std::max(1L, r.ip[0]); r.dyn = true; }
        else if (r.kind == "binop") { auto &a = P(0), &b = P(1); binary(r.op, a.lo, a.hi, a.integral, a.grid, b.lo, b.hi, b.integral, b.grid); r.maxsize = std::max(a.maxsize, b.maxsize); r.dyn = a.dyn || b.dyn; if (r.op == "eq" || r.op == "le" || r.op == "and" || r.op == "or" || r.op == "xor") boolean(); }
        else if (r.kind == "nary") {
            inherit(P(0)); r.scale = P(0).mag(); double m = std::max(1.0, P(0).mag());
            for (size_t i = 1; i < r.preds.size(); ++i) { double l = r.lo, h = r.hi; bool ig = r.integral; int gr = r.grid; auto& b = P(i); binary(r.op, l, h, ig, gr, b.lo, b.hi, b.integral, b.grid); r.scale += b.mag(); m *= std::max(1.0, b.mag()); }
            if (r.op == "mul") r.scale = m;
        } else if (r.kind == "un") {
            auto& a = P(0); inherit(a);
            if (r.op == "abs") { r.hi = a.mag(); r.lo = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0; }
            else if (r.op == "neg") { r.lo = -a.hi; r.hi = -a.lo; }
            else if (r.op == "sq") { r.hi = a.mag() * a.mag(); double x = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0; r.lo = x * x; if (r.grid > 0) r.grid *= 2; }
            else if (r.op == "sqrt") { if (a.grid < 0 && a.lo < 1e-6) return false; r.lo = std::sqrt(std::max(0.0, a.lo)); r.hi = std::sqrt(std::max(0.0, a.hi)); r.grid = -1; r.integral = false; }
            else boolean();
        } else if (r.kind == "red") {
            auto& a = P(0); inherit(a); r.dyn = false; r.maxsize = 1;
            double ini = r.hasInit ? r.init : 0;
            int ig = r.hasInit ? gridOf(r.init) : 0;
            if (r.op == "all" || r.op == "any") boolean();
            else if (r.op == "max" || r.op == "min") { if (r.hasInit) { bool none = a.dyn || a.maxsize < 1; if (r.op == "max") { r.lo = none ? ini : std::max(a.lo, ini); r.hi = std::max(a.hi, ini); } else { r.lo = std::min(a.lo, ini); r.hi = none ? ini : std::min(a.hi, ini); } r.grid = both(a.grid, ig); r.integral = a.integral && ini == std::floor(ini); } }
            else if (r.op == "sum") { double n = a.maxsize; r.lo = ini + n * std::min(0.0, a.lo); r.hi = ini + n * std::max(0.0, a.hi); r.scale = std::abs(ini) + n * a.mag(); r.grid = both(a.grid, ig); r.integral = a.integral && ini == std::floor(ini); if (!a.dyn) { r.lo = ini + n * a.lo; r.hi = ini + n * a.hi; } }
            else { double n = a.maxsize; if (n > 24) return false; double m = std::pow(std::max(1.0, a.mag()), n) * std::max(1.0, r.hasInit ? std::abs(r.init) : 1.0); r.lo = -m; r.hi = m; r.scale = m; r.grid = a.grid < 0 || ig < 0 ? -1 : static_cast<int>(a.grid * n) + ig; r.integral = a.integral && (!r.hasInit || ini == std::floor(ini)); }
        } else if (r.kind == "psum") { auto& a = P(0); inherit(a); if (r.ip[0] < 0 || r.ip[0] >= (long)a.arr->shape().size()) { return true; } double n = a.arr->shape()[r.ip[0]]; if (n < 0) return true; r.lo = n * a.lo + r.init; r.hi = n * a.hi + r.init; r.scale = n * a.mag() + std::abs(r.init); r.grid = both(a.grid, gridOf(r.init)); r.integral = a.integral && r.init == std::floor(r.init); }
        else if (r.kind == "bidx") { inherit(P(0)); }
        else if (r.kind == "aidx") {
            auto& a = P(0); inherit(a);
            // result size: product of slice dims times index size
            long m = 1; bool d0 = false;
            auto sh = a.arr->shape();
            for (size_t i = 0; i < r.idx.size() && i < sh.size(); ++i) if (r.idx[i].t == 's') { if (sh[i] >= 0) m *= sh[i]; else { d0 = true; long c = 1; for (size_t j = 1; j < sh.size(); ++j) c *= sh[j]; m *= c ? a.maxsize / std::max(1L, c) : 0; } }
            long is = 1; for (size_t i = 1; i < r.preds.size(); ++i) { is = P(i).maxsize; if (P(i).dyn) d0 = true; }
            r.maxsize = m * is; r.dyn = d0;
        } else if (r.kind == "perm") inherit(P(0));
        else if (r.kind == "cat") {
            if (r.preds.empty()) return true;
            inherit(P(0)); for (size_t i = 1; i < r.preds.size(); ++i) { auto& b = P(i); r.lo = std::min(r.lo, b.lo); r.hi = std::max(r.hi, b.hi); r.integral = r.integral && b.integral; r.grid = both(r.grid, b.grid); r.maxsize += b.maxsize; }
        } else if (r.kind == "reshape") inherit(P(0));
        else if (r.kind == "size") { r.lo = 0; r.hi = P(0).maxsize; r.integral = true; r.grid = 0; r.maxsize = 1; }
        else if (r.kind == "where") { auto &b = P(1), &c = P(2); r.lo = std::min(b.lo, c.lo); r.hi = std::max(b.hi, c.hi); r.integral = b.integral && c.integral; r.grid = both(b.grid, c.grid); r.maxsize = std::max(b.maxsize, c.maxsize); r.dyn = b.dyn || c.dyn; }
        else if (r.kind == "qm") {
            auto& a = P(0); double m = a.mag(), s = 0; int gg = 0; long n = r.ip[0];
            for (long i = 0; i < n; ++i) { s += std::abs(r.dp[i]) * m; gg = both(gg, gridOf(r.dp[i])); }
            for (size_t k = n; k + 2 < r.dp.size() + 0; k += 3) { s += std::abs(r.dp[k + 2]) * m * m; gg = both(gg, gridOf(r.dp[k + 2])); }
            r.lo = -s; r.hi = s; r.scale = 4 * s; r.grid = gg < 0 || a.grid < 0 ? -1 : gg + 2 * a.grid; r.integral = false; r.maxsize = 1; r.dyn = false;
        }
        if (r.scale < r.mag()) r.scale = r.mag();
        if (r.grid > 12) return false;
        if (r.maxsize > 600) return false;
        return r.grid >= 0 ? r.scale < CAP : r.scale < ICAP;
    }

    template <class T, class... A>
    T* mk(Rec& r, A&&... a) {
        T* p = g.emplace_node<T>(std::forward<A>(a)...);
        r.node = p;
        if constexpr (std::is_base_of_v<ArrayNode, T>) r.arr = p;
        if constexpr (std::is_base_of_v<dw::DecisionNode, T>) r.dec = p;
        return p;
    }

    void construct(Rec& r) {
        auto A = [&](size_t i) { return recs.at(r.preds[i]).arr; };
        std::vector<ssize_t> sh(r.ip.begin(), r.ip.end());
        if (r.kind == "const") { r.data = std::make_shared<std::vector<double>>(r.dp); r.data->reserve(1); mk<dw::ConstantNode>(r, r.data->data(), std::span<const ssize_t>(sh)); }
        else if (r.kind == "int") mk<dw::IntegerNode>(r, std::span<const ssize_t>(sh), static_cast<int>(r.dp[0]), static_cast<int>(r.dp[1]));
        else if (r.kind == "bin") mk<dw::BinaryNode>(r, std::span<const ssize_t>(sh));
        else if (r.kind == "list") { if (sh[0] == sh[1] && sh[1] == sh[2]) mk<dw::ListNode>(r, sh[0]); else mk<dw::ListNode>(r, sh[0], sh[1], sh[2]); }
        else if (r.kind == "set") mk<dw::SetNode>(r, sh[0], sh[1], sh[2]);
        else if (r.kind == "dlists") mk<dw::DisjointListsNode>(r, sh[0], sh[1]);
        else if (r.kind == "dbits") mk<dw::DisjointBitSetsNode>(r, sh[0], sh[1]);
        else if (r.kind == "dlist") { auto* p = dynamic_cast<dw::DisjointListsNode*>(recs.at(r.preds[0]).node); if (!p) throw Skip(); r.ip = {(long)p->successors().size()}; mk<dw::DisjointListNode>(r, p); }
        else if (r.kind == "dbit") { auto* p = dynamic_cast<dw::DisjointBitSetsNode*>(recs.at(r.preds[0]).node); if (!p) throw Skip(); r.ip = {(long)p->successors().size()}; mk<dw::DisjointBitSetNode>(r, p); }
        else if (r.kind == "dyn") {
            long c = r.ip[0], mul = std::max(1L, c);
            std::optional<ssize_t> mn = r.ip[1] * mul, mx = r.ip[2] * mul;
            if (c > 0) mk<dw::DynamicArrayTestingNode>(r, std::initializer_list<ssize_t>{-1, c}, r.dp[0], r.dp[1], r.ip[3] != 0, mn, mx);
            else mk<dw::DynamicArrayTestingNode>(r, std::initializer_list<ssize_t>{-1}, r.dp[0], r.dp[1], r.ip[3] != 0, mn, mx);
        } else if (r.kind == "binop") {
            auto *a = A(0), *b = A(1);
            if (r.op == "add") mk<dw::AddNode>(r, a, b);
            else if (r.op == "sub") mk<dw::SubtractNode>(r, a, b);
            else if (r.op == "mul") mk<dw::MultiplyNode>(r, a, b);
            else if (r.op == "div") mk<dw::DivideNode>(r, a, b);
            else if (r.op == "mod") mk<dw::ModulusNode>(r, a, b);
            else if (r.op == "eq") mk<dw::EqualNode>(r, a, b);
            else if (r.op == "le") mk<dw::LessEqualNode>(r, a, b);
            else if (r.op == "and") mk<dw::AndNode>(r, a, b);
            else if (r.op == "or") mk<dw::OrNode>(r, a, b);
            else if (r.op == "xor") mk<dw::XorNode>(r, a, b);
            else if (r.op == "max") mk<dw::MaximumNode>(r, a, b);
            else if (r.op == "min") mk<dw::MinimumNode>(r, a, b);
            else throw Skip();
        } else if (r.kind == "nary") {
            std::vector<ArrayNode*> v;
            for (size_t i = 0; i < r.preds.size(); ++i) v.push_back(A(i));
            std::span<ArrayNode*> s(v);
            if (r.op == "add") mk<dw::NaryAddNode>(r, s);
            else if (r.op == "mul") mk<dw::NaryMultiplyNode>(r, s);
            else if (r.op == "max") mk<dw::NaryMaximumNode>(r, s);
            else if (r.op == "min") mk<dw::NaryMinimumNode>(r, s);
            else throw Skip();
        } else if (r.kind == "un") {
            auto* a = A(0);
            if (r.op == "abs") mk<dw::AbsoluteNode>(r, a);
            else if (r.op == "neg") mk<dw::NegativeNode>(r, a);
            else if (r.op == "sq") mk<dw::SquareNode>(r, a);
            else if (r.op == "sqrt") mk<dw::SquareRootNode>(r, a);
            else if (r.op == "logical") mk<dw::LogicalNode>(r, a);
            else if (r.op == "not") mk<dw::NotNode>(r, a);
            else throw Skip();
        } else if (r.kind == "red") {
            auto* a = A(0);
#define RED(NAME, T) if (r.op == NAME) { if (r.hasInit) mk<T>(r, a, r.init); else mk<T>(r, a); return; }
            RED("all", dw::AllNode) RED("any", dw::AnyNode) RED("max", dw::MaxNode) RED("min", dw::MinNode) RED("prod", dw::ProdNode) RED("sum", dw::SumNode)
#undef RED
            throw Skip();
        } else if (r.kind == "psum") { if (r.hasInit) mk<dw::PartialSumNode>(r, A(0), (ssize_t)r.ip[0], r.init); else mk<dw::PartialSumNode>(r, A(0), (ssize_t)r.ip[0]); }
        else if (r.kind == "bidx") {
            std::vector<dw::BasicIndexingNode::slice_or_int> v;
            for (auto& ix : r.idx) {
                if (ix.t == 'i') v.emplace_back(static_cast<ssize_t>(*ix.a));
                else if (ix.t == 's') v.emplace_back(dw::Slice(ix.a, ix.b, ix.c));
                else throw Skip();
            }
            mk<dw::BasicIndexingNode>(r, A(0), v);
        } else if (r.kind == "aidx") {
            std::vector<dw::AdvancedIndexingNode::array_or_slice> v;
            size_t k = 1;
            for (auto& ix : r.idx) {
                if (ix.t == 'a') v.emplace_back(A(k++));
                else if (ix.t == 's') v.emplace_back(dw::Slice());
                else throw Skip();
            }
            mk<dw::AdvancedIndexingNode>(r, A(0), v);
        } else if (r.kind == "perm") mk<dw::PermutationNode>(r, A(0), A(1));
        else if (r.kind == "cat") {
            std::vector<ArrayNode*> v;
            for (size_t i = 0; i < r.preds.size(); ++i) v.push_back(A(i));
            mk<dw::ConcatenateNode>(r, std::span<ArrayNode*>(v), (ssize_t)r.ip[0]);
        } else if (r.kind == "reshape") mk<dw::ReshapeNode>(r, A(0), std::span<const ssize_t>(sh));
        else if (r.kind == "size") mk<dw::SizeNode>(r, A(0));
        else if (r.kind == "where") mk<dw::WhereNode>(r, A(0), A(1), A(2));
        else if (r.kind == "qm") {
            long n = r.ip[0];
            // the same quadratic model through the different ways of building one
            dw::QuadraticModel qm(static_cast<int>(n));
            const size_t terms = (r.dp.size() - n) / 3;
            auto term = [&](size_t k) { return std::tuple<int, int, double>((int)r.dp[n + 3 * k], (int)r.dp[n + 3 * k + 1], r.dp[n + 3 * k + 2]); };
            if (terms % 3 == 0) {
                for (long i = 0; i < n; ++i) qm.set_linear((int)i, r.dp[i]);
                for (size_t k = 0; k < terms; ++k) { auto [u, v, b] = term(k); qm.add_quadratic(u, v, b); }
            } else if (terms % 3 == 1) {
                std::vector<int> row, col;
                std::vector<double> q, sq(n, 0);
                for (size_t k = 0; k < terms; ++k) { auto [u, v, b] = term(k); if (u == v) sq[u] += b; else { row.push_back(u); col.push_back(v); q.push_back(b); } }
                qm.add_quadratic((ssize_t)q.size(), row.data(), col.data(), q.data());
                qm.add_squares(sq.data());
                qm.add_linear(r.dp.data());
            } else {
                for (long i = 0; i < n; ++i) { qm.set_linear((int)i, 5); qm.add_linear((int)i, r.dp[i] - 5); }
                for (size_t k = 0; k < terms; ++k) { auto [u, v, b] = term(k); double was = qm.get_quadratic(v, u); qm.set_quadratic(u, v, 9); qm.set_quadratic(v, u, was + b); }
                // and out again into another one
                std::vector<double> lin(n), sq(n), q(qm.num_interactions());
                std::vector<int> row(q.size()), col(q.size());
                qm.get_linear(lin.data()); qm.get_squares(sq.data()); qm.get_quadratic(row.data(), col.data(), q.data());
                dw::QuadraticModel out(static_cast<int>(n));
                for (long i = 0; i < n; ++i) out.set_linear((int)i, lin[i] + (qm.get_linear((int)i) - lin[i]));
                out.add_squares(sq.data());
                for (size_t k = 0; k < q.size(); ++k) out.set_quadratic(row[k], col[k], q[k]);
                mk<dw::QuadraticModelNode>(r, A(0), std::move(out));
                return;
            }
            mk<dw::QuadraticModelNode>(r, A(0), std::move(qm));
        } else throw Skip();
    }

    // The observable structure of the model, as text.
    std::string structure() {
        std::map<const Node*, int> idOf;
        for (auto& [id, r] : recs) idOf[r.node] = id;
        std::string s;
        for (auto& up : g.nodes()) {
            auto it = idOf.find(up.get());
            s += (it == idOf.end() ? std::string("?") : std::to_string(it->second)) + ":";
            for (auto* p : up->predecessors()) { auto j = idOf.find(p); s += j == idOf.end() ? " <?" : " <" + std::to_string(j->second); }
            for (auto& sv : up->successors()) { auto j = idOf.find(sv.ptr); s += (j == idOf.end() ? " >?" : " >" + std::to_string(j->second)) + "@" + std::to_string(sv.index); }
            s += ";";
        }
        s += " obj=" + std::to_string(g.objective() ? idOf[dynamic_cast<Node*>(g.objective())] : -1) + " cons=";
        for (auto* c : g.constraints()) s += std::to_string(idOf[dynamic_cast<const Node*>(c)]) + ",";
        s += " dec=" + std::to_string(g.num_decisions()) + " n=" + std::to_string(g.num_nodes()) + (g.topologically_sorted() ? " sorted" : "");
        return s;
    }

    void refused(const std::string& before, const std::string& what) {
        if (!o.p07) return;
        std::string after = structure();
        if (after != before) fail("refused " + what + " changed the model: before {" + before + "} after {" + after + "}");
    }

    // ------------------------------------------------------------ reading and checking
    std::map<int, Val> readAll(const State& s) {
        std::map<int, Val> m;
        for (auto& [id, r] : recs) if (r.arr) {
            try { m[id] = readRaw(r.arr, s); }
            catch (Violation& v) { fail(name(r) + ": " + v.what()); }
        }
        return m;
    }

    void hashAll(const std::map<int, Val>& m) {
        for (auto& [id, v] : m) { hash.add((long)id); for (long d : v.shape) hash.add(d); for (double x : v.v) hash.add(x); }
    }

    void checkValues(const State& s, const std::map<int, Val>& all, const char* when, bool decs = true) {
        for (auto& [id, r] : recs) {
            if (!r.arr) continue;
            const Val& got = all.at(id);
            ++stats.nodeChecks;
            if (r.arr->size(s) != (ssize_t)got.v.size()) fail(std::string(when) + ": " + name(r) + " reports size " + std::to_string(r.arr->size(s)) + " but its shape is " + showS(got.shape));
            // the library's own view of the values
            {
                auto view = r.arr->view(s);
                if ((size_t)view.size() != got.v.size()) fail(std::string(when) + ": " + name(r) + " view has the wrong size");
                size_t i = 0;
                for (const double& x : view) { if (i >= got.v.size() || !same(x, got.v[i])) fail(std::string(when) + ": " + name(r) + " view differs from the stored values at " + std::to_string(i)); ++i; }
                if (i != got.v.size()) fail(std::string(when) + ": " + name(r) + " view ends early");
            }
            const Val* want = nullptr;
            Val tmp;
            if (r.dec || r.kind == "dlist" || r.kind == "dbit") {
                if (!decs) continue;
                auto it = expectDec.find(id);
                if (it == expectDec.end()) continue;
                want = &it->second;
            } else if (r.kind == "const") {
                tmp.shape = r.ip; tmp.v = r.dp; want = &tmp;
            } else {
                std::vector<const Val*> p;
                for (int q : r.preds) p.push_back(&all.at(q));
                try { tmp = refEval(r, p); } catch (Unsettled&) { fail(std::string(when) + ": " + name(r) + " is indexed out of range"); } catch (std::out_of_range&) { fail(std::string(when) + ": " + name(r) + " operands have impossible sizes"); }
                want = &tmp;
            }
            if (want->shape != got.shape) fail(std::string(when) + ": " + name(r) + " has shape " + showS(got.shape) + ", its definition gives " + showS(want->shape));
            bool reduces = r.grid < 0 && (r.kind == "nary" || r.kind == "red" || r.kind == "psum" || r.kind == "qm");
            double tol = reduces ? 1e-9 * (1 + r.scale) : 0;
            for (size_t i = 0; i < got.v.size(); ++i) {
                double a = got.v[i], b = want->v[i];
                if (same(a, b)) continue;
                if (tol > 0 && std::abs(a - b) <= tol) continue;
                std::string ops;
                for (int q : r.preds) if (all.count(q)) ops += " operand #" + std::to_string(q) + showS(all.at(q).shape) + "=" + show(all.at(q).v);
                fail(std::string(when) + ": " + name(r) + " has " + show(got.v) + ", its definition gives " + show(want->v) + ops);
            }
        }
        if (obj >= 0) {
            double e = g.energy(s), x = all.at(obj).v.at(0);
            if (!same(e, x)) fail(std::string(when) + ": energy " + num(e) + " but the objective is " + num(x));
        } else if (g.energy(s) != 0) fail(std::string(when) + ": energy without an objective is not zero");
        bool feas = true;
        for (int c : cons) feas = feas && all.at(c).v.at(0) != 0;
        if (g.feasible(s) != feas) fail(std::string(when) + ": feasible() is " + std::to_string(!feas) + " but the constraints say " + std::to_string(feas));
    }

    void checkBounds(const State& s, const std::map<int, Val>& all, const char* when) {
        for (auto& [id, r] : recs) {
            if (!r.arr) continue;
            const Val& got = all.at(id);
            ++stats.boundChecks;
            double lo = r.arr->min(), hi = r.arr->max();
            bool in = r.arr->integral(), lg = r.arr->logical();
            // results of inexact arithmetic may miss a bound by rounding
            double tol = r.grid >= 0 ? 0 : 1e-9 * (1 + r.scale);
            for (double x : got.v) {
                if (!(x >= lo - tol && x <= hi + tol)) fail(std::string(when) + ": " + name(r) + " takes value " + num(x) + " outside its reported range [" + num(lo) + ", " + num(hi) + "]");
                if (in && x != std::floor(x)) fail(std::string(when) + ": " + name(r) + " says it is integral but takes value " + num(x));
                if (lg && x != 0 && x != 1) fail(std::string(when) + ": " + name(r) + " says it is logical but takes value " + num(x));
            }
            auto sh = r.arr->shape();
            if (sh.size() != got.shape.size() || (ssize_t)got.shape.size() != r.arr->ndim()) fail(std::string(when) + ": " + name(r) + " has " + std::to_string(got.shape.size()) + " dimensions, declares " + std::to_string(sh.size()));
            for (size_t d = 0; d < sh.size(); ++d) {
                if (sh[d] >= 0 ? sh[d] != got.shape[d] : d != 0) fail(std::string(when) + ": " + name(r) + " has shape " + showS(got.shape) + " but declares dimension " + std::to_string(d) + " as " + std::to_string(sh[d]));
            }
            long n = (long)got.v.size();
            if (r.arr->dynamic() ? r.arr->size() >= 0 : r.arr->size() != n) fail(std::string(when) + ": " + name(r) + " declares size " + std::to_string(r.arr->size()) + " but has " + std::to_string(n));
            for (int depth : {0, 1, 100}) {
                dw::SizeInfo si = r.arr->sizeinfo();
                if (depth && si.array_ptr) si = si.substitute(depth);
                if (si.min && n < *si.min) fail(std::string(when) + ": " + name(r) + " has size " + std::to_string(n) + " below its reported minimum " + std::to_string(*si.min));
                if (si.max && n > *si.max) fail(std::string(when) + ": " + name(r) + " has size " + std::to_string(n) + " above its reported maximum " + std::to_string(*si.max));
                if (!si.array_ptr && !(si == n)) fail(std::string(when) + ": " + name(r) + " has size " + std::to_string(n) + " but reports a different fixed size");
            }
        }
    }

    void checkDiffs(const State& s, const std::map<int, Val>& before, const std::map<int, Val>& now, const char* when, bool pendingChanges) {
        for (auto& [id, r] : recs) {
            if (!r.arr) continue;
            ++stats.diffChecks;
            std::vector<double> cur = before.at(id).v;
            auto diff = r.arr->diff(s);
            if (!pendingChanges) {
                if (!diff.empty()) fail(std::string(when) + ": " + name(r) + " still publishes " + std::to_string(diff.size()) + " change(s)");
                if (r.arr->size_diff(s) != 0) fail(std::string(when) + ": " + name(r) + " still publishes a change in size of " + std::to_string(r.arr->size_diff(s)));
                continue;
            }
            long nset = 0, nput = 0, ndel = 0;
            for (const auto& u : diff) {
                bool pl = std::isnan(u.old), rm = std::isnan(u.value);
                std::string us = "(" + std::to_string(u.index) + ": " + num(u.old) + " -> " + num(u.value) + ")";
                if (pl && rm) continue;  // nothing to nothing
                if (pl) { ++nput; if (u.index != (ssize_t)cur.size()) fail(std::string(when) + ": " + name(r) + " grows at the wrong place " + us); cur.push_back(u.value); }
                else if (rm) { ++ndel; if (cur.empty() || u.index != (ssize_t)cur.size() - 1) fail(std::string(when) + ": " + name(r) + " shrinks at the wrong place " + us); if (!same(cur.back(), u.old)) fail(std::string(when) + ": " + name(r) + " records the wrong old value " + us + ", it was " + num(cur.back())); cur.pop_back(); }
                else { ++nset; if (u.index < 0 || u.index >= (ssize_t)cur.size()) fail(std::string(when) + ": " + name(r) + " changes a place out of range " + us); if (!same(cur[u.index], u.old)) fail(std::string(when) + ": " + name(r) + " records the wrong old value " + us + ", it was " + num(cur[u.index])); cur[u.index] = u.value; }
            }
            const auto& want = now.at(id).v;
            bool ok = cur.size() == want.size();
            for (size_t i = 0; ok && i < cur.size(); ++i) ok = same(cur[i], want[i]);
            if (!ok) fail(std::string(when) + ": " + name(r) + " change list turns " + show(before.at(id).v) + " into " + show(cur) + " but the value is " + show(want));
            long sd = (long)want.size() - (long)before.at(id).v.size();
            if (r.arr->size_diff(s) != sd) fail(std::string(when) + ": " + name(r) + " publishes a change in size of " + std::to_string(r.arr->size_diff(s)) + ", it is " + std::to_string(sd));
            Hash h; h.add(r.kind); h.add(r.op); h.add(std::min(nset, 4L)); h.add(std::min(nput, 3L)); h.add(std::min(ndel, 3L)); h.add((long)std::min<size_t>(want.size(), 4)); h.add((long)want.empty());
            stats.sig.insert(h.h);
        }
    }

    void recordSig(const State& s, const char* mode) {
        for (auto& [id, r] : recs) {
            if (!r.arr) continue;
            long nset = 0, nput = 0, ndel = 0;
            for (const auto& u : r.arr->diff(s)) { if (std::isnan(u.old)) ++nput; else if (std::isnan(u.value)) ++ndel; else ++nset; }
            if (!(nset + nput + ndel)) continue;
            Hash h; h.add(r.kind); h.add(r.op); h.add(std::string(mode)); h.add(std::min(nset, 4L)); h.add(std::min(nput, 3L)); h.add(std::min(ndel, 3L)); h.add((long)r.arr->ndim()); h.add((long)r.arr->dynamic()); h.add((long)r.arr->contiguous());
            for (int p : r.preds) h.add(recs.at(p).kind);
            stats.sig.insert(h.h);
        }
    }

    void checkDecision(const Rec& r, const State& s, const char* when) {
        auto integerIn = [&](double x, double lo, double hi) { return x == std::floor(x) && x >= lo && x <= hi; };
        if (r.kind == "int" || r.kind == "bin") {
            double lo = r.kind == "bin" ? 0 : r.dp[0], hi = r.kind == "bin" ? 1 : r.dp[1];
            Val v = readRaw(r.arr, s);
            if ((long)v.v.size() != prodShape(r.ip)) fail(std::string(when) + ": " + name(r) + " changed size");
            for (double x : v.v) if (!integerIn(x, lo, hi)) fail(std::string(when) + ": " + name(r) + " holds " + num(x) + ", not an integer in [" + num(lo) + "," + num(hi) + "]");
        } else if (r.kind == "list" || r.kind == "set") {
            Val v = readRaw(r.arr, s);
            if ((long)v.v.size() < r.ip[1] || (long)v.v.size() > r.ip[2]) fail(std::string(when) + ": " + name(r) + " has " + std::to_string(v.v.size()) + " elements, allowed " + std::to_string(r.ip[1]) + ".." + std::to_string(r.ip[2]));
            std::set<double> seen;
            for (double x : v.v) { if (!integerIn(x, 0, r.ip[0] - 1.0)) fail(std::string(when) + ": " + name(r) + " holds " + num(x)); if (!seen.insert(x).second) fail(std::string(when) + ": " + name(r) + " repeats " + num(x)); }
        } else if (r.kind == "dlists" || r.kind == "dbits") {
            std::vector<int> count(r.ip[0], 0);
            long outs = 0;
            for (auto& [id, q] : recs) {
                if ((q.kind != "dlist" && q.kind != "dbit") || q.preds[0] != r.id) continue;
                ++outs;
                Val v = readRaw(q.arr, s);
                if (q.kind == "dlist") for (double x : v.v) { if (!integerIn(x, 0, r.ip[0] - 1.0)) fail(std::string(when) + ": " + name(q) + " holds " + num(x)); ++count[(long)x]; }
                else { if ((long)v.v.size() != r.ip[0]) fail(std::string(when) + ": " + name(q) + " has the wrong size"); for (size_t i = 0; i < v.v.size(); ++i) { if (v.v[i] != 0 && v.v[i] != 1) fail(std::string(when) + ": " + name(q) + " holds " + num(v.v[i])); count[i] += v.v[i] != 0; } }
            }
            if (outs == r.ip[1]) for (size_t i = 0; i < count.size(); ++i) if (count[i] != 1) fail(std::string(when) + ": " + name(r) + " holds element " + std::to_string(i) + " " + std::to_string(count[i]) + " times");
        }
    }

    std::vector<int> outsOf(const Rec& r) {
        if (r.arr) return {r.id};
        std::vector<int> v;
        for (auto& [id, q] : recs) if ((q.kind == "dlist" || q.kind == "dbit") && q.preds[0] == r.id) v.push_back(id);
        return v;
    }

    // ------------------------------------------------------------ mutations
    // Applies one mutation to a state. False if its preconditions do not hold there.
    // `want`: filled with the expected visible values, when the effect is fully determined.
    bool mutate(State& s, const Line& l, std::map<int, Val>* want, bool* poked) {
        Tok t(l, 1);
        int id = (int)t.n();
        auto it = recs.find(id);
        if (it == recs.end() || !it->second.dec) return false;
        Rec& r = it->second;
        std::string op = t.s();
        auto cur = [&](int q) { return readRaw(recs.at(q).arr, s); };
        if (op == "dm") {
            uint64_t seed = (uint64_t)t.n(); int mode = (int)t.n();
            dw::RngAdaptor rng(AdvRng(seed, mode));
            r.dec->default_move(s, rng);
            if (want) { ++stats.defaultMoves; if (mode) ++stats.advDraws; }
            return true;
        }
        if (r.kind == "int" || r.kind == "bin") {
            auto* p = dynamic_cast<dw::IntegerNode*>(r.node);
            auto* b = dynamic_cast<dw::BinaryNode*>(r.node);
            Val v = cur(id);
            long n = (long)v.v.size();
            long i = t.n();
            if (i < 0 || i >= n) return false;
            if (op == "set") { double x = t.d(); double lo = b ? 0 : r.dp[0], hi = b ? 1 : r.dp[1]; if (x < lo || x > hi) return false; bool ch = p->set_value(s, i, (int)x); if (want && ch != (v.v[i] != x)) fail("set_value on " + name(r) + " misreports whether it changed anything"); v.v[i] = x; }
            else if (op == "bad") {
                double x = t.d(); double lo = b ? 0 : r.dp[0], hi = b ? 1 : r.dp[1];
                if (x >= lo && x <= hi) return false;
                bool threw = false;
                try { p->set_value(s, i, (int)x); } catch (std::invalid_argument&) { threw = true; }
                if (!threw) fail(name(r) + " accepted the illegal value " + num(x));
                if (want) ++stats.refusedMoves;
            }
            else if (op == "xch") { long j = t.n(); if (j < 0 || j >= n) return false; bool ch = p->exchange(s, i, j); if (want && ch != (v.v[i] != v.v[j])) fail("exchange on " + name(r) + " misreports whether it changed anything"); std::swap(v.v[i], v.v[j]); }
            else if (op == "flip" && b) { b->flip(s, i); v.v[i] = v.v[i] == 0; }
            else if (op == "on" && b) { b->set(s, i); v.v[i] = 1; }
            else if (op == "off" && b) { b->unset(s, i); v.v[i] = 0; }
            else return false;
            if (want) (*want)[id] = v;
            return true;
        }
        if (r.kind == "list" || r.kind == "set") {
            auto* p = dynamic_cast<dw::CollectionNode*>(r.node);
            Val v = cur(id);
            long n = (long)v.v.size();
            if (op == "xch") {
                long i = t.n(), j = t.n();
                if (i < 0 || j < 0 || i >= r.ip[0] || j >= r.ip[0]) return false;
                p->exchange(s, i, j);
                if (i < n && j < n) { std::swap(v.v[i], v.v[j]); if (want) (*want)[id] = v; }
                else if (want) {  // a visible element swapped for an unused one
                    Val now = cur(id);
                    if (now.v.size() != v.v.size()) fail("exchange changed the size of " + name(r));
                    for (long k = 0; k < n; ++k) if (k != i && k != j && now.v[k] != v.v[k]) fail("exchange changed an unrelated element of " + name(r));
                    (*want)[id] = now;
                }
            } else if (op == "rot") {
                long d = t.n(), sr = t.n();
                if (d < 0 || sr < 0 || d >= n || sr >= n) return false;
                p->rotate(s, d, sr);
                double x = v.v[sr]; v.v.erase(v.v.begin() + sr); v.v.insert(v.v.begin() + d, x);
                if (want) (*want)[id] = v;
            } else if (op == "grow") {
                if (!r.dyn || n >= r.ip[2]) return false;
                p->grow(s);
                Val now = cur(id);
                if (want) {
                    if (now.v.size() != v.v.size() + 1) fail("grow did not add one element to " + name(r));
                    for (long k = 0; k < n; ++k) if (now.v[k] != v.v[k]) fail("grow changed an existing element of " + name(r));
                    (*want)[id] = now;
                }
            } else if (op == "shrink") {
                if (!r.dyn || n <= r.ip[1]) return false;
                p->shrink(s);
                v.v.pop_back(); v.shape[0] -= 1;
                if (want) (*want)[id] = v;
            } else return false;
            return true;
        }
        if (r.kind == "dlists") {
            auto* p = dynamic_cast<dw::DisjointListsNode*>(r.node);
            auto outs = outsOf(r);
            if ((long)outs.size() != r.ip[1]) return false;
            long k = (long)outs.size();
            long a = t.n();
            if (a < 0 || a >= k) return false;
            Val va = cur(outs[a]);
            long na = (long)va.v.size();
            if (p->get_disjoint_list_size(s, a) != na) fail(name(r) + " misreports the size of list " + std::to_string(a));
            if (op == "swap") { long i = t.n(), j = t.n(); if (i < 0 || j < 0 || i >= na || j >= na) return false; p->swap_in_list(s, a, i, j); std::swap(va.v[i], va.v[j]); if (want) (*want)[outs[a]] = va; }
            else if (op == "rot") { long d = t.n(), sr = t.n(); if (d < 0 || sr < 0 || d >= na || sr >= na) return false; p->rotate_in_list(s, a, d, sr); double x = va.v[sr]; va.v.erase(va.v.begin() + sr); va.v.insert(va.v.begin() + d, x); if (want) (*want)[outs[a]] = va; }
            else if (op == "pop") {
                long i = t.n(), b = t.n(), j = t.n();
                if (b < 0 || b >= k || b == a) return false;
                Val vb = cur(outs[b]);
                if (i < 0 || i >= na || j < 0 || j > (long)vb.v.size()) return false;
                p->pop_to_list(s, a, i, b, j);
                double x = va.v[i]; va.v.erase(va.v.begin() + i); vb.v.insert(vb.v.begin() + j, x);
                va.shape[0]--; vb.shape[0]++;
                if (want) { (*want)[outs[a]] = va; (*want)[outs[b]] = vb; }
            } else if (op == "sets") {
                long b = t.n(), na2 = t.n();
                if (b < 0 || b >= k || b == a) return false;
                Val vb = cur(outs[b]);
                std::vector<double> x, y;
                while (!t.done()) (((long)x.size() < na2) ? x : y).push_back(t.d());
                std::multiset<double> had(va.v.begin(), va.v.end()); had.insert(vb.v.begin(), vb.v.end());
                std::multiset<double> get(x.begin(), x.end()); get.insert(y.begin(), y.end());
                if (had != get || (long)x.size() != na2) return false;
                p->set_state(s, a, x); p->set_state(s, b, y);
                if (want) { (*want)[outs[a]] = Val{{(long)x.size()}, x}; (*want)[outs[b]] = Val{{(long)y.size()}, y}; }
            } else return false;
            return true;
        }
        if (r.kind == "dbits") {
            auto* p = dynamic_cast<dw::DisjointBitSetsNode*>(r.node);
            auto outs = outsOf(r);
            if ((long)outs.size() != r.ip[1]) return false;
            if (op != "swap") return false;
            long f = t.n(), to = t.n(), e = t.n();
            if (f < 0 || to < 0 || f >= r.ip[1] || to >= r.ip[1] || e < 0 || e >= r.ip[0]) return false;
            Val vf = cur(outs[f]), vt = cur(outs[to]);
            p->swap_between_sets(s, f, to, e);
            if (f != to) { std::swap(vf.v[e], vt.v[e]); if (want) { (*want)[outs[f]] = vf; (*want)[outs[to]] = vt; } }
            if (want) {
                long in = p->get_containing_set_index(s, e);
                if (in < 0 || in >= r.ip[1] || cur(outs[in]).v[e] != 1) fail(name(r) + " misreports the set that holds an element");
            }
            return true;
        }
        if (r.kind == "dyn") {
            auto* p = dynamic_cast<dw::DynamicArrayTestingNode*>(r.node);
            Val v = cur(id);
            long c = std::max(1L, r.ip[0]), rows = v.shape[0];
            if (op == "grow") { if (rows >= r.ip[2]) return false; std::vector<double> x; for (long i = 0; i < c; ++i) { double d = t.d(); if (d < r.lo || d > r.hi) return false; x.push_back(d); } p->grow(s, std::span<const double>(x)); v.v.insert(v.v.end(), x.begin(), x.end()); v.shape[0]++; }
            else if (op == "shrink") { if (rows <= r.ip[1] || rows <= 0) return false; p->shrink(s); v.v.resize(v.v.size() - c); v.shape[0]--; }
            else if (op == "set") { long i = t.n(); double d = t.d(); if (i < 0 || i >= (long)v.v.size() || d < r.lo || d > r.hi) return false; p->set(s, i, d); v.v[i] = d; }
            else return false;
            if (want) (*want)[id] = v;
            return true;
        }
        (void)poked;
        return false;
    }

    // Explicit initialisation of a decision. False if the values do not fit (skipped).
    bool legalInit(const Rec& r, const std::vector<std::vector<double>>& c) {
        auto all = [&](double lo, double hi) { for (auto& v : c) for (double x : v) if (!(x == std::floor(x) && x >= lo && x <= hi)) return false; return true; };
        if (r.kind == "int") return c.size() == 1 && (long)c[0].size() == prodShape(r.ip) && all(r.dp[0], r.dp[1]);
        if (r.kind == "bin") return c.size() == 1 && (long)c[0].size() == prodShape(r.ip) && all(0, 1);
        if (r.kind == "list" || r.kind == "set") { std::set<double> s(c[0].begin(), c[0].end()); return c.size() == 1 && all(0, r.ip[0] - 1.0) && s.size() == c[0].size() && (long)s.size() >= r.ip[1] && (long)s.size() <= r.ip[2]; }
        if (r.kind == "dlists") { if ((long)c.size() != r.ip[1] || !all(0, r.ip[0] - 1.0)) return false; std::multiset<double> s; for (auto& v : c) s.insert(v.begin(), v.end()); if ((long)s.size() != r.ip[0]) return false; return std::set<double>(s.begin(), s.end()).size() == s.size(); }
        if (r.kind == "dbits") { if ((long)c.size() != r.ip[1] || !all(0, 1)) return false; for (auto& v : c) if ((long)v.size() != r.ip[0]) return false; for (long e = 0; e < r.ip[0]; ++e) { double n = 0; for (auto& v : c) n += v[e]; if (n != 1) return false; } return true; }
        if (r.kind == "dyn") { long k = std::max(1L, r.ip[0]); if (c.size() != 1 || c[0].size() % k) return false; long rows = c[0].size() / k; if (rows < r.ip[1] || rows > r.ip[2]) return false; for (double x : c[0]) if (x < r.lo || x > r.hi) return false; return true; }
        return false;
    }
    void explicitInit(const Rec& r, State& s, const std::vector<std::vector<double>>& c) {
        if (r.kind == "int" || r.kind == "bin") dynamic_cast<dw::NumberNode*>(r.node)->initialize_state(s, std::vector<double>(c.at(0)));
        else if (r.kind == "list" || r.kind == "set") dynamic_cast<dw::CollectionNode*>(r.node)->initialize_state(s, c.at(0));
        else if (r.kind == "dlists") dynamic_cast<dw::DisjointListsNode*>(r.node)->initialize_state(s, c);
        else if (r.kind == "dbits") dynamic_cast<dw::DisjointBitSetsNode*>(r.node)->initialize_state(s, c);
        else if (r.kind == "dyn") dynamic_cast<dw::DynamicArrayTestingNode*>(r.node)->initialize_state(s, std::span<const double>(c.at(0)));
        else throw Skip();
    }
    std::vector<std::vector<double>> contents(Tok& t) {
        std::vector<std::vector<double>> c;
        long k = t.n();
        if (k < 0 || k > 64) throw Skip();
        while (k--) { long n = t.n(); if (n < 0 || n > 4096) throw Skip(); c.emplace_back(); while (n--) c.back().push_back(t.d()); }
        return c;
    }
    // default initial value of a decision, as documented
    void setExpected(const Rec& r, const std::vector<std::vector<double>>* c) {
        auto outs = outsOf(r);
        if (r.kind == "dlists" || r.kind == "dbits") {
            for (size_t i = 0; i < outs.size(); ++i) {
                Val v;
                if (c) v.v = (*c)[i];
                else if (r.kind == "dlists") { if (i == 0) for (long k = 0; k < r.ip[0]; ++k) v.v.push_back((double)k); }
                else v.v.assign(r.ip[0], i == 0 ? 1 : 0);
                v.shape = {(long)v.v.size()};
                expectDec[outs[i]] = v;
            }
            return;
        }
        Val v;
        if (r.kind == "int" || r.kind == "bin") { v.shape = r.ip; if (c) v.v = (*c)[0]; else { double lo = r.kind == "bin" ? 0 : r.dp[0], hi = r.kind == "bin" ? 1 : r.dp[1]; v.v.assign(prodShape(r.ip), lo <= 0 && hi >= 0 ? 0 : lo); } }
        else if (r.kind == "list") { if (c) v.v = (*c)[0]; else for (long k = 0; k < r.ip[2]; ++k) v.v.push_back((double)k); v.shape = {(long)v.v.size()}; }
        else if (r.kind == "set") { if (c) v.v = (*c)[0]; else for (long k = 0; k < r.ip[1]; ++k) v.v.push_back((double)k); v.shape = {(long)v.v.size()}; }
        else if (r.kind == "dyn") { if (c) v.v = (*c)[0]; long k = std::max(1L, r.ip[0]); v.shape = {(long)v.v.size() / k}; if (r.ip[0] > 0) v.shape.push_back(k); }
        expectDec[r.id] = v;
    }

    std::vector<std::vector<double>> currentContents(const Rec& r, const State& s) {
        std::vector<std::vector<double>> c;
        for (int q : outsOf(r)) c.push_back(readRaw(recs.at(q).arr, s).v);
        return c;
    }

    void quiescent(const char* when) {
        auto all = readAll(st);
        hashAll(all);
        if (o.p01 || o.p07) checkValues(st, all, when);
        if (o.p06) checkBounds(st, all, when);
        if (o.p03) checkDiffs(st, all, all, when, false);
        if (o.p05) for (auto& [id, r] : recs) if (r.dec) checkDecision(r, st, when);
        snap = std::move(all);
        committedDec = expectDec;
    }

    void compareExact(const std::map<int, Val>& a, const std::map<int, Val>& b, const std::string& when) {
        for (auto& [id, v] : a) {
            const Val& w = b.at(id);
            const Rec& r = recs.at(id);
            if (v.shape != w.shape) fail(when + ": " + name(r) + " has shape " + showS(w.shape) + " instead of " + showS(v.shape));
            for (size_t i = 0; i < v.v.size(); ++i) if (!same(v.v[i], w.v[i])) fail(when + ": " + name(r) + " has " + show(w.v) + " instead of " + show(v.v));
        }
    }

    // A state that saw rejected proposals may publish the same changes in another order later, and
    // sums of values that are not exact then round differently. 0: exact, 1: within rounding,
    // 2: computed from such a value (anything may happen at a discontinuity).
    std::map<int, int> rounding;
    int roundingOf(int id) {
        auto it = rounding.find(id);
        if (it != rounding.end()) return it->second;
        const Rec& r = recs.at(id);
        int k = r.grid < 0 && (r.kind == "nary" || r.kind == "red" || r.kind == "psum" || r.kind == "qm") ? 1 : 0;
        for (int p : r.preds) if (recs.count(p) && roundingOf(p)) k = 2;
        return rounding[id] = k;
    }
    void compareTwin(const std::map<int, Val>& a, const std::map<int, Val>& b, const std::string& when) {
        rounding.clear();
        for (auto& [id, v] : a) {
            const Val& w = b.at(id);
            const Rec& r = recs.at(id);
            const int k = roundingOf(id);
            if (k == 2) continue;
            if (v.shape != w.shape) fail(when + ": " + name(r) + " has shape " + showS(w.shape) + " instead of " + showS(v.shape));
            const double tol = k ? 1e-9 * (1 + r.scale) : 0;
            for (size_t i = 0; i < v.v.size(); ++i)
                if (!same(v.v[i], w.v[i]) && !(k && std::abs(v.v[i] - w.v[i]) <= tol)) fail(when + ": " + name(r) + " has " + show(w.v) + " instead of " + show(v.v));
        }
    }

    void pendingCheck(const char* mode) {
        auto all = readAll(st);
        hashAll(all);
        if (o.p01) checkValues(st, all, "pending proposal");
        if (o.p06) checkBounds(st, all, "pending proposal");
        if (o.p03) checkDiffs(st, snap, all, "pending proposal", true);
        recordSig(st, mode);
    }

    // ------------------------------------------------------------ copies of states
    // A copy is taken at any moment; one of the two goes on while the other is kept. Later the kept
    // one must not have changed, and must give the same results when it gets the same operations.
    struct Did { Line move; std::string mode; long k = 0; std::vector<const Node*> sources; std::map<int, Val> after; };
    struct Changes { ssize_t index; double old, value; };
    struct { bool on = false, open = false; State s; std::map<int, Val> snap; std::map<int, std::vector<Changes>> diffs; std::vector<Did> did; } kept;

    static State cloneState(const State& s) {
        State c;
        c.reserve(s.size());
        for (auto& p : s) c.push_back(p ? p->copy() : nullptr);
        return c;
    }
    // Until a proposal is propagated only the decisions can be read.
    std::map<int, Val> readSome(const State& s, bool onlyDecisions) {
        if (!onlyDecisions) return readAll(s);
        std::map<int, Val> m;
        for (auto& [id, r] : recs) if (r.dec) for (int q : outsOf(r)) m[q] = readRaw(recs.at(q).arr, s);
        return m;
    }
    std::map<int, std::vector<Changes>> readDiffs(const State& s, bool onlyDecisions = false) {
        std::map<int, std::vector<Changes>> m;
        for (auto& [id, r] : recs) if (r.arr && (!onlyDecisions || r.dec)) for (const auto& u : r.arr->diff(s)) m[id].push_back({u.index, u.old, u.value});
        return m;
    }
    void compareDiffs(const std::map<int, std::vector<Changes>>& a, const State& s, const std::string& when, bool onlyDecisions = false) {
        const auto b = readDiffs(s, onlyDecisions);
        for (auto& [id, r] : recs) {
            auto i = a.find(id); auto j = b.find(id);
            size_t n = i == a.end() ? 0 : i->second.size(), k = j == b.end() ? 0 : j->second.size();
            bool ok = n == k;
            for (size_t q = 0; ok && q < n; ++q) ok = i->second[q].index == j->second[q].index && same(i->second[q].old, j->second[q].old) && same(i->second[q].value, j->second[q].value);
            if (!ok) fail(when + ": " + name(r) + " publishes other changes");
        }
    }
    void applyVerdict(State& s, const std::string& mode, long k, const std::vector<const Node*>& sources) {
        auto changed = Graph::descendants(s, sources);
        if (mode == "part") {
            size_t n = changed.empty() ? 0 : (size_t)(k % (long)(changed.size() + 1));
            g.propagate(s, std::vector<const Node*>(changed.begin(), changed.begin() + n));
            g.revert(s, std::span<const Node*>(changed));
        } else if (mode == "aband") {
            g.revert(s, std::span<const Node*>(const_cast<std::vector<const Node*>&>(sources)));
        } else {
            g.propagate(s, std::span<const Node*>(changed));
            if (mode == "acc" || mode == "macc" || mode == "cacc") g.commit(s, std::span<const Node*>(changed)); else g.revert(s, std::span<const Node*>(changed));
        }
    }
    void finishKept() {
        if (!kept.on) return;
        kept.on = false;
        compareExact(kept.snap, readSome(kept.s, kept.open), "a state changed when its copy, or the state it was copied from, did");
        compareDiffs(kept.diffs, kept.s, "a state changed when its copy, or the state it was copied from, did", kept.open);
        for (auto& d : kept.did) {
            ++stats.copySteps;
            if (!d.move.empty()) { if (!mutate(kept.s, d.move, nullptr, nullptr)) fail("of a state and its copy, one refuses a move the other accepted: " + join(d.move)); continue; }
            applyVerdict(kept.s, d.mode, d.k, d.sources);
            compareExact(d.after, readAll(kept.s), "of a state and its copy, given the same operations, one");
        }
        kept.did.clear();
        kept.s.clear();
    }

    void initTwin() {
        if (!o.p02 && !o.p05) return;
        twin = g.empty_state();
    }

    // ------------------------------------------------------------ one program line
    void exec(const Line& l) {
        if (l.empty()) return;
        ++stats.lines;
        hash.add(join(l));
        try { execInner(l); } catch (Skip&) { hash.add(std::string("skip")); }
    }

    static std::exception_ptr nullex() { return nullptr; }

    void execInner(const Line& l) {
        Tok t(l, 1);
        const std::string& c = l[0];
        if (c == "N") {
            Rec r = parse(t);
            if (recs.count(r.id)) throw Skip();
            if (!facts(r)) throw Skip();
            std::string before = o.p07 ? structure() : "";
            try { construct(r); }
            catch (Skip&) { throw; }
            catch (std::exception& e) {
                ++stats.refusedBuilds;
                hash.add(std::string("refused"));
                refused(before, "construction of " + name(r) + " (" + e.what() + ")");
                return;
            }
            if (locked) fail("a symbol was added to a sorted model: " + name(r));
            ++stats.nodes;
            recs[r.id] = r;
        } else if (c == "X") {  // extend an n-ary node
            int id = (int)t.n(), a = (int)t.n();
            if (!recs.count(id) || !recs.count(a) || locked) throw Skip();
            Rec& r = recs.at(id);
            if (r.kind != "nary" || !recs.at(a).arr) throw Skip();
            // must not create a cycle, nor be used already (its facts were taken into account)
            if (!r.node->successors().empty() || a == id) throw Skip();
            Rec tmp = r; tmp.preds.push_back(a);
            if (!facts(tmp)) throw Skip();
            std::string before = o.p07 ? structure() : "";
            auto* q = recs.at(a).arr;
            try {
                if (r.op == "add") dynamic_cast<dw::NaryAddNode*>(r.node)->add_node(q);
                else if (r.op == "mul") dynamic_cast<dw::NaryMultiplyNode*>(r.node)->add_node(q);
                else if (r.op == "max") dynamic_cast<dw::NaryMaximumNode*>(r.node)->add_node(q);
                else dynamic_cast<dw::NaryMinimumNode*>(r.node)->add_node(q);
            } catch (std::exception& e) { ++stats.refusedBuilds; refused(before, "extension of " + name(r)); return; }
            r = tmp;
        } else if (c == "O") {
            int id = (int)t.n();
            if (!recs.count(id) || !recs.at(id).arr) throw Skip();
            std::string before = o.p07 ? structure() : "";
            bool ok = true;
            try { g.set_objective(recs.at(id).arr); } catch (std::exception&) { ok = false; ++stats.refusedBuilds; refused(before, "objective"); if (o.p07 && recs.at(id).arr->size() == 1) fail("a scalar was refused as the objective"); }
            if (ok) { if (recs.at(id).arr->size() != 1) fail("an objective with size != 1 was accepted"); obj = id; }
        } else if (c == "C") {
            int id = (int)t.n();
            if (!recs.count(id) || !recs.at(id).arr) throw Skip();
            std::string before = o.p07 ? structure() : "";
            bool ok = true;
            try { g.add_constraint(recs.at(id).arr); } catch (std::exception&) { ok = false; ++stats.refusedBuilds; refused(before, "constraint"); if (o.p07 && recs.at(id).arr->size() == 1 && recs.at(id).arr->logical()) fail("a logical scalar was refused as a constraint"); }
            if (ok) cons.push_back(id);
        } else if (c == "L") {
            g.topological_sort();
            locked = true;
        } else if (c == "I") {  // initial state: I (id contents)* -> all others default
            if (!locked || inited) throw Skip();
            struct Init { Rec* r; std::vector<std::vector<double>> c; };
            std::vector<Init> inits;
            std::set<int> seen;
            while (!t.done()) {
                int id = (int)t.n();
                auto cc = contents(t);
                if (!recs.count(id) || !recs.at(id).dec || !legalInit(recs.at(id), cc) || !seen.insert(id).second) continue;
                Rec& r = recs.at(id);
                if ((r.kind == "dlists" || r.kind == "dbits") && (long)outsOf(r).size() != r.ip[1]) continue;
                inits.push_back({&r, cc});
            }
            for (auto& [id, r] : recs) if (r.dec) {
                // this testing-only decision starts empty, which its size limits may forbid
                if (r.kind == "dyn" && !seen.count(id)) { long k = std::max(1L, r.ip[0]); inits.push_back({&r, {std::vector<double>(r.ip[1] * k, r.lo)}}); seen.insert(id); }
            }
            auto doInit = [&](State& s) {
                s = g.empty_state();
                for (auto& i : inits) explicitInit(*i.r, s, i.c);
                g.initialize_state(s);
            };
            doInit(st);
            if (o.p02 || o.p05) doInit(twin);
            for (auto& [id, r] : recs) if (r.dec) setExpected(r, nullptr);
            for (auto& i : inits) setExpected(*i.r, &i.c);
            inited = true;
            quiescent("after initialisation");
        } else if (c == "B") {  // refused initialisation of a decision in a fresh state
            if (!locked) throw Skip();
            int id = (int)t.n();
            auto cc = contents(t);
            if (!recs.count(id) || !recs.at(id).dec) throw Skip();
            Rec& r = recs.at(id);
            if (r.kind == "dyn" || legalInit(r, cc)) throw Skip();
            if ((r.kind != "dlists" && r.kind != "dbits") && cc.size() != 1) throw Skip();
            State s = g.empty_state();
            bool threw = false;
            try { explicitInit(r, s, cc); } catch (std::invalid_argument&) { threw = true; }
            if (!threw) { if (o.p05) fail(name(r) + " accepted illegal contents " + join(l)); return; }
            ++stats.refusedInits;
            if (o.p07) {
                for (auto& p : s) if (p) fail("a refused initialisation of " + name(r) + " left something in the state");
                for (auto& [q, rr] : recs) if (rr.kind == "dyn") explicitInit(rr, s, {std::vector<double>(rr.ip[1] * std::max(1L, rr.ip[0]), rr.lo)});
                g.initialize_state(s);
                checkValues(s, readAll(s), "initialisation after a refused one", false);
            }
        } else if (c == "M") {
            if (!inited) throw Skip();
            std::map<int, Val> want;
            bool poked = false;
            if (!mutate(st, l, &want, &poked)) throw Skip();
            ++stats.mutations;
            if (kept.on) kept.did.push_back({l, "", 0, {}, {}});
            int id = (int)std::strtol(l[1].c_str(), nullptr, 10);
            Rec& r = recs.at(id);
            if (std::find(pendingDecs.begin(), pendingDecs.end(), id) == pendingDecs.end()) pendingDecs.push_back(id);
            pending.push_back(l);
            for (int q : outsOf(r)) {
                Val now = readRaw(recs.at(q).arr, st);
                auto it = want.find(q);
                if (l[2] == "dm") { expectDec[q] = now; continue; }
                const Val& w = it != want.end() ? it->second : expectDec[q];
                if (o.p01 || o.p05 || o.p07) {
                    bool ok = w.shape == now.shape && w.v.size() == now.v.size();
                    for (size_t i = 0; ok && i < w.v.size(); ++i) ok = same(w.v[i], now.v[i]);
                    if (!ok) fail("move '" + join(l) + "' gives " + name(recs.at(q)) + " the value " + show(now.v) + " instead of " + show(w.v));
                }
                expectDec[q] = w;
            }
            if (o.p05) checkDecision(r, st, ("after move " + join(l)).c_str());
        } else if (c == "P") {  // close the proposal: P mode k [extra decisions]
            if (!inited) throw Skip();
            std::string mode = t.s();
            long k = t.n();
            std::vector<const Node*> sources;
            std::vector<int> ids = pendingDecs;
            while (!t.done()) { int id = (int)t.n(); if (recs.count(id) && recs.at(id).dec && std::find(ids.begin(), ids.end(), id) == ids.end()) ids.push_back(id); }
            for (int id : ids) sources.push_back(recs.at(id).node);
            if (sources.size() > 1 && (k & 1)) std::reverse(sources.begin(), sources.end());
            bool accepted = false, alsoDone = false;
            std::optional<State> also;
            struct Boom {};
            if (mode == "acc" || mode == "rej") {
                accepted = mode == "acc";
                g.propose(st, sources, [&](const Graph&, State&) { pendingCheck(mode.c_str()); return accepted; });
                accepted ? ++stats.accepted : ++stats.rejected;
            } else if (mode == "thr") {
                bool thrown = false;
                try { g.propose(st, sources, [&](const Graph&, State&) -> bool { pendingCheck("thr"); throw Boom(); }); } catch (Boom&) { thrown = true; }
                if (!thrown) fail("an exception thrown by the verdict was swallowed");
                g.revert(st, Graph::descendants(st, sources));
                ++stats.thrown;
            } else if (mode == "macc" || mode == "mrej") {
                auto changed = Graph::descendants(st, sources);
                std::set<const Node*> uniq(changed.begin(), changed.end());
                if (uniq.size() != changed.size() && o.p01) fail("descendants() lists a node twice");
                g.propagate(st, std::span<const Node*>(changed));
                pendingCheck(mode.c_str());
                accepted = mode == "macc";
                if (accepted) g.commit(st, std::span<const Node*>(changed)); else g.revert(st, std::span<const Node*>(changed));
                accepted ? ++stats.accepted : ++stats.rejected;
            } else if (mode == "cacc" || mode == "crej") {  // a copy of the pending proposal gets the other verdict
                auto changed = Graph::descendants(st, sources);
                g.propagate(st, std::span<const Node*>(changed));
                pendingCheck(mode.c_str());
                auto all = readAll(st);
                State c = cloneState(st);
                ++stats.copies;
                compareExact(all, readAll(c), "copy of a state with a pending proposal");
                compareDiffs(readDiffs(st), c, "copy of a state with a pending proposal");
                if (k & 4) {  // and another copy gets the same verdict and goes on like the state, or in its place
                    also = cloneState(st);
                    if (k & 8) std::swap(*also, st);
                    if (k & 16) { mode == "cacc" ? g.commit(*also, std::span<const Node*>(changed)) : g.revert(*also, std::span<const Node*>(changed)); alsoDone = true; }
                }
                accepted = mode == "cacc";
                State& yes = accepted ? st : c;
                State& no = accepted ? c : st;
                if (k & 2) g.revert(no, std::span<const Node*>(changed));
                g.commit(yes, std::span<const Node*>(changed));
                if (!(k & 2)) g.revert(no, std::span<const Node*>(changed));
                if (also && !alsoDone) accepted ? g.commit(*also, std::span<const Node*>(changed)) : g.revert(*also, std::span<const Node*>(changed));
                compareExact(all, readAll(yes), "accepted while a copy was rejected");
                compareExact(snap, readAll(no), "rejected while a copy was accepted");
                accepted ? ++stats.accepted : ++stats.rejected;
            } else if (mode == "part") {
                auto changed = Graph::descendants(st, sources);
                size_t n = changed.empty() ? 0 : (size_t)(k % (long)(changed.size() + 1));
                g.propagate(st, std::vector<const Node*>(changed.begin(), changed.begin() + n));
                if (o.p16 && (k & 32)) {  // copied half-way
                    also = cloneState(st);
                    if (k & 8) std::swap(*also, st);
                    g.revert(*also, std::span<const Node*>(changed));
                }
                g.revert(st, std::span<const Node*>(changed));
                ++stats.partial;
            } else if (mode == "aband") {
                g.revert(st, std::span<const Node*>(sources));
                ++stats.abandoned;
            } else throw Skip();
            if (accepted) {
                if (o.p02 || o.p05) {
                    for (auto& m : pending) { if (!mutate(twin, m, nullptr, nullptr)) fail("twin state refuses a move the state accepted: " + join(m)); }
                    auto changed = Graph::descendants(twin, sources);
                    g.propagate(twin, std::span<const Node*>(changed));
                    g.commit(twin, std::span<const Node*>(changed));
                }
            } else {
                expectDec = committedDec;
                if (o.p02) compareExact(snap, readAll(st), "after rejection (" + mode + ")");
            }
            if (kept.on) kept.did.push_back({{}, mode, k, sources, readAll(st)});
            if (also) {
                finishKept();
                ++stats.copies;
                kept.on = true; kept.open = false; kept.s = std::move(*also); kept.snap = readAll(st); kept.diffs = readDiffs(st);
            }
            pending.clear(); pendingDecs.clear();
            quiescent(accepted ? "after acceptance" : "after rejection");
            if (o.p02 || (o.p05 && accepted)) { ++stats.twinChecks; if (o.p02) compareTwin(readAll(twin), snap, "compared with a state that never saw the rejected proposals, after " + mode); else compareExact(readAll(twin), snap, "the same moves with the same random stream gave another result, after " + mode); }
        } else if (c == "RR") {  // the same for numbers, with random values: RR id seed mode
            if (!inited || !pending.empty()) throw Skip();
            int id = (int)t.n();
            uint64_t seed = (uint64_t)t.n();
            int mode = (int)t.n();
            if (!recs.count(id) || !recs.at(id).dec) throw Skip();
            Rec& r = recs.at(id);
            if (r.kind != "int" && r.kind != "bin") throw Skip();
            auto doit = [&](State& s) {
                Graph::recursive_reset(s, r.node);
                dw::RngAdaptor rng(AdvRng(seed, mode));
                try { dynamic_cast<dw::NumberNode*>(r.node)->initialize_state(s, rng); }
                catch (std::invalid_argument&) {
                    if (o.p05) fail(name(r) + " refuses the random values it drew itself");
                    throw Skip();
                }
                g.initialize_state(s);
            };
            finishKept();
            doit(st);
            if (o.p02 || o.p05) doit(twin);
            if (mode) ++stats.advDraws;
            std::vector<std::vector<double>> cc = {readRaw(r.arr, st).v};
            setExpected(r, &cc);
            ++stats.reinits;
            quiescent("after initialisation with random values");
            if (o.p05) { ++stats.twinChecks; compareExact(readAll(twin), readAll(st), "initialised with the same random stream, two states differ:"); }
        } else if (c == "R") {  // reset a decision (and dependants) and initialise again
            if (!inited || !pending.empty()) throw Skip();
            int id = (int)t.n();
            if (!recs.count(id) || !recs.at(id).dec) throw Skip();
            Rec& r = recs.at(id);
            std::vector<std::vector<double>> cc;
            bool expl = !t.done();
            if (expl) { cc = contents(t); if (!legalInit(r, cc)) throw Skip(); }
            else if (r.kind == "dyn") { expl = true; cc = {std::vector<double>(r.ip[1] * std::max(1L, r.ip[0]), r.lo)}; }
            if ((r.kind == "dlists" || r.kind == "dbits") && (long)outsOf(r).size() != r.ip[1]) throw Skip();
            auto doit = [&](State& s) {
                Graph::recursive_reset(s, r.node);
                if (expl) explicitInit(r, s, cc);
                // initialise lazily, in an arbitrary order, then the rest
                int step = (int)recs.size() / 3 + 1, i = 0;
                for (auto& [q, rr] : recs) if (i++ % step == 0) Graph::recursive_initialize(s, rr.node);
                g.initialize_state(s);
            };
            finishKept();
            doit(st);
            if (o.p02 || o.p05) doit(twin);
            setExpected(r, expl ? &cc : nullptr);
            ++stats.reinits;
            quiescent("after re-initialisation");
        } else if (c == "K") {  // copy the state: K 0 goes on with the copy, K 1 with the original, KE compares
            if (!inited) throw Skip();
            finishKept();
            long which = t.n();
            bool open = !pending.empty();
            auto all = readSome(st, open);
            auto diffs = readDiffs(st, open);
            State s = cloneState(st);
            ++stats.copies;
            compareExact(all, readSome(s, open), "copy of a state");
            compareDiffs(diffs, s, "copy of a state", open);
            if (s.size() != st.size()) fail("copy of a state has another size");
            if (which == 0) std::swap(s, st);
            kept.on = true; kept.open = open; kept.s = std::move(s); kept.snap = std::move(all); kept.diffs = std::move(diffs);
        } else if (c == "KE") {
            finishKept();
        } else if (c == "F") {  // a fresh state with the current decisions
            if (!inited || !pending.empty()) throw Skip();
            State s = g.empty_state();
            for (auto& [id, r] : recs) if (r.dec) {
                if ((r.kind == "dlists" || r.kind == "dbits") && (long)outsOf(r).size() != r.ip[1]) { if (outsOf(r).size()) throw Skip(); continue; }
                explicitInit(r, s, currentContents(r, st));
            }
            g.initialize_state(s);
            ++stats.fresh;
            auto all = readAll(s);
            if (o.p01) checkValues(s, all, "freshly initialised state");
            if (o.p06) checkBounds(s, all, "freshly initialised state");
            if (o.p03) checkDiffs(s, all, all, "freshly initialised state", false);
        } else if (c == "E") {  // memory runs out at the k-th allocation of an initialisation, then retry
            if (!inited || !pending.empty()) throw Skip();
            long k = t.n();
            State s = g.empty_state();
            for (auto& [id, r] : recs) if (r.dec) {
                if ((r.kind == "dlists" || r.kind == "dbits") && (long)outsOf(r).size() != r.ip[1]) continue;
                explicitInit(r, s, currentContents(r, st));
            }
            bool threw = false;
            g_alloc_countdown = k;
            try { static_cast<const Graph&>(g).initialize_state(s); } catch (std::bad_alloc&) { threw = true; }
            g_alloc_countdown = -1;
            if (threw) {
                ++stats.allocFaults;
                auto mine = readAll(st);
                compareExact(snap, mine, "another state after a failed initialisation");
                g.initialize_state(s);
            }
            checkValues(s, readAll(s), "retried initialisation", false);
            compareExact(snap, readAll(st), "another state after a retried initialisation");
        }
    }
};

}  // namespace sim
