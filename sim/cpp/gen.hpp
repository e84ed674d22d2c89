// Seeded generator of simulated histories: builds a model, then decides every move, verdict and fault.
#pragma once
#include "machine.hpp"

namespace sim {

struct Gen {
    Rng r;
    Machine& m;
    std::function<void(const Line&)> emit_;
    bool invalid;      // insert constructions and initialisations that must be refused
    bool allocFaults;
    bool copies = false;  // copy states
    int nextId = 0;
    // swarm configuration
    int nDec, nNodes, nSteps, rejPct, moveMax, zeroPct, advPct, dmPct, constPct, fullPct;
    std::map<std::string, int> w, dw;
    std::set<std::string> binAllowed, unAllowed, redAllowed;

    Gen(uint64_t seed, Machine& m, std::function<void(const Line&)> e, bool invalid, bool allocFaults)
        : r(seed), m(m), emit_(std::move(e)), invalid(invalid), allocFaults(allocFaults) {
        nDec = (int)r.range(1, 4);
        nNodes = (int)(r.chance(30) ? r.range(1, 5) : r.range(4, 20));
        nSteps = (int)(r.chance(25) ? r.range(20, 60) : r.range(3, 20));
        static const int rp[] = {0, 30, 50, 50, 80, 100};
        rejPct = rp[r.below(6)];
        moveMax = (int)r.pick(std::vector<long>{1, 2, 3, 5, 9});
        zeroPct = r.chance(15) ? 15 : 0;
        advPct = r.chance(50) ? 60 : 0;
        dmPct = (int)r.pick(std::vector<long>{0, 15, 30, 100});
        constPct = r.chance(30) ? 25 : 8;
        fullPct = 12;
        for (const char* k : {"int", "bin", "list", "set", "dlists", "dbits", "dyn"}) dw[k] = r.chance(70) ? (int)r.range(1, 10) : 0;
        for (const char* k : {"binop", "nary", "un", "red", "psum", "bidx", "aidx", "perm", "cat", "reshape", "size", "where", "qm"}) w[k] = r.chance(65) ? (int)r.range(1, 10) : 0;
        if (r.chance(12)) { for (auto& [k, v] : w) v = 1; for (auto& [k, v] : dw) v = 1; }
        for (auto& x : binops()) if (r.chance(60)) binAllowed.insert(x);
        for (auto& x : unops()) if (r.chance(70)) unAllowed.insert(x);
        for (auto& x : redops()) if (r.chance(70)) redAllowed.insert(x);
        // now and then: few symbols, large decisions, wide ranges
        big = r.chance(2);
        if (big) { nDec = (int)r.range(1, 2); nNodes = (int)r.range(1, 7); nSteps = (int)r.range(3, 15); }
    }
    bool big = false;
    long large() { return r.chance(25) ? r.range(60, 140) : r.range(12, 40); }

    int id() { return nextId++; }
    std::string pickW(const std::map<std::string, int>& ww) {
        long t = 0;
        for (auto& [k, v] : ww) t += v;
        if (!t) { long i = r.below((long)ww.size()); auto it = ww.begin(); std::advance(it, i); return it->first; }
        long x = r.below(t);
        for (auto& [k, v] : ww) { if (x < v) return k; x -= v; }
        return ww.begin()->first;
    }
    std::string pickS(const std::set<std::string>& s, const std::vector<std::string>& all) {
        if (s.empty()) return r.pick(all);
        auto it = s.begin(); std::advance(it, r.below((long)s.size())); return *it;
    }
    void emit(const Line& l) { emit_(l); }

    std::vector<long> dims(int maxNd = 3) {
        long nd = r.pick(std::vector<long>{0, 1, 1, 1, 2, 2, 3});
        if (nd > maxNd) nd = maxNd;
        std::vector<long> s;
        if (big && nd && r.chance(50)) { s.push_back(large()); if (nd > 1) s.insert(r.chance(50) ? s.begin() : s.end(), r.range(1, 3)); return s; }
        for (long i = 0; i < nd; ++i) s.push_back(r.chance(zeroPct) ? 0 : r.chance(10) ? r.range(1, 2) : r.range(2, nd == 1 ? 6 : nd == 2 ? 4 : 3));
        return s;
    }
    static Line shapeTok(const std::vector<long>& s) { Line l{num((double)s.size())}; for (long x : s) l.push_back(num((double)x)); return l; }
    double value() {
        switch (r.below(6)) {
            case 0: return (double)r.range(-2, 2);
            case 1: return (double)r.range(-6, 9);
            case 2: return (double)r.range(0, 1);
            case 3: return (double)r.range(-8, 8) / 4.0;
            default: return (double)r.range(0, 4);
        }
    }
    int constant(const std::vector<long>& s, int style = -1) {
        int i = id();
        Line l = L("N", i, "const");
        for (auto& t : shapeTok(s)) l.push_back(t);
        if (style < 0) style = (int)r.below(4);
        for (long k = 0; k < prodShape(s); ++k)
            l.push_back(num(style == 0 ? (double)r.range(0, 2) : style == 1 ? (double)r.range(0, 1) : style == 2 ? (double)r.range(-4, 6) : style == 9 ? (double)r.range(1, 5) : value()));
        emit(l);
        return i;
    }
    int idxConst(const std::vector<long>& s, long n) {
        int i = id();
        Line l = L("N", i, "const");
        for (auto& t : shapeTok(s)) l.push_back(t);
        for (long k = 0; k < prodShape(s); ++k) l.push_back(num((double)r.below(n)));
        emit(l);
        return i;
    }

    void decision() {
        std::string k = pickW(dw);
        int i = id();
        if (k == "int") {
            long lo = r.pick(std::vector<long>{0, 0, 0, -3, -5, 1, 2, -10}), hi = lo + r.pick(std::vector<long>{0, 1, 2, 3, 5, 12});
            if (big && r.chance(50)) { lo = r.pick(std::vector<long>{-2000000000, -70000, -200, 0, 0}); hi = r.pick(std::vector<long>{130, 300, 70000, 2000000000}); }
            Line l = L("N", i, "int"); for (auto& t : shapeTok(dims())) l.push_back(t);
            l.push_back(num((double)lo)); l.push_back(num((double)hi)); emit(l);
        } else if (k == "bin") { Line l = L("N", i, "bin"); for (auto& t : shapeTok(dims())) l.push_back(t); emit(l); }
        else if (k == "list") { long n = r.chance(zeroPct) ? 0 : big ? large() : r.range(1, 6); if (r.chance(60)) emit(L("N", i, "list", n, n, n)); else { long mx = r.range(0, n), mn = r.range(0, mx); emit(L("N", i, "list", n, mn, mx)); } }
        else if (k == "set") { long n = r.chance(zeroPct) ? 0 : big ? large() : r.range(1, 6); long mx = r.chance(60) ? n : r.range(0, n), mn = r.chance(50) ? 0 : r.range(0, mx); emit(L("N", i, "set", n, mn, mx)); }
        else if (k == "dlists" || k == "dbits") {
            long n = r.chance(zeroPct) ? 0 : big ? large() : r.range(1, 6), c = big && r.chance(30) ? r.range(5, 15) : r.range(1, 4);
            emit(L("N", i, k, n, c));
            for (long q = 0; q < c; ++q) emit(L("N", id(), k == "dlists" ? "dlist" : "dbit", i));
        } else {
            long c = r.chance(50) ? 0 : r.range(1, 3), mx = r.range(1, 5), mn = r.chance(60) ? 0 : r.range(0, mx);
            long integral = r.chance(60);
            double lo = (double)r.pick(std::vector<long>{0, 0, -2, -4, 1}), hi = lo + (double)r.range(0, 6);
            emit(L("N", i, "dyn", c, mn, mx, lo, hi, integral));
        }
    }

    std::vector<int> arrays(const std::function<bool(const Rec&)>& f = nullptr) {
        std::vector<int> v;
        for (auto& [id, q] : m.recs) if (q.arr && (!f || f(q))) v.push_back(id);
        return v;
    }
    int pickArr(const std::function<bool(const Rec&)>& f = nullptr) {
        auto v = arrays(f);
        if (v.empty()) return -1;
        if (r.chance(40)) return v[std::max<long>(0, (long)v.size() - 1 - r.below(4))];
        int x = r.pick(v);
        if (m.recs.at(x).kind == "const") x = r.pick(v);
        return x;
    }
    std::vector<long> sh(int a) { auto s = m.recs.at(a).arr->shape(); return {s.begin(), s.end()}; }
    bool isDyn(int a) { return m.recs.at(a).arr->dynamic(); }
    int scalarConst() { std::vector<long> s; if (r.chance(25)) s = {1}; return constant(s); }

    // something with the same shape (and for dynamic arrays the same size) as a
    int mate(int a) {
        if (isDyn(a)) {
            auto v = arrays([&](const Rec& q) { return q.arr->dynamic() && q.arr->shape().size() == m.recs.at(a).arr->shape().size() && std::equal(q.arr->shape().begin(), q.arr->shape().end(), m.recs.at(a).arr->shape().begin()) && q.arr->sizeinfo().substitute(100) == m.recs.at(a).arr->sizeinfo().substitute(100); });
            return v.empty() ? a : r.pick(v);
        }
        auto s = sh(a);
        auto v = arrays([&](const Rec& q) { return sh(q.id) == s; });
        if (!r.chance(constPct) && !v.empty()) return r.pick(v);
        return constant(s, r.chance(30) ? 9 : -1);
    }

    Line slice(long n) {
        auto o = [&](long lo, long hi) -> std::string { return r.chance(40) ? "." : num((double)r.range(lo, hi)); };
        long hi = n < 0 ? 4 : n + 1;
        std::string a = o(r.chance(30) ? -hi : 0, hi), b = o(r.chance(30) ? -hi : 0, hi), c = r.chance(70) ? (r.chance(50) ? "." : "1") : num((double)r.range(2, 3));
        return Line{"s", a, b, c};
    }

    void node() {
        std::string k = pickW(w);
        int i;
        if (k == "binop") {
            std::string op = pickS(binAllowed, binops());
            int a = pickArr();
            if (a < 0) return;
            int b;
            if (r.chance(35)) { auto v = arrays([&](const Rec& q) { return q.arr->size() == 1; }); b = v.empty() || r.chance(constPct) ? scalarConst() : r.pick(v); }
            else b = mate(a);
            if (op == "div") { auto q = m.recs.find(b); if (q == m.recs.end() || (q->second.lo <= 0 && q->second.hi >= 0)) b = constant(isDyn(a) ? std::vector<long>{} : sh(a), 9); }
            i = id();
            if (r.chance(30) && op != "div") std::swap(a, b);
            emit(L("N", i, "binop", op, a, b));
        } else if (k == "nary") {
            std::string op = r.pick(naryops());
            int a = pickArr([](const Rec& q) { return !q.arr->dynamic(); });
            if (a < 0) return;
            long n = r.range(1, 4);
            std::vector<int> v{a};
            for (long q = 1; q < n; ++q) v.push_back(r.chance(12) ? a : mate(a));
            i = id();
            emit(L("N", i, "nary", op, n, v));
            if (r.chance(30) && m.recs.count(i)) { int q = r.chance(30) ? pickArr() : mate(a); if (q >= 0) emit(L("X", i, q)); }
        } else if (k == "un") {
            std::string op = pickS(unAllowed, unops());
            int a = op == "sqrt" ? pickArr([](const Rec& q) { return q.lo >= 0; }) : pickArr();
            if (a < 0) return;
            emit(L("N", id(), "un", op, a));
        } else if (k == "red") {
            std::string op = pickS(redAllowed, redops());
            int a = pickArr();
            if (a < 0) return;
            bool ini = r.chance(30) || ((op == "max" || op == "min") && (isDyn(a) || m.recs.at(a).arr->size() == 0));
            double v = op == "all" || op == "any" ? (double)r.below(2) : value();
            emit(L("N", id(), "red", op, a, ini ? 1 : 0, ini ? v : 0.0));
        } else if (k == "psum") {
            int a = pickArr([](const Rec& q) { return !q.arr->dynamic() && q.arr->ndim() >= 1; });
            if (a < 0) return;
            bool ini = r.chance(20);
            emit(L("N", id(), "psum", r.below((long)sh(a).size()), a, ini ? 1 : 0, ini ? value() : 0.0));
        } else if (k == "bidx") {
            int a = pickArr([](const Rec& q) { return q.arr->ndim() >= 1; });
            if (a < 0) return;
            auto s = sh(a);
            Line l = L("N", id(), "bidx", a, (long)s.size());
            for (size_t d = 0; d < s.size(); ++d) {
                if (s[d] > 0 && r.chance(30)) { l.push_back("i"); l.push_back(num((double)r.range(r.chance(30) ? -s[d] : 0, s[d] - 1))); }
                else if (s[d] >= 0 && r.chance(30)) { for (auto& t : Line{"s", ".", ".", "."}) l.push_back(t); }
                else for (auto& t : slice(s[d])) l.push_back(t);
            }
            emit(l);
        } else if (k == "aidx") {
            int a = pickArr([](const Rec& q) { return q.arr->ndim() >= 1; });
            if (a < 0) return;
            auto s = sh(a);
            std::vector<char> t(s.size());
            bool any = false;
            for (size_t d = 0; d < s.size(); ++d) { t[d] = s[d] > 0 && r.chance(55) ? 'a' : 's'; any |= t[d] == 'a'; }
            if (!any) { for (size_t d = 0; d < s.size(); ++d) if (s[d] > 0) { t[d] = 'a'; any = true; break; } }
            if (!any) return;
            int first = -1;
            Line l{"s"};
            std::vector<int> ids;
            for (size_t d = 0; d < s.size(); ++d) if (t[d] == 'a') {
                auto ok = [&](const Rec& q) { return q.arr->ndim() >= (r.chance(10) ? 0 : 1) && q.integral && q.lo >= 0 && q.hi <= s[d] - 1 && q.arr->integral() && q.arr->min() >= 0 && q.arr->max() <= s[d] - 1; };
                int x = -1;
                if (first < 0) { x = pickArr(ok); if (x < 0 || r.chance(constPct)) { std::vector<long> cs; if (r.chance(80)) cs.push_back(r.range(1, 4)); if (r.chance(20)) cs.push_back(r.range(1, 3)); x = idxConst(cs, s[d]); } first = x; }
                else {
                    auto v = arrays([&](const Rec& q) {
                        if (!ok(q)) return false;
                        if (isDyn(first)) return q.arr->dynamic() && sh(q.id) == sh(first) && q.arr->sizeinfo().substitute(100) == m.recs.at(first).arr->sizeinfo().substitute(100);
                        return sh(q.id) == sh(first);
                    });
                    if (!v.empty()) x = r.pick(v);
                    else if (!isDyn(first)) x = idxConst(sh(first), s[d]);
                    else { t[d] = 's'; continue; }
                }
                ids.push_back(x);
            }
            i = id();
            Line o = L("N", i, "aidx", a, (long)s.size());
            size_t q = 0;
            for (size_t d = 0; d < s.size(); ++d) if (t[d] == 'a') { o.push_back("a"); o.push_back(num(ids[q++])); } else for (auto& x : Line{"s", ".", ".", "."}) o.push_back(x);
            emit(o);
        } else if (k == "perm") {
            auto ok = [&](const Rec& q) { return q.kind == "list" && q.ip[1] == q.ip[0] && q.ip[0] > 0; };
            int x = pickArr(ok);
            if (x < 0) return;
            long n = m.recs.at(x).ip[0];
            int a = pickArr([&](const Rec& q) { auto s = sh(q.id); if (s.empty()) return false; for (long d : s) if (d != n) return false; return true; });
            if (a < 0 || r.chance(30)) a = constant(std::vector<long>((size_t)r.range(1, 3), n));
            emit(L("N", id(), "perm", a, x));
        } else if (k == "cat") {
            int a = pickArr([](const Rec& q) { return !q.arr->dynamic() && q.arr->ndim() >= 1; });
            if (a < 0) return;
            auto s = sh(a);
            long ax = r.below((long)s.size()), n = r.range(1, 3);
            std::vector<int> v{a};
            auto c = arrays([&](const Rec& q) { if (q.arr->dynamic()) return false; auto z = sh(q.id); if (z.size() != s.size()) return false; for (size_t d = 0; d < z.size(); ++d) if ((long)d != ax && z[d] != s[d]) return false; return true; });
            for (long q = 1; q < n; ++q) v.push_back(r.pick(c));
            r.shuffle(v);
            emit(L("N", id(), "cat", ax, n, v));
        } else if (k == "reshape") {
            int a = pickArr([](const Rec& q) { return !q.arr->dynamic(); });
            if (a < 0) return;
            long n = m.recs.at(a).arr->size();
            std::vector<long> s;
            if (n == 1 && r.chance(50)) {}
            else if (n == 0) s = {0};
            else { long rem = n; while (rem > 1 && s.size() < 3) { std::vector<long> dv; for (long q = 1; q <= rem; ++q) if (rem % q == 0) dv.push_back(q); long q = r.pick(dv); s.push_back(q); rem /= q; } s.push_back(rem); r.shuffle(s); }
            emit(L("N", id(), "reshape", a, shapeTok(s)));
        } else if (k == "size") {
            int a = pickArr([&](const Rec& q) { return r.chance(15) || q.arr->dynamic(); });
            if (a < 0) return;
            emit(L("N", id(), "size", a));
        } else if (k == "where") {
            int a = pickArr();
            if (a < 0) return;
            int b, c;
            if (m.recs.at(a).arr->size() == 1 || r.chance(40)) {
                auto v = arrays([](const Rec& q) { return q.arr->size() == 1; });
                a = v.empty() ? scalarConst() : r.pick(v);
                b = pickArr();
                if (r.chance(30)) { auto u = arrays([](const Rec& q) { return q.arr->dynamic(); }); if (!u.empty()) b = r.pick(u); }
                if (isDyn(b)) { auto u = arrays([&](const Rec& q) { return q.arr->dynamic() && sh(q.id) == sh(b); }); c = r.pick(u); }
                else c = mate(b);
            } else { b = mate(a); c = mate(a); }
            emit(L("N", id(), "where", a, b, c));
        } else if (k == "qm") {
            int a = pickArr([](const Rec& q) { return !q.arr->dynamic() && q.arr->ndim() == 1 && q.arr->size() > 0 && q.arr->size() < 12; });
            if (a < 0) return;
            long n = m.recs.at(a).arr->size();
            Line l = L("N", id(), "qm", a, n);
            for (long q = 0; q < n; ++q) l.push_back(num(r.chance(30) ? 0 : value()));
            long e = r.range(0, 2 * n);
            l.push_back(num((double)e));
            while (e--) { l.push_back(num((double)r.below(n))); l.push_back(num((double)r.below(n))); l.push_back(num(value())); }
            emit(l);
        }
    }

    // Constructions that must be refused. Some may happen to be legal: the machine decides by what the library does.
    void badNode() {
        int a = pickArr(), b = pickArr();
        if (a < 0) return;
        switch (r.below(16)) {
            case 0: { auto s = sh(a); if (isDyn(a)) s = {2}; s.push_back(r.range(2, 3)); int c = constant(s); emit(L("N", id(), "binop", r.pick(binops()), a, c)); break; }
            case 1: emit(L("N", id(), "binop", r.pick(binops()), a, b)); break;
            case 2: emit(L("N", id(), "binop", "div", a, b)); break;
            case 3: emit(L("N", id(), "un", "sqrt", a)); break;
            case 4: { std::vector<int> v; for (long q = r.range(1, 4); q > 0; --q) v.push_back(pickArr()); emit(L("N", id(), "nary", r.pick(naryops()), (long)v.size(), v)); break; }
            case 5: { std::vector<int> v; for (long q = r.range(0, 4); q > 0; --q) v.push_back(pickArr()); emit(L("N", id(), "cat", r.range(-1, 3), (long)v.size(), v)); break; }
            case 6: { std::vector<long> s = dims(); emit(L("N", id(), "reshape", a, shapeTok(s))); break; }
            case 7: emit(L("N", id(), "psum", r.range(-1, 4), a, 0, 0)); break;
            case 8: { Line l = L("N", id(), "aidx", a, r.range(0, (long)sh(a).size() + 1)); long n = std::strtol(l.back().c_str(), nullptr, 10); while (n--) { if (r.chance(60)) { l.push_back("a"); l.push_back(num(pickArr())); } else for (auto& x : Line{"s", ".", ".", "."}) l.push_back(x); } emit(l); break; }
            case 9: { auto s = sh(a); long n = r.range(0, (long)s.size() + 1); Line l = L("N", id(), "bidx", a, n); while (n--) { if (r.chance(50)) { l.push_back("i"); l.push_back(num((double)r.range(-8, 8))); } else if (r.chance(20)) { for (auto& x : Line{"s", "0", "2", r.chance(50) ? "0" : "-1"}) l.push_back(x); } else for (auto& x : slice(4)) l.push_back(x); } emit(l); break; }
            case 10: emit(L("N", id(), "red", r.pick(redops()), a, 0, 0)); break;
            case 11: emit(L("N", id(), "where", a, b, pickArr())); break;
            case 12: emit(L("N", id(), "perm", a, b)); break;
            case 13: emit(L(r.chance(50) ? "O" : "C", a)); break;
            case 14: { auto v = std::vector<int>(); for (auto& [q, rr] : m.recs) if (rr.kind == "dlists" || rr.kind == "dbits") v.push_back(q); if (v.empty()) break; int d = r.pick(v); emit(L("N", id(), m.recs.at(d).kind == "dlists" ? "dlist" : "dbit", d)); break; }
            default: {
                long n = r.range(0, 4);
                switch (r.below(5)) {
                    case 0: if (r.chance(50)) emit(L("N", id(), "int", 1, 2, 3, 1)); else emit(L("N", id(), "int", 1, 2, 0, 2147483647L)); break;
                    case 1: emit(L("N", id(), "list", n, r.range(0, 5), r.range(0, 6))); break;
                    case 2: emit(L("N", id(), "set", n, r.range(0, 5), r.range(0, 6))); break;
                    case 3: emit(L("N", id(), "dlists", -1, 2)); break;
                    default: { Line l = L("N", id(), "qm", a, n); for (long q = 0; q < n; ++q) l.push_back("1"); l.push_back("0"); emit(l); }
                }
            }
        }
    }

    Line contentsTok(const std::vector<std::vector<double>>& c) { Line l{num((double)c.size())}; for (auto& v : c) { l.push_back(num((double)v.size())); for (double x : v) l.push_back(num(x)); } return l; }
    std::vector<std::vector<double>> randomContents(const Rec& q) {
        if (q.kind == "int" || q.kind == "bin") { std::vector<double> v; long lo = q.kind == "bin" ? 0 : (long)q.dp[0], hi = q.kind == "bin" ? 1 : (long)q.dp[1]; for (long i = 0; i < prodShape(q.ip); ++i) v.push_back((double)r.range(lo, hi)); return {v}; }
        if (q.kind == "list" || q.kind == "set") { std::vector<double> v; for (long i = 0; i < q.ip[0]; ++i) v.push_back((double)i); r.shuffle(v); v.resize(r.range(q.ip[1], q.ip[2])); return {v}; }
        if (q.kind == "dlists") { std::vector<std::vector<double>> c(q.ip[1]); std::vector<double> v; for (long i = 0; i < q.ip[0]; ++i) v.push_back((double)i); r.shuffle(v); for (double x : v) c[r.below(q.ip[1])].push_back(x); return c; }
        if (q.kind == "dbits") { std::vector<std::vector<double>> c(q.ip[1], std::vector<double>(q.ip[0], 0)); for (long i = 0; i < q.ip[0]; ++i) c[r.below(q.ip[1])][i] = 1; return c; }
        long k = std::max(1L, q.ip[0]);
        std::vector<double> v;
        for (long i = r.range(q.ip[1], q.ip[2]) * k; i > 0; --i) v.push_back(dynVal(q));
        return {v};
    }
    double dynVal(const Rec& q) { double x = (double)r.range((long)q.lo, (long)q.hi); if (!q.ip[3] && r.chance(40) && x + 0.5 <= q.hi) x += r.chance(50) ? 0.5 : 0.25; return x; }

    std::vector<int> decs() { std::vector<int> v; for (auto& [id, q] : m.recs) if (q.dec) v.push_back(id); return v; }

    void move(int d) {
        const Rec& q = m.recs.at(d);
        if (r.chance(dmPct) && q.kind != "dyn") { emit(L("M", d, "dm", r.below(1L << 40), r.chance(advPct) ? 1 : 0)); return; }
        auto size = [&](int a) { return (long)m.recs.at(a).arr->size(m.st); };
        if (q.kind == "int" || q.kind == "bin") {
            long n = size(d);
            if (n == 0) return;
            long i = r.below(n), lo = q.kind == "bin" ? 0 : (long)q.dp[0], hi = q.kind == "bin" ? 1 : (long)q.dp[1];
            long z = r.below(q.kind == "bin" ? 12 : 8);
            if (z < 5) emit(L("M", d, "set", i, r.chance(25) ? (r.chance(50) ? lo : hi) : r.range(lo, hi)));
            else if (z < 7) emit(L("M", d, "xch", i, r.below(n)));
            else if (z == 7) emit(L("M", d, "bad", i, r.chance(50) ? lo - r.range(1, 3) : hi + r.range(1, 3)));
            else emit(L("M", d, z < 10 ? "flip" : z == 10 ? "on" : "off", i));
        } else if (q.kind == "list" || q.kind == "set") {
            long n = size(d);
            bool dyn = q.ip[1] != q.ip[2];
            long z = r.below(dyn ? 8 : 4);
            if (z < 2) { if (n == 0 || q.ip[0] < 1) return; emit(L("M", d, "xch", r.below(n), r.chance(40) ? r.below(q.ip[0]) : r.below(n))); }
            else if (z < 4) { if (n == 0) return; emit(L("M", d, "rot", r.below(n), r.below(n))); }
            else if (z < 6) emit(L("M", d, "grow"));
            else emit(L("M", d, "shrink"));
        } else if (q.kind == "dlists") {
            auto o = m.outsOf(q);
            if ((long)o.size() != q.ip[1] || o.empty()) return;
            long a = r.below((long)o.size()), n = size(o[a]), b = r.below((long)o.size());
            long z = r.below(6);
            if (z < 1 && n) emit(L("M", d, "swap", a, r.below(n), r.below(n)));
            else if (z < 2 && n) emit(L("M", d, "rot", a, r.below(n), r.below(n)));
            else if (z < 5 && n && b != a) { long k = size(o[b]); emit(L("M", d, "pop", a, r.below(n), b, r.range(0, k))); }
            else if (b != a) {
                std::vector<double> all = readRaw(m.recs.at(o[a]).arr, m.st).v, y = readRaw(m.recs.at(o[b]).arr, m.st).v;
                all.insert(all.end(), y.begin(), y.end());
                if (r.chance(70)) r.shuffle(all);
                emit(L("M", d, "sets", a, b, r.range(0, (long)all.size()), all));
            }
        } else if (q.kind == "dbits") {
            auto o = m.outsOf(q);
            if ((long)o.size() != q.ip[1] || !q.ip[0]) return;
            emit(L("M", d, "swap", r.below(q.ip[1]), r.below(q.ip[1]), r.below(q.ip[0])));
        } else if (q.kind == "dyn") {
            long n = size(d), z = r.below(8);
            if (z < 3) { std::vector<double> v; for (long i = std::max(1L, q.ip[0]); i > 0; --i) v.push_back(dynVal(q)); emit(L("M", d, "grow", v)); }
            else if (z < 5) emit(L("M", d, "shrink"));
            else if (n) emit(L("M", d, "set", r.below(n), dynVal(q)));
        }
    }

    void badInit() {
        auto ds = decs();
        if (ds.empty()) return;
        int d = r.pick(ds);
        const Rec& q = m.recs.at(d);
        if (q.kind == "dyn") return;
        auto c = randomContents(q);
        switch (r.below(q.kind == "dlists" || q.kind == "dbits" ? 6 : 4)) {
            case 4: c.push_back(q.kind == "dbits" ? std::vector<double>(q.ip[0], 0) : std::vector<double>{}); break;
            case 5: {  // one list too few, all elements still there
                if (c.size() < 2) break;
                auto last = c.back();
                c.pop_back();
                if (q.kind == "dlists") c[0].insert(c[0].end(), last.begin(), last.end()); else for (size_t i = 0; i < last.size(); ++i) if (last[i]) c[0][i] = 1;
                break;
            }
            case 0: if (!c.empty()) c[r.below((long)c.size())].push_back((double)r.range(-1, 6)); break;
            case 1: if (!c.empty()) { auto& v = c[r.below((long)c.size())]; if (!v.empty()) v.pop_back(); } break;
            case 2: if (!c.empty()) { auto& v = c[r.below((long)c.size())]; if (!v.empty()) v[r.below((long)v.size())] += r.pick(std::vector<double>{1, -1, 0.5, 30, -30}); } break;
            default: if (c.size() > 1) { auto &x = c[0], &y = c[1]; if (!x.empty()) { if (q.kind == "dbits") { long e = r.below((long)x.size()), f = r.below((long)x.size()); if (x[e] != y[f]) std::swap(x[e], y[f]); } else y.push_back(x[0]); } } else if (c.size() == 1 && c[0].size() > 1) c[0][0] = c[0][1];
        }
        if (!m.legalInit(q, c)) emit(L("B", d, contentsTok(c)));
    }

    void build() {
        for (int k = 0; k < nDec; ++k) decision();
        if (r.chance(60)) constant(dims());
        for (int k = 0; k < nNodes; ++k) {
            node();
            if (invalid && r.chance(40)) badNode();
            if (r.chance(5)) decision();
        }
        // make sure deep results are observed and there is an objective and some constraints
        auto ones = arrays([](const Rec& q) { return q.arr->size() == 1; });
        if (ones.empty()) { int a = pickArr(); if (a >= 0) emit(L("N", id(), "red", "sum", a, 0, 0)); ones = arrays([](const Rec& q) { return q.arr->size() == 1; }); }
        if (!ones.empty()) {
            if (r.chance(85)) emit(L("O", r.pick(ones)));
            auto lg = arrays([](const Rec& q) { return q.arr->size() == 1 && q.arr->logical(); });
            for (long k = r.below(3); k > 0 && !lg.empty(); --k) emit(L("C", r.pick(lg)));
        }
        if (invalid && r.chance(50)) badNode();
        emit(L("L"));
        if (invalid && r.chance(30)) badNode();
    }

    void initial() {
        Line l{"I"};
        for (int d : decs()) if (r.chance(60)) { l.push_back(num(d)); for (auto& t : contentsTok(randomContents(m.recs.at(d)))) l.push_back(t); }
        emit(l);
    }

    void step(bool closes = true) {
        auto ds = decs();
        if (ds.empty()) return;
        long n = r.chance(8) ? 0 : r.range(1, moveMax);
        int focus = r.chance(50) ? r.pick(ds) : -1;
        for (long k = 0; k < n; ++k) move(focus >= 0 && r.chance(80) ? focus : r.pick(ds));
        if (!closes) return;
        if (copies && r.chance(15)) emit(L("K", r.below(2)));
        bool rej = r.chance(rejPct);
        std::string mode;
        if (!rej) mode = r.chance(25) ? "macc" : "acc";
        else { long z = r.below(20); mode = z < 10 ? "rej" : z < 14 ? "mrej" : z < 16 ? "thr" : z < 18 ? "part" : "aband"; }
        if (copies && r.chance(20)) mode = rej ? "crej" : "cacc";
        Line l = L("P", mode, r.below(50));
        if (r.chance(10)) l.push_back(num(r.pick(ds)));
        emit(l);
    }

    void run() {
        build();
        if (invalid && r.chance(70)) badInit();
        initial();
        for (int k = 0; k < nSteps; ++k) {
            step();
            if (r.chance(4)) emit(L("F"));
            if (r.chance(3)) { auto ds = decs(); if (!ds.empty()) { int d = r.pick(ds); if (r.chance(40)) emit(L("R", d)); else emit(L("R", d, contentsTok(randomContents(m.recs.at(d))))); } }
            if (invalid && r.chance(10)) badInit();
            if (allocFaults && r.chance(15)) emit(L("E", r.chance(50) ? r.below(12) : r.below(120)));
        }
        if (r.chance(50)) emit(L("F"));
    }
};

}  // namespace sim
