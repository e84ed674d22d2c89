// Simulator of several clients sharing one finished model (P04).
//   fib run P04 FROM TO SECONDS LOG | gen P04 SEED | exec P04 FILE
// A program: the lines that build the model, "K c LINE" for what client c does, then the schedule:
// "S seed gap stall" or "W client points" segments.
#include <chrono>
#include <fstream>
#include <iostream>
#include <new>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include "gen.hpp"
#include "sched.hpp"

namespace sim { long g_alloc_countdown = -1; }
#define t_alloc sched::allocCountdown
void* operator new(std::size_t n) {
    if (t_alloc >= 0) { if (t_alloc == 0) { t_alloc = -1; throw std::bad_alloc(); } --t_alloc; }
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](std::size_t n) { return ::operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return ::operator new(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return ::operator new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }

using namespace sim;

struct Log {
    char* p = nullptr;
    size_t cap = 4 << 20, n = 0;
    void open(const char* path) {
        int fd = ::open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, (off_t)cap)) { perror("log"); exit(3); }
        p = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    void reset(const std::string& head) { if (!p) return; n = 0; put(head); }
    void put(const std::string& s) { if (!p || n + s.size() + 2 > cap) return; memcpy(p + n, s.data(), s.size()); n += s.size(); p[n++] = '\n'; p[n] = 0; }
};
static Log g_log;

struct Obs { int line; std::string what; std::vector<double> v; };
using History = std::vector<Obs>;

// What one client does with its own state of a shared model. Everything it sees goes to its history.
struct ClientRun {
    Machine& m;
    const Prog& prog;
    History h;
    State st;
    bool inited = false;
    std::vector<int> pend;
    int at = 0;
    long moves = 0, verdicts = 0, faults = 0;

    ClientRun(Machine& m, const Prog& p) : m(m), prog(p) {}

    void note(std::string what, std::vector<double> v = {}) { h.push_back({at, std::move(what), std::move(v)}); }
    void see(bool diffs) {
        for (auto& [id, r] : m.recs) if (r.arr) {
            Val v = readRaw(r.arr, st);
            std::vector<double> x(v.shape.begin(), v.shape.end());
            x.push_back((double)r.arr->size(st));
            x.insert(x.end(), v.v.begin(), v.v.end());
            note("value of #" + std::to_string(id) + " " + r.kind, std::move(x));
            if (diffs) {
                std::vector<double> d{(double)r.arr->size_diff(st)};
                for (auto& u : r.arr->diff(st)) { d.push_back((double)u.index); d.push_back(u.old); d.push_back(u.value); }
                note("changes of #" + std::to_string(id) + " " + r.kind, std::move(d));
            }
        }
        const Graph& g = m.g;
        std::vector<double> e;
        if (m.obj >= 0) e.push_back(g.energy(st));
        e.push_back(g.feasible(st));
        note("objective and feasibility", std::move(e));
    }
    void properties() {
        for (auto& [id, r] : m.recs) if (r.arr) {
            auto si = r.arr->sizeinfo();
            std::vector<double> v{r.arr->min(), r.arr->max(), (double)r.arr->integral(), (double)r.arr->logical(), (double)r.arr->contiguous(), (double)r.arr->dynamic(),
                                  si.min ? (double)*si.min : -1, si.max ? (double)*si.max : -1, (double)r.arr->size(), (double)r.arr->ndim()};
            for (auto x : r.arr->shape()) v.push_back((double)x);
            for (auto x : r.arr->strides()) v.push_back((double)x);
            note("properties of #" + std::to_string(id) + " " + r.kind, std::move(v));
        }
    }
    bool complete(const Rec& r) { return (r.kind != "dlists" && r.kind != "dbits") || (long)m.outsOf(r).size() == r.ip[1]; }
    void initDyn(State& s, const std::set<int>& seen) {
        for (auto& [id, r] : m.recs) if (r.dec && r.kind == "dyn" && !seen.count(id)) { long k = std::max(1L, r.ip[0]); m.explicitInit(r, s, {std::vector<double>(r.ip[1] * k, r.lo)}); }
    }
    void one(const Line& l) {
        Tok t(l, 1);
        const std::string& c = l[0];
        const Graph& g = m.g;
        if (c == "I") {
            if (inited) return;
            st = g.empty_state();
            std::set<int> seen;
            while (!t.done()) {
                int id = (int)t.n();
                auto cc = m.contents(t);
                if (!m.recs.count(id) || !m.recs.at(id).dec || !m.legalInit(m.recs.at(id), cc) || !complete(m.recs.at(id)) || !seen.insert(id).second) continue;
                m.explicitInit(m.recs.at(id), st, cc);
            }
            initDyn(st, seen);
            g.initialize_state(st);
            inited = true;
            see(true);
        } else if (c == "Q") properties();
        else if (!inited) return;
        else if (c == "M") {
            if (!m.mutate(st, l, nullptr, nullptr)) { note("move not possible"); return; }
            ++moves;
            int id = (int)std::strtol(l[1].c_str(), nullptr, 10);
            if (std::find(pend.begin(), pend.end(), id) == pend.end()) pend.push_back(id);
        } else if (c == "P") {
            std::string mode = t.s();
            long k = t.n();
            std::vector<const Node*> src;
            for (int id : pend) src.push_back(m.recs.at(id).node);
            ++verdicts;
            struct Boom {};
            if (mode == "acc" || mode == "rej") g.propose(st, src, [&](const Graph&, State&) { see(true); return mode == "acc"; });
            else if (mode == "thr") {
                try { g.propose(st, src, [&](const Graph&, State&) -> bool { see(true); throw Boom(); }); } catch (Boom&) { note("verdict threw"); }
                ++faults;
                g.revert(st, Graph::descendants(st, src));
            } else {
                auto ch = Graph::descendants(st, src);
                if (mode == "part") { ++faults; size_t n = ch.empty() ? 0 : (size_t)(k % (long)(ch.size() + 1)); g.propagate(st, std::vector<const Node*>(ch.begin(), ch.begin() + n)); g.revert(st, std::span<const Node*>(ch)); }
                else if (mode == "aband") { ++faults; g.revert(st, std::span<const Node*>(ch)); }
                else {
                    g.propagate(st, std::span<const Node*>(ch));
                    see(true);
                    if (mode == "macc") g.commit(st, std::span<const Node*>(ch)); else g.revert(st, std::span<const Node*>(ch));
                }
            }
            pend.clear();
            see(true);
        } else if (c == "R") {
            if (!pend.empty()) return;
            int id = (int)t.n();
            if (!m.recs.count(id) || !m.recs.at(id).dec || !complete(m.recs.at(id))) return;
            Rec& r = m.recs.at(id);
            std::vector<std::vector<double>> cc;
            bool expl = !t.done();
            if (expl) { cc = m.contents(t); if (!m.legalInit(r, cc)) return; }
            else if (r.kind == "dyn") { expl = true; cc = {std::vector<double>(r.ip[1] * std::max(1L, r.ip[0]), r.lo)}; }
            Graph::recursive_reset(st, r.node);
            if (expl) m.explicitInit(r, st, cc);
            int step = (int)m.recs.size() / 3 + 1, i = 0;
            for (auto& [q, rr] : m.recs) if (i++ % step == 0) Graph::recursive_initialize(st, rr.node);
            g.initialize_state(st);
            see(true);
        } else if (c == "E") {  // memory runs out for this client in the middle of an initialisation, then retry
            State s = g.empty_state();
            initDyn(s, {});
            t_alloc = t.n();
            try { g.initialize_state(s); } catch (std::bad_alloc&) { ++faults; }
            t_alloc = -1;
            g.initialize_state(s);
            std::swap(s, st);
            see(false);
            std::swap(s, st);
        }
    }
    void operator()() {
        for (at = 0; at < (int)prog.size(); ++at) {
            try { one(prog[at]); }
            catch (Violation& v) { note(std::string("impossible: ") + v.what()); }
            catch (Skip&) { note("skipped"); }
            catch (std::exception& e) { note(std::string("exception: ") + e.what()); }
        }
    }
};

struct Plan {
    Prog build;
    std::vector<Prog> clients;
    sched::Config cfg;
    bool seeded = false;
};

static void buildModel(Machine& m, const Prog& b) { for (auto& l : b) m.exec(l); if (!m.locked) { m.g.topological_sort(); m.locked = true; } }

struct Outcome {
    bool bad = false;
    std::string what;
    uint64_t hash = 0, sig = 0;
    long moves = 0, verdicts = 0, faults = 0, obs = 0, switches = 0, points = 0, contended = 0, stalls = 0, inside = 0;
    std::vector<uint64_t> pairs;
    Prog prog;
};

static bool sameVec(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
    return true;
}

static Outcome runPlan(const Plan& p) {
    Outcome out;
    alarm(60);
    out.prog = p.build;
    for (size_t c = 0; c < p.clients.size(); ++c) for (auto& l : p.clients[c]) { Line q{"K", num((double)c)}; q.insert(q.end(), l.begin(), l.end()); out.prog.push_back(q); }
    for (auto& l : out.prog) g_log.put(join(l));
    auto shared = std::make_unique<Machine>();
    buildModel(*shared, p.build);
    std::vector<std::unique_ptr<ClientRun>> cs;
    std::vector<std::function<void()>> bodies;
    for (auto& c : p.clients) { cs.push_back(std::make_unique<ClientRun>(*shared, c)); ClientRun* q = cs.back().get(); bodies.push_back([q] { (*q)(); }); }
    sched::Config cfg = p.cfg;
    size_t mark = 0;
    cfg.onSegment = [&](int c, long n) { if (n < 0) { mark = g_log.n; g_log.put("W " + std::to_string(c) + " -1"); } else if (g_log.p) { g_log.n = mark; g_log.put("W " + std::to_string(c) + " " + std::to_string(n)); } };
    sched::Result r = sched::run(cfg, std::move(bodies));
    for (auto& s : r.trace) out.prog.push_back(L("W", s.client, s.points));
    out.switches = r.switches; out.points = r.points; out.contended = r.contended; out.stalls = r.stalls; out.pairs = r.pairs;
    Hash hh;
    hh.add((long)r.sig);
    for (size_t c = 0; c < cs.size() && !out.bad; ++c) {
        auto alone = std::make_unique<Machine>();
        buildModel(*alone, p.build);
        ClientRun solo(*alone, p.clients[c]);
        solo();
        auto &a = cs[c]->h, &b = solo.h;
        out.moves += solo.moves; out.verdicts += solo.verdicts; out.faults += solo.faults; out.obs += (long)b.size();
        for (auto& x : a) { hh.add(x.what); for (double d : x.v) hh.add(d); }
        for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
            std::string who = "client " + std::to_string(c) + " ";
            if (i >= a.size() || i >= b.size() || a[i].what != b[i].what || a[i].line != b[i].line) {
                const Obs& x = i < a.size() ? a[i] : b[i];
                out.bad = true;
                out.what = who + "sees something else than alone: " + x.what + " at its line " + std::to_string(x.line);
                break;
            }
            if (!sameVec(a[i].v, b[i].v)) {
                out.bad = true;
                out.what = who + "sees another " + a[i].what + " than alone (at its line " + std::to_string(a[i].line) + "): " + show(a[i].v) + " instead of " + show(b[i].v);
                break;
            }
        }
    }
    out.sig = r.sig;
    out.hash = hh.h;
    return out;
}

static Plan generate(uint64_t seed) {
    Plan p;
    auto mp = std::make_unique<Machine>();
    Machine& m = *mp;
    Prog* sink = &p.build;
    Gen g(seed * 1000003ull + 4242, m, [&](const Line& l) { sink->push_back(l); m.exec(l); }, false, false);
    g.nNodes = (int)g.r.range(1, 12);
    g.nSteps = (int)g.r.range(1, 5);
    g.build();
    long k = g.r.pick(std::vector<long>{2, 2, 2, 3, 3, 4});
    for (long c = 0; c < k; ++c) {
        p.clients.emplace_back();
        sink = &p.clients.back();
        m.inited = false; m.pending.clear(); m.pendingDecs.clear(); m.expectDec.clear(); m.committedDec.clear();
        auto q = [&] { if (g.r.chance(30)) sink->push_back(L("Q")); };
        q();
        g.initial();
        q();
        for (int s = 0; s < g.nSteps; ++s) {
            g.step();
            q();
            if (g.r.chance(6)) { auto ds = g.decs(); if (!ds.empty()) { int d = g.r.pick(ds); if (g.r.chance(40)) g.emit(L("R", d)); else g.emit(L("R", d, g.contentsTok(g.randomContents(m.recs.at(d))))); } }
            if (g.r.chance(6)) sink->push_back(L("E", g.r.below(40)));
        }
    }
    p.cfg.seed = g.r.next() >> 16;
    p.cfg.gap = g.r.pick(std::vector<long>{2, 5, 5, 15, 15, 50, 200, 1000});
    p.cfg.stallPct = g.r.chance(40) ? (int)g.r.range(2, 30) : 0;
    p.seeded = true;
    return p;
}

static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    std::string cmd = argv[1];
    if (cmd == "run") {
        uint64_t from = strtoull(argv[3], nullptr, 10), to = strtoull(argv[4], nullptr, 10), seed = from, done = 0, agg = 0;
        double secs = atof(argv[5]);
        if (argc > 6) g_log.open(argv[6]);
        auto t0 = std::chrono::steady_clock::now();
        Outcome tot;
        std::set<uint64_t> sigs, pairs;
        long clients = 0;
        for (; seed < to; ++seed) {
            if (secs > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
            alarm(60);
            g_log.reset("seed " + std::to_string(seed));
            Plan p = generate(seed);
            Outcome o = runPlan(p);
            ++done;
            clients += (long)p.clients.size();
            agg ^= o.hash * (seed * 2 + 1);
            tot.moves += o.moves; tot.verdicts += o.verdicts; tot.faults += o.faults; tot.obs += o.obs; tot.switches += o.switches; tot.points += o.points; tot.contended += o.contended; tot.stalls += o.stalls;
            if (o.moves > 0 && o.switches > (long)p.clients.size() + 1) sigs.insert(o.sig);
            for (auto x : o.pairs) if (pairs.size() < 60000) pairs.insert(x);
            if (o.bad) { printf("FAIL %llu %s\n", (unsigned long long)seed, esc(o.what).c_str()); fflush(stdout); break; }
        }
        printf("STATS {\"runs\":%llu,\"next\":%llu,\"clients\":%ld,\"mutations\":%ld,\"verdicts\":%ld,\"client_faults\":%ld,\"observations\":%ld,\"switches\":%ld,\"preemption_points\":%ld,\"contended_locks\":%ld,\"stalls\":%ld}\n",
               (unsigned long long)done, (unsigned long long)seed, clients, tot.moves, tot.verdicts, tot.faults, tot.obs, tot.switches, tot.points, tot.contended, tot.stalls);
        printf("SIG");
        for (auto x : pairs) printf(" %llx", (unsigned long long)x);
        printf("\nRUNSIG");
        for (auto x : sigs) printf(" %llx", (unsigned long long)x);
        printf("\nAGG %016llx\n", (unsigned long long)agg);
        return 0;
    }
    if (cmd == "gen") {
        Outcome o = runPlan(generate(strtoull(argv[3], nullptr, 10)));
        for (auto& l : o.prog) std::cout << join(l) << "\n";
        return 0;
    }
    if (cmd == "exec") {
        std::ifstream f(argv[3]);
        std::string s;
        Plan p;
        p.cfg.useTrace = true;
        while (std::getline(f, s)) {
            Line l = split(s);
            if (l.empty() || l[0][0] == '#' || l[0] == "seed") continue;
            if (l[0] == "K") { size_t c = (size_t)atol(l[1].c_str()); if (c > 15) return 2; if (p.clients.size() <= c) p.clients.resize(c + 1); p.clients[c].push_back(Line(l.begin() + 2, l.end())); }
            else if (l[0] == "W") p.cfg.trace.push_back({atoi(l[1].c_str()), atol(l[2].c_str())});
            else p.build.push_back(l);
        }
        Outcome o = runPlan(p);
        printf("HASH %016llx\n", (unsigned long long)o.hash);
        if (o.bad) { printf("FAIL 0 %s\n", esc(o.what).c_str()); return 1; }
        printf("OK\n");
        return 0;
    }
    return 2;
}
