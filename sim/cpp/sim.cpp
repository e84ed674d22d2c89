// Simulator of the C++ engine: seeded runs, replay and minimisation.
//   sim run PROP FROM TO SECONDS LOGFILE     runs seeds FROM..TO-1, prints JSON statistics
//   sim gen PROP SEED                         prints the program a seed produces
//   sim exec PROP FILE                        executes a program file
#include <chrono>
#include <fstream>
#include <iostream>
#include <new>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include "gen.hpp"

namespace sim { long g_alloc_countdown = -1; }

void* operator new(std::size_t n) {
    if (sim::g_alloc_countdown >= 0) {
        if (sim::g_alloc_countdown == 0) { sim::g_alloc_countdown = -1; throw std::bad_alloc(); }
        --sim::g_alloc_countdown;
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](std::size_t n) { return ::operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return ::operator new(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return ::operator new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }

using namespace sim;

static Oracles oraclesFor(const std::string& p) {
    Oracles o;
    if (p == "P01") o.p01 = true;
    else if (p == "P02") o.p02 = true;
    else if (p == "P03") o.p03 = true;
    else if (p == "P05") o.p05 = true;
    else if (p == "P06") o.p06 = true;
    else if (p == "P07") o.p07 = true;
    else if (p == "P16") o.p16 = true;
    return o;
}
static uint64_t propSalt(const std::string& p) { uint64_t h = 77; for (char c : p) h = h * 131 + (unsigned char)c; return h; }

// Crash-safe log of the current program: a mapped file the parent can read after a crash.
struct Log {
    char* p = nullptr;
    size_t cap = 1 << 20, n = 0;
    void open(const char* path) {
        int fd = ::open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, (off_t)cap)) { perror("log"); exit(3); }
        p = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    void reset(const std::string& head) { if (!p) return; n = 0; put(head); }
    void put(const std::string& s) { if (!p || n + s.size() + 2 > cap) return; memcpy(p + n, s.data(), s.size()); n += s.size(); p[n++] = '\n'; p[n] = 0; }
};
static Log g_log;

struct Outcome { bool bad = false; std::string what; uint64_t hash = 0; Prog prog; Stats stats; };

static Outcome runSeed(const std::string& prop, uint64_t seed) {
    Outcome out;
    auto mp = std::make_unique<Machine>();
    Machine& m = *mp;
    m.o = oraclesFor(prop);
    bool inv = prop == "P07", alloc = prop == "P07";
    uint64_t s = seed * 1000003ull + propSalt(prop);
    alarm(30);
    g_log.reset("seed " + std::to_string(seed));
    Gen g(s, m, [&](const Line& l) { g_log.put(join(l)); out.prog.push_back(l); m.exec(l); }, inv || prop == "P05", alloc);
    if (prop == "P05") { g.dmPct = (int)g.r.pick(std::vector<long>{30, 60, 100}); g.advPct = 60; }
    g.copies = prop == "P16";
    g.invalid = prop == "P07" ? true : false;
    try {
        g.build();
        if ((prop == "P07" || prop == "P05") && g.r.chance(70)) g.badInit();
        g.initial();
        for (int k = 0; k < g.nSteps; ++k) {
            g.step();
            if (g.r.chance(4)) g.emit(L("F"));
            if (g.r.chance(3)) { auto ds = g.decs(); if (!ds.empty()) { int d = g.r.pick(ds); if (g.r.chance(40)) g.emit(L("R", d)); else g.emit(L("R", d, g.contentsTok(g.randomContents(m.recs.at(d))))); } }
            if (prop == "P05" ? g.r.chance(15) : prop != "P07" && g.r.chance(2)) { auto ds = g.decs(); if (!ds.empty()) g.emit(L("RR", g.r.pick(ds), g.r.below(1000000), g.r.below(2))); }
            if ((prop == "P07" || prop == "P05") && g.r.chance(10)) g.badInit();
            if (g.copies && g.r.chance(15)) g.emit(L("K", g.r.below(2)));
            if (g.copies && g.r.chance(10)) g.emit(L("KE"));
            if (alloc && g.r.chance(15)) g.emit(L("E", g.r.chance(50) ? g.r.below(12) : g.r.below(120)));
        }
        if (g.copies) g.emit(L("KE"));
        if (g.r.chance(50)) g.emit(L("F"));
    } catch (Violation& v) { out.bad = true; out.what = v.what(); }
    catch (std::exception& e) { out.bad = true; out.what = std::string("unexpected exception: ") + e.what(); }
    g_alloc_countdown = -1;
    out.hash = m.hash.h;
    out.stats = m.stats;
    return out;
}

static Outcome execProg(const std::string& prop, const Prog& prog) {
    Outcome out;
    alarm(30);
    auto mp = std::make_unique<Machine>();
    mp->o = oraclesFor(prop);
    try { for (auto& l : prog) { out.prog.push_back(l); mp->exec(l); } }
    catch (Violation& v) { out.bad = true; out.what = v.what(); }
    catch (std::exception& e) { out.bad = true; out.what = std::string("unexpected exception: ") + e.what(); }
    g_alloc_countdown = -1;
    out.hash = mp->hash.h;
    out.stats = mp->stats;
    return out;
}

static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    std::string cmd = argv[1], prop = argv[2];
    if (cmd == "run") {
        uint64_t from = strtoull(argv[3], nullptr, 10), to = strtoull(argv[4], nullptr, 10);
        double secs = atof(argv[5]);
        if (argc > 6) g_log.open(argv[6]);
        bool each = argc > 7;  // print the hash of every seed
        auto t0 = std::chrono::steady_clock::now();
        Stats total;
        uint64_t done = 0, seed = from;
        std::set<uint64_t> runSigs;
        uint64_t agg = 0;
        for (; seed < to; ++seed) {
            if (secs > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
            Outcome o = runSeed(prop, seed);
            if (o.stats.mutations > 0 && o.stats.accepted + o.stats.rejected > 0) { uint64_t h = 1469598103934665603ull; for (auto x : o.stats.sig) h = (h ^ x) * 1099511628211ull; runSigs.insert(h); }
            total.merge(o.stats);
            ++done;
            agg ^= o.hash * (seed * 2 + 1);
            if (each) printf("H %llu %016llx\n", (unsigned long long)seed, (unsigned long long)o.hash);
            if (o.bad) { printf("FAIL %llu %s\n", (unsigned long long)seed, o.what.c_str()); fflush(stdout); break; }
        }
        printf("STATS {\"runs\":%llu,\"next\":%llu,\"lines\":%ld,\"nodes\":%ld,\"refused_builds\":%ld,\"refused_inits\":%ld,\"refused_moves\":%ld,\"mutations\":%ld,\"default_moves\":%ld,\"accepted\":%ld,\"rejected\":%ld,\"verdict_threw\":%ld,\"partial_propagation\":%ld,\"abandoned\":%ld,\"reinits\":%ld,\"fresh_states\":%ld,\"alloc_failures\":%ld,\"node_checks\":%ld,\"diff_checks\":%ld,\"bound_checks\":%ld,\"twin_checks\":%ld,\"adversarial_streams\":%ld,\"copies\":%ld,\"copy_steps\":%ld}\n",
               (unsigned long long)done, (unsigned long long)seed, total.lines, total.nodes, total.refusedBuilds, total.refusedInits, total.refusedMoves, total.mutations, total.defaultMoves, total.accepted, total.rejected, total.thrown, total.partial, total.abandoned, total.reinits, total.fresh, total.allocFaults, total.nodeChecks, total.diffChecks, total.boundChecks, total.twinChecks, total.advDraws, total.copies, total.copySteps);
        printf("SIG");
        for (auto x : total.sig) printf(" %llx", (unsigned long long)x);
        printf("\nRUNSIG");
        for (auto x : runSigs) printf(" %llx", (unsigned long long)x);
        printf("\nAGG %016llx\n", (unsigned long long)agg);
        return 0;
    }
    if (cmd == "gen") {
        Outcome o = runSeed(prop, strtoull(argv[3], nullptr, 10));
        for (auto& l : o.prog) std::cout << join(l) << "\n";
        std::cerr << (o.bad ? "FAIL " + o.what : std::string("ok")) << "\n";
        return 0;
    }
    if (cmd == "exec") {
        std::ifstream f(argv[3]);
        std::string s;
        Prog p;
        while (std::getline(f, s)) { if (s.empty() || s[0] == '#') continue; if (s.rfind("seed ", 0) == 0) continue; p.push_back(split(s)); }
        Outcome o = execProg(prop, p);
        printf("HASH %016llx\n", (unsigned long long)o.hash);
        if (o.bad) { printf("FAIL 0 %s\n", esc(o.what).c_str()); return 1; }
        printf("OK\n");
        return 0;
    }
    return 2;
}
