#include "sched.hpp"

#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <set>
#include <sys/syscall.h>
#include <unistd.h>

#include "common.hpp"

extern "C" char __executable_start;

namespace sched {

struct Client {
    int id;
    int turn = 0;  // futex word: 1 = this client holds the baton
    bool done = false;
    int blockedRow = 0;
    long resumeAt = 0;  // stalled until this many switches have happened
    uintptr_t place = 0;
    std::function<void()> body;
    pthread_t th;
};

thread_local long allocCountdown = -1;
static thread_local Client* me = nullptr;
static std::vector<Client*> all;
static int mainTurn = 0;
static const Config* cfg;
static Result* res;
static sim::Rng* rng;
static long countdown = LONG_MAX, segPoints = 0;
static size_t tracePos = 0;
static long blockedInRow = 0;
static std::set<uint64_t>* pairSet;

static void wait(int* w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) != 1) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
static void wake(int* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static long drawGap() {
    long g = cfg->gap;
    if (rng->chance(10)) return rng->range(1, 4);
    if (rng->chance(5)) return rng->range(g, 20 * g);
    return rng->range(1, 2 * g);
}

// The next client to run: nullptr if all are done.
static Client* choose() {
    if (cfg->useTrace) {
        while (tracePos < cfg->trace.size()) {
            const Segment& s = cfg->trace[tracePos++];
            if (s.client < 0 || s.client >= (int)all.size() || all[s.client]->done || s.points == 0) continue;
            countdown = s.points < 0 ? LONG_MAX : s.points;
            return all[s.client];
        }
        // trace used up: the rest one after another, giving way only when blocked
        countdown = 1000000;
        int start = me ? me->id : 0;
        bool giveWay = me && !me->done;
        for (size_t k = 0; k < all.size(); ++k) {
            Client* c = all[(start + k + (giveWay ? 1 : 0)) % all.size()];
            if (!c->done) return c;
        }
        return nullptr;
    }
    std::vector<Client*> ready, alive;
    for (auto* c : all) if (!c->done) { alive.push_back(c); if (c->resumeAt <= res->switches) ready.push_back(c); }
    if (alive.empty()) return nullptr;
    if (ready.empty()) ready = alive;
    Client* c = ready[rng->below((long)ready.size())];
    if (c == me && me->blockedRow > 0 && alive.size() > 1) { do c = alive[rng->below((long)alive.size())]; while (c == me); }
    countdown = drawGap();
    return c;
}

static void endSegment(int id) {
    res->trace.push_back({id, segPoints});
    if (cfg->onSegment) cfg->onSegment(id, segPoints);
    segPoints = 0;
}
static void start(Client* c, uintptr_t from) {
    ++res->switches;
    uint64_t key = ((uint64_t)from << 32) ^ (uint64_t)(c->place * 4 + (unsigned)c->id % 4);
    res->sig = (res->sig ^ key ^ ((uint64_t)c->id << 60)) * 1099511628211ull;
    if (pairSet->size() < 4000) pairSet->insert(((uint64_t)from << 32) ^ c->place);
    if (cfg->onSegment) cfg->onSegment(c->id, -1);
}

struct NoFaults { long keep = allocCountdown; NoFaults() { allocCountdown = -1; } ~NoFaults() { allocCountdown = keep; } };

static void switchFrom(Client* self, uintptr_t place) {
    NoFaults guard;
    self->place = place;
    endSegment(self->id);
    if (cfg->stallPct && !cfg->useTrace && rng->chance(cfg->stallPct)) { self->resumeAt = res->switches + rng->range(3, 40); ++res->stalls; }
    Client* c = choose();
    start(c, place);
    if (c == self) return;
    wake(&c->turn);
    wait(&self->turn);
}

static inline void point(uintptr_t place) {
    ++res->points;
    ++segPoints;
    if (--countdown > 0) return;
    switchFrom(me, place);
}

// A client that cannot go on until another one has run.
static void blocked(uintptr_t place) {
    ++res->points; ++segPoints; ++res->blocked;
    ++me->blockedRow;
    if (++blockedInRow > 20000) {
        printf("FAIL 0 deadlock: every client waits for another\n");
        fflush(stdout);
        _exit(1);
    }
    switchFrom(me, place);
}
static void progressed() { blockedInRow = 0; me->blockedRow = 0; }

static void* threadMain(void* p) {
    me = static_cast<Client*>(p);
    wait(&me->turn);
    me->body();
    me->done = true;
    blockedInRow = 0; me->blockedRow = 0;
    endSegment(me->id);
    Client* c = choose();
    if (c) { start(c, 0); wake(&c->turn); } else wake(&mainTurn);
    me = nullptr;
    return nullptr;
}

Result run(const Config& c, std::vector<std::function<void()>> bodies) {
    Result r;
    sim::Rng rg(c.seed);
    std::set<uint64_t> ps;
    cfg = &c; res = &r; rng = &rg; pairSet = &ps;
    tracePos = 0; segPoints = 0; blockedInRow = 0; mainTurn = 0;
    std::vector<Client> cs(bodies.size());
    all.clear();
    for (size_t i = 0; i < bodies.size(); ++i) { cs[i].id = (int)i; cs[i].body = std::move(bodies[i]); all.push_back(&cs[i]); }
    for (auto& x : cs) if (pthread_create(&x.th, nullptr, threadMain, &x)) { perror("pthread_create"); _exit(3); }
    Client* f = choose();
    if (f) { start(f, 0); wake(&f->turn); wait(&mainTurn); }
    for (auto& x : cs) pthread_join(x.th, nullptr);
    r.pairs.assign(ps.begin(), ps.end());
    all.clear();
    return r;
}

}  // namespace sched

using namespace sched;

extern "C" {

void __sanitizer_cov_trace_pc() {
    if (!me) return;
    point((uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start);
}

#define PLACE ((uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start)

int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!me) return __real_pthread_mutex_lock(m);
    point(PLACE);
    for (bool first = true;; first = false) {
        int rc = pthread_mutex_trylock(m);
        if (rc != EBUSY) { progressed(); return rc; }
        if (first) ++res->contended;
        blocked(PLACE);
    }
}
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int rc = __real_pthread_mutex_unlock(m);
    if (me) point(PLACE);
    return rc;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!me) return __real_pthread_rwlock_rdlock(m);
    point(PLACE);
    for (;;) { int rc = pthread_rwlock_tryrdlock(m); if (rc != EBUSY) { progressed(); return rc; } blocked(PLACE); }
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!me) return __real_pthread_rwlock_wrlock(m);
    point(PLACE);
    for (;;) { int rc = pthread_rwlock_trywrlock(m); if (rc != EBUSY) { progressed(); return rc; } blocked(PLACE); }
}
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
    int rc = __real_pthread_rwlock_unlock(m);
    if (me) point(PLACE);
    return rc;
}

// One-time initialisation. Only one client runs at a time, so plain variables suffice.
static std::map<void*, int>* onceState() { static std::map<void*, int>* m = new std::map<void*, int>; return m; }
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (!me) return __real_pthread_once(o, f);
    point(PLACE);
    auto& st = (*onceState())[o];
    while (st == 1) blocked(PLACE);
    progressed();
    if (*o != PTHREAD_ONCE_INIT) return 0;
    st = 1;
    try { int rc = __real_pthread_once(o, f); onceState()->erase(o); return rc; }
    catch (...) { onceState()->erase(o); throw; }
}
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (!me) return __real___cxa_guard_acquire(g);
    point(PLACE);
    while (onceState()->count(g)) blocked(PLACE);
    progressed();
    if (*(char*)g) return 0;
    int rc = __real___cxa_guard_acquire(g);
    if (rc) (*onceState())[g] = 1;
    return rc;
}
void __wrap___cxa_guard_release(uint64_t* g) { __real___cxa_guard_release(g); if (me) { onceState()->erase(g); point(PLACE); } }
void __wrap___cxa_guard_abort(uint64_t* g) { __real___cxa_guard_abort(g); if (me) { onceState()->erase(g); point(PLACE); } }
}
