// The scheduler of the simulated clients: real threads, one baton. Exactly one client runs at any
// time; who runs, and for how many preemption points, is decided by a seeded PRNG or by a trace.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Segment { int client; long points; };  // points < 0: until it finishes

struct Config {
    uint64_t seed = 1;
    long gap = 30;               // mean number of preemption points between switches
    int stallPct = 0;            // chance that a preempted client is set aside for a long time
    bool useTrace = false;
    std::vector<Segment> trace;
    std::function<void(int, long)> onSegment;  // (client, -1) at its start, (client, points) at its end
};

struct Result {
    std::vector<Segment> trace;
    long switches = 0, points = 0, blocked = 0, contended = 0, stalls = 0;
    uint64_t sig = 0;                 // hash of the sequence of (client, place of preemption)
    std::vector<uint64_t> pairs;      // places: (where one was preempted, where the other resumed)
    bool deadlock = false;
};

extern thread_local long allocCountdown;  // the client's next allocation failure; the scheduler's own do not count

Result run(const Config& c, std::vector<std::function<void()>> bodies);

}  // namespace sched
