// Failing allocations: linked into the library under test, --wrap sends its operator new here.
#include <cstddef>
#include <new>

extern "C" {
void* __real__Znwm(size_t);
void* __real__Znam(size_t);

static thread_local long left = 0, fired = 0;

void sim_arm(long k) { left = k; fired = 0; }
long sim_disarm() { left = 0; return fired; }

static void count() {
    if (left > 0 && --left == 0) {
        ++fired;
        throw std::bad_alloc();
    }
}
void* __wrap__Znwm(size_t n) { count(); return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { count(); return __real__Znam(n); }
}
