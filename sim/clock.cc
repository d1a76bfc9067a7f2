// Clock and process identity of the code under test.
#include "clock.hh"
#include "sim.hh"
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#define PUB __attribute__((visibility("default")))
namespace simclock { bool active = false; uint64_t ns = 0, queries = 0; int pid = 1; static uint64_t tick() { ++queries; return ns += 1000 + (ns >> 7) % 100000; } }
using namespace simclock;
namespace sim { void clockJump(int64_t d) { ns += (uint64_t)d; } void processId(int p) { pid = p; } uint64_t clockQueries() { return queries; } }
extern "C" {
PUB int clock_gettime(clockid_t c, timespec* t) { if (!active) return (int)syscall(SYS_clock_gettime, c, t); const uint64_t n = tick(); t->tv_sec = (time_t)(n / 1000000000ull); t->tv_nsec = (long)(n % 1000000000ull); return 0; }
PUB int gettimeofday(timeval* t, void*) { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; } return 0; }
PUB time_t time(time_t* t) { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
PUB clock_t clock(void) { if (!active) { timespec s; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &s); return (clock_t)(s.tv_sec * CLOCKS_PER_SEC + s.tv_nsec / (1000000000 / CLOCKS_PER_SEC)); } return (clock_t)(tick() / 1000 % 1000000000ull); }
PUB pid_t getpid(void) { return active ? pid : (pid_t)syscall(SYS_getpid); }
}
