// Deterministic simulation engine: one seed (tape) is one exactly repeatable execution.
//
// Every source of nondeterminism a workload depends on goes through sim::choose():
// operation schedules, distribution draws, hardware entropy, heap layout, disk and
// allocation faults. The choices of a run form its tape; replaying the tape repeats the run.
#ifndef VERIF_SIM_HH
#define VERIF_SIM_HH
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>

namespace sim {

// ---------------------------------------------------------------- choices
// value in [0,n); 0 is the simplest choice (what the minimiser drives towards)
uint64_t choose(uint64_t n);
// true with probability pct/100; false is the simple choice
bool chance(unsigned pct);
// integer in [lo,hi]
inline int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)choose((uint64_t)(hi - lo + 1)); }
// double in [lo,hi] on a grid of 2^20 steps
double real(double lo, double hi);

// ---------------------------------------------------------------- recording
// append a line to the event log (and its hash); the log is the recorded history
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// only hash, for bulky data
void hashDouble(double d);
void hashU64(uint64_t v);
// count that a fault of this kind was injected (and reached the code under test)
void fault(const char* kind);
// coverage: a rare state was reached
void probe(const char* name);
// abstract state visited (coverage measure)
void state(uint64_t h);
// count a simulated operation / random draw
void op();
void draw();
uint64_t drawsSoFar();
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- verdicts
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// run is not informative (oracle cannot decide): counted, neither pass nor fail
[[noreturn]] void discard(const char* why);
// asked before a violation is reported: returns a reason why the run cannot be judged, or null
extern const char* (*doubt)();
// decided by the simulator that the code makes no progress
void drawBudget(uint64_t n);   // more than n draws from now on is a violation "no-progress"

// ---------------------------------------------------------------- seams
// hardware entropy (std::random_device)
enum class Entropy { tape, stuck, fixed };
void entropyMode(Entropy m, uint32_t value = 0);
void entropyUnavailable(int afterCalls); // -1: never
// a private entropy stream: consecutive values derived from key, independent of the tape
void entropyStream(uint64_t key, uint64_t position = 0);
uint64_t entropyPosition();
void entropyFlip(int bit); // one bit (another one in each word) is flipped in the current private stream
uint64_t entropyCalls();

// clock and process identity seen by the code under test (advances a little with every query)
void clockJump(int64_t nanoseconds);
void processId(int pid);
uint64_t clockQueries();

// heap layout: reseeds the placement policy of the simulated heap
void heapLayout(uint64_t key);
// allocation failure: the n-th operator new (mode 1) / malloc (mode 2) / either (mode 3)
// from now on fails once. n counts from 1; 0 disarms.
void failAllocation(uint64_t n, int mode);
void allocationFaultsOff();        // disarms; allocationFailed() stays readable
bool allocationFailed();          // did the armed failure fire
uint64_t allocationsSeen(int mode); // since last failAllocation()
size_t heapInUse();

// disk: faults on files below the run's scratch directory
struct DiskPlan {
    int  openErrno = 0;        // open fails with this errno
    int  openSkip = 0;         // ... after this many successful opens
    long writeBudget = -1;     // bytes until the disk is full (-1: unlimited)
    int  writeErrno = 0;       // errno when the budget is exhausted
    int  shortWrites = 0;      // 1: writes may be short
    int  interrupts = 0;       // 1: writes/reads may fail with EINTR
    long readBudget = -1;      // bytes until reads fail/end
    int  readErrno = 0;        // errno when the read budget is exhausted; 0: premature EOF
    int  shortReads = 0;
    int  closeErrno = 0;       // close reports this error (data intact)
    const char* onlySuffix = nullptr; // plan applies to file names with this suffix only
};
void disk(const DiskPlan& p);
void diskOff();
bool diskFaultFired();
const std::string& scratch(); // run-private directory, removed after the run

} // namespace sim

// ---------------------------------------------------------------- implemented by the workload
// one simulated execution
void simRun();
// one-time warm up in the zygote (before forking)
void simWarmup();
extern const char* simRealComponents;
extern const char* simStubComponents;
extern const char* simRule;

#endif
