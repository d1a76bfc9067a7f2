#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hh"
#include "clock.hh"
#include <sys/syscall.h>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <dirent.h>

namespace simheap {
extern bool engineHeap; extern uint64_t layout; extern uint64_t failAt; extern int failMode;
extern bool failFired; extern uint64_t seenNew, seenMalloc;
struct Node; 
}
namespace simdisk { extern char prefix[256]; extern size_t prefixLen; extern bool armed; }

namespace {

constexpr size_t TAPE_MAX = 1u << 20, LOG_MAX = 1u << 19, ST_MAX = 4096, NAME_MAX_ = 96;

enum Status { RUNNING = 0, OK = 1, VIOLATION = 2, DISCARD = 3, SIMERROR = 4 };

struct NamedCount { char name[48]; uint64_t n; };

struct Shared {
    // inputs
    int replay; uint64_t seed; size_t tapeIn;
    // outputs
    size_t tapeLen; uint64_t tape[TAPE_MAX];
    size_t logLen; char logBuf[LOG_MAX]; uint64_t hash;
    uint64_t draws, ops;
    uint32_t nStates; uint64_t states[ST_MAX];
    NamedCount faults[NAME_MAX_], probes[NAME_MAX_];
    int status; char cls[128]; char msg[4096];
};
Shared* S = nullptr;
uint64_t rngState[2];
uint64_t budgetEnd = ~0ull;
std::string* scratchDir = nullptr;

uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t rng()
{
    uint64_t s1 = rngState[0]; const uint64_t s0 = rngState[1]; const uint64_t r = s0 + s1;
    rngState[0] = s0; s1 ^= s1 << 23; rngState[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return r;
}
void mixHash(const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p; uint64_t h = S->hash;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    S->hash = h;
}
void bump(NamedCount* t, const char* name)
{
    for (size_t i = 0; i < NAME_MAX_; ++i) {
        if (!t[i].name[0]) { strncpy(t[i].name, name, sizeof t[i].name - 1); t[i].n = 1; return; }
        if (strcmp(t[i].name, name) == 0) { t[i].n++; return; }
    }
}
[[noreturn]] void finishRun(int status) { S->status = status; _exit(0); }

// entropy
sim::Entropy eMode = sim::Entropy::tape; uint32_t eVal = 0; uint64_t eKey = 0, eCount = 0, eCalls = 0; bool eKeyed = false; int eFailAfter = -1, eFlip = -1;
}

namespace sim {

uint64_t choose(uint64_t n)
{
    if (n <= 1) return 0;
    uint64_t v;
    const size_t i = S->tapeLen;
    if (S->replay) v = i < S->tapeIn ? S->tape[i] % n : 0;
    else v = rng() % n;
    if (i < TAPE_MAX) { S->tape[i] = v; S->tapeLen = i + 1; }
    else { strcpy(S->cls, "tape-overflow"); finishRun(DISCARD); }
    return v;
}
bool chance(unsigned pct) { return choose(100) >= 100 - pct; }
double real(double lo, double hi)
{
    const uint64_t v = choose((1u << 20) + 1);
    return lo + (hi - lo) * (double(v) / double(1u << 20));
}
void log(const char* fmt, ...)
{
    char b[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    if (n < 0) return;
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    mixHash(b, n);
    if (S->logLen + n < LOG_MAX) { memcpy(S->logBuf + S->logLen, b, n); S->logLen += n; }
}
void hashDouble(double d) { mixHash(&d, sizeof d); }
void hashU64(uint64_t v) { mixHash(&v, sizeof v); }
void fault(const char* k) { bump(S->faults, k); }
void probe(const char* k) { bump(S->probes, k); }
void state(uint64_t h) { if (S->nStates < ST_MAX) S->states[S->nStates++] = h; }
void op() { S->ops++; }
void draw()
{
    if (++S->draws > budgetEnd) violation("no-progress", "no result after %llu random draws", (unsigned long long)S->draws);
}
uint64_t drawsSoFar() { return S->draws; }
uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15); return splitmix(x); }
void drawBudget(uint64_t n) { budgetEnd = n == 0 ? ~0ull : S->draws + n; }

const char* (*doubt)() = nullptr;
void violation(const char* cls, const char* fmt, ...)
{
    simdisk::armed = false; simheap::failAt = 0;
    if (auto ask = doubt) { doubt = nullptr; if (const char* why = ask()) discard(why); }
    va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg - 1, fmt, ap); va_end(ap);
    strncpy(S->cls, cls, sizeof S->cls - 1);
    log("VIOLATION %s: %s", cls, S->msg);
    finishRun(VIOLATION);
}
void discard(const char* why) { strncpy(S->cls, why, sizeof S->cls - 1); finishRun(DISCARD); }

void entropyMode(Entropy m, uint32_t v) { eMode = m; eVal = v; eKeyed = false; }
void entropyUnavailable(int n) { eFailAfter = n; }
uint64_t entropyPosition() { return eCount; }
void entropyStream(uint64_t key, uint64_t position) { eKey = key; eCount = position; eKeyed = true; eFlip = -1; }
void entropyFlip(int bit) { eFlip = bit; }
uint64_t entropyCalls() { return eCalls; }

void heapLayout(uint64_t key) { simheap::layout = key; }
void failAllocation(uint64_t n, int mode) { simheap::failAt = n; simheap::failMode = mode; simheap::failFired = false; simheap::seenNew = simheap::seenMalloc = 0; }
void allocationFaultsOff() { simheap::failAt = 0; }
bool allocationFailed() { return simheap::failFired; }
uint64_t allocationsSeen(int mode) { return (mode & 1 ? simheap::seenNew : 0) + (mode & 2 ? simheap::seenMalloc : 0); }
const std::string& scratch() { return *scratchDir; }

} // namespace sim

// hardware entropy seam
static uint32_t simEntropy()
{
    ++eCalls;
    if (eFailAfter >= 0 && (int)eCalls > eFailAfter) { sim::fault("entropy-unavailable"); throw std::runtime_error("random_device: entropy source unavailable"); }
    if (eMode == sim::Entropy::stuck) { sim::fault("entropy-stuck"); return eVal; }
    if (eMode == sim::Entropy::fixed) return eVal;
    if (eKeyed) { uint64_t x = eKey + 0x9e3779b97f4a7c15ull * eCount++; const uint32_t v = (uint32_t)splitmix(x); return eFlip < 0 ? v : v ^ (1u << ((eFlip + eCount) % 32)); }
    return (uint32_t)sim::choose(1ull << 32);
}
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_init(const char*, size_t) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { return simEntropy(); }
double std::random_device::_M_getentropy() const noexcept { return 32.0; }

// ---------------------------------------------------------------- engine
namespace {

struct Opts {
    std::string property = "P00", tier = "quick", out, replayDir = ".", replay, known;
    uint64_t seed = 1; double seconds = 10; int workers = 8; long maxRuns = -1; long one = -1; bool verbose = false;
} O;

double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
uint64_t runSeed(uint64_t seed, uint64_t idx) { uint64_t x = seed * 0x100000001b3ull + idx * 0x9e3779b97f4a7c15ull + 12345; splitmix(x); return splitmix(x); }

std::string workerScratch;
void rmTree(const std::string& d)
{
    DIR* h = opendir(d.c_str());
    if (!h) return;
    while (dirent* e = readdir(h)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string p = d + "/" + n; struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p), rmdir(p.c_str());
        else unlink(p.c_str());
    }
    closedir(h);
}

// runs one execution in a forked child; S->replay/seed/tape are set by the caller
int execute()
{
    S->tapeLen = 0; S->logLen = 0; S->hash = 1469598103934665603ull; S->draws = S->ops = 0; S->nStates = 0;
    memset(S->faults, 0, sizeof S->faults); memset(S->probes, 0, sizeof S->probes);
    S->status = RUNNING; S->cls[0] = 0; S->msg[0] = 0;
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        simheap::engineHeap = false;
        struct rlimit rc { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
        int dn = open("/dev/null", O_RDWR); if (!O.verbose) { dup2(dn, 1); dup2(dn, 2); }
        itimerval it {}; it.it_value.tv_sec = 10; setitimer(ITIMER_PROF, &it, nullptr);
        alarm(300);
        simclock::active = true; simclock::ns = 1500000000ull * 1000000000ull + (S->seed % 100000007ull) * 1000003ull; simclock::pid = 1000 + (int)(S->seed % 30000);
        uint64_t x = S->seed; rngState[0] = splitmix(x); rngState[1] = splitmix(x) | 1;
        simRun();
        simclock::active = false; simdisk::armed = false; simheap::failAt = 0;
        finishRun(OK);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) {
        const int sig = WTERMSIG(st);
        if (S->status == RUNNING || S->status == OK) {
            S->status = VIOLATION;
            if (sig == SIGPROF) { strcpy(S->cls, "hang"); strcpy(S->msg, "no progress within 10 s of CPU time"); }
            else if (sig == SIGALRM) { strcpy(S->cls, "hang-wall"); strcpy(S->msg, "blocked"); }
            else if (sig == SIGKILL) { S->status = DISCARD; strcpy(S->cls, "killed"); }
            else { snprintf(S->cls, sizeof S->cls, "crash-%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "signal"); snprintf(S->msg, sizeof S->msg, "process died with signal %d (%s)", sig, strsignal(sig)); }
        }
    } else if (S->status == RUNNING) { S->status = VIOLATION; strcpy(S->cls, "exit"); snprintf(S->msg, sizeof S->msg, "process exited with status %d in mid run", WEXITSTATUS(st)); }
    if (!workerScratch.empty()) rmTree(workerScratch);
    return S->status;
}

Shared* mapShared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
}

struct Found { uint64_t seed, idx; std::string cls, msg; std::vector<uint64_t> tape; };
struct Agg {
    uint64_t runs = 0, ok = 0, discards = 0, draws = 0, ops = 0, nontrivial = 0;
    std::map<std::string, uint64_t> faults, probes, disc;
    std::unordered_set<uint64_t> hashes, states;
    std::vector<Found> found;
    std::vector<std::string> samples;
};

std::string jsonEsc(const std::string& s)
{
    std::string r; for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c; }
    return r;
}

void setScratch(const std::string& d)
{
    workerScratch = d; mkdir(d.c_str(), 0700);
    if (!scratchDir) scratchDir = new std::string;
    *scratchDir = d;
    strncpy(simdisk::prefix, d.c_str(), sizeof simdisk::prefix - 1); simdisk::prefixLen = strlen(simdisk::prefix);
}

std::string topScratch;

void workerMain(int w, int outFd, double deadline)
{
    // equal path lengths for all workers and for replays keep runs identical
    char d[300]; snprintf(d, sizeof d, "%s/w%02d", topScratch.c_str(), w); setScratch(d);
    Agg a;
    std::map<std::string, int> perClass;
    for (uint64_t i = w; ; i += O.workers) {
        if (O.maxRuns >= 0 && (long)i >= O.maxRuns) break;
        if (now() > deadline) break;
        S->replay = 0; S->seed = runSeed(O.seed, i);
        int st = execute();
        a.runs++;
        a.draws += S->draws; a.ops += S->ops;
        bool nontriv = S->probes[0].name[0] || S->faults[0].name[0];
        for (size_t k = 0; k < NAME_MAX_ && S->faults[k].name[0]; ++k) a.faults[S->faults[k].name] += S->faults[k].n;
        for (size_t k = 0; k < NAME_MAX_ && S->probes[k].name[0]; ++k) a.probes[S->probes[k].name] += S->probes[k].n;
        for (uint32_t k = 0; k < S->nStates; ++k) a.states.insert(S->states[k]);
        if (st == OK) {
            a.ok++;
            if (nontriv) a.hashes.insert(S->hash);
            if (a.samples.size() < 2 && w < 3 && nontriv) a.samples.emplace_back(S->logBuf, std::min<size_t>(S->logLen, 900));
        }
        else if (st == DISCARD) { a.discards++; a.disc[S->cls]++; }
        else if (st == VIOLATION) {
            if (perClass[S->cls]++ < 2 && a.found.size() < 6) {
                Found f { S->seed, i, S->cls, S->msg, {} };
                f.tape.assign(S->tape, S->tape + S->tapeLen);
                a.found.push_back(f);
            }
            if (a.found.size() >= 3) break;
        }
    }
    rmdir(workerScratch.c_str());
    // serialise
    std::ostringstream o;
    o << "runs " << a.runs << "\nok " << a.ok << "\ndiscards " << a.discards << "\ndraws " << a.draws << "\nops " << a.ops << "\n";
    for (auto& p : a.faults) o << "F " << p.second << " " << p.first << "\n";
    for (auto& p : a.probes) o << "P " << p.second << " " << p.first << "\n";
    for (auto& p : a.disc) o << "D " << p.second << " " << p.first << "\n";
    for (auto h : a.hashes) o << "h " << h << "\n";
    for (auto h : a.states) o << "s " << h << "\n";
    for (auto& s : a.samples) { std::string t = s; std::replace(t.begin(), t.end(), '\n', '\x01'); o << "X " << t << "\n"; }
    for (auto& f : a.found) {
        std::string m = f.msg; std::replace(m.begin(), m.end(), '\n', ' ');
        o << "V " << f.seed << " " << f.idx << " " << f.cls << "\nM " << m << "\nT " << f.tape.size();
        for (auto t : f.tape) o << " " << t;
        o << "\n";
    }
    o << "E\n";
    std::string s = o.str(); size_t off = 0;
    while (off < s.size()) { ssize_t r = ::write(outFd, s.data() + off, s.size() - off); if (r <= 0) _exit(2); off += r; }
    _exit(0);
}

int runTape(const std::vector<uint64_t>& t, uint64_t seed)
{
    S->replay = 1; S->seed = seed; S->tapeIn = t.size();
    std::copy(t.begin(), t.end(), S->tape);
    return execute();
}

// minimise: keep the violation class
std::vector<uint64_t> minimise(const Found& f, double limit)
{
    std::vector<uint64_t> best = f.tape; const double end = now() + limit;
    auto tryTape = [&](const std::vector<uint64_t>& c) {
        if (now() > end) return false;
        if (runTape(c, f.seed) == VIOLATION && f.cls == S->cls) {
            std::vector<uint64_t> used(S->tape, S->tape + std::min(S->tapeLen, c.size()));
            while (!used.empty() && used.back() == 0) used.pop_back();
            best = used; return true;
        }
        return false;
    };
    tryTape(best);
    // shortest prefix
    for (size_t lo = 0, hi = best.size(); lo < hi && now() < end;) {
        size_t mid = (lo + hi) / 2; std::vector<uint64_t> c(best.begin(), best.begin() + std::min(mid, best.size()));
        if (tryTape(c)) hi = std::min(mid, best.size()); else lo = mid + 1;
    }
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= best.size() && now() < end;) {
                std::vector<uint64_t> c = best; c.erase(c.begin() + i, c.begin() + i + len);
                if (tryTape(c)) progress = true; else i += std::max<size_t>(1, len / 2);
            }
            // zero blocks
            for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
                bool any = false; for (size_t k = i; k < i + len; ++k) any |= best[k] != 0;
                if (!any) continue;
                std::vector<uint64_t> c = best; std::fill(c.begin() + i, c.begin() + i + len, 0);
                if (tryTape(c)) progress = true;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < end; ++i) {
            for (uint64_t div : { 1024ull, 16ull, 2ull }) {
                if (i >= best.size() || best[i] == 0) break;
                std::vector<uint64_t> c = best; c[i] /= div; if (c[i] != best[i] && tryTape(c)) { progress = true; break; }
            }
            if (i < best.size() && best[i] > 0) { std::vector<uint64_t> c = best; c[i]--; if (tryTape(c)) progress = true; }
        }
    }
    return best;
}

std::string readFile(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

} // namespace

int main(int argc, char** argv)
{
    if (!getenv("SIM_NOASLR_DONE")) {
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOASLR_DONE", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    // warm up the code under test in its own heap before any bookkeeping is allocated
    S = mapShared(); memset((void*)S, 0, offsetof(Shared, tape));
    S->hash = 1; S->replay = 1; S->tapeIn = 0;
    setvbuf(stdout, nullptr, _IOLBF, 1 << 12);
    simWarmup();
    simheap::engineHeap = true;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i]; auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (k == "--property") O.property = v(); else if (k == "--tier") O.tier = v(); else if (k == "--seed") O.seed = strtoull(v().c_str(), 0, 10);
        else if (k == "--seconds") O.seconds = atof(v().c_str()); else if (k == "--workers") O.workers = atoi(v().c_str());
        else if (k == "--runs") O.maxRuns = atol(v().c_str()); else if (k == "--out") O.out = v(); else if (k == "--replay-dir") O.replayDir = v();
        else if (k == "--replay") O.replay = v(); else if (k == "--one") O.one = atol(v().c_str()); else if (k == "--known") O.known = v();
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    char tmpl[] = "/tmp/simdisk.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } topScratch = tmpl;
    struct Cleanup { ~Cleanup() { rmTree(topScratch); rmdir(topScratch.c_str()); } } cleanup;
    const double t0 = now();

    if (!O.replay.empty() || O.one >= 0) {
        setScratch(topScratch + "/w00");
        std::string wantHash, wantCls;
        if (O.one >= 0) { O.verbose = true; S->replay = 0; S->seed = runSeed(O.seed, O.one); execute(); }
        else {
            std::string t = readFile(O.replay); size_t p = t.find("\"tape\": [");
            if (p == std::string::npos) { fprintf(stderr, "not a replay file: %s\n", O.replay.c_str()); return 2; }
            std::vector<uint64_t> tape; const char* c = t.c_str() + p + 9;
            while (*c && *c != ']') { char* e; uint64_t v = strtoull(c, &e, 10); if (e == c) { ++c; continue; } tape.push_back(v); c = e; }
            auto field = [&](const char* k) { std::string key = std::string("\"") + k + "\": \""; size_t q = t.find(key); if (q == std::string::npos) return std::string(); q += key.size(); return t.substr(q, t.find('"', q) - q); };
            wantHash = field("hash"); wantCls = field("class");
            uint64_t sd = strtoull(field("run_seed").c_str(), 0, 10);
            runTape(tape, sd);
        }
        fwrite(S->logBuf, 1, S->logLen, stdout);
        char hb[32]; snprintf(hb, 32, "%016llx", (unsigned long long)S->hash);
        printf("status %s class %s hash %s\n%s\n", S->status == OK ? "ok" : S->status == VIOLATION ? "violation" : "discarded", S->cls, hb, S->msg);
        if (!wantHash.empty()) printf("replay %s\n", wantHash == hb && wantCls == S->cls ? "reproduced exactly" : "DIFFERS from the recorded execution");
        if (S->status == VIOLATION) { printf("VIOLATION property=%s replay=%s\n", O.property.c_str(), O.replay.c_str()); return 1; }
        return 0;
    }

    bool nondet = false;
    // determinism self-test: a few runs executed twice must give identical histories
    {
        setScratch(topScratch + "/w00");
        for (int i = 0; i < 4; ++i) {
            S->replay = 0; S->seed = runSeed(O.seed ^ 0xdeadbeef, i); execute(); uint64_t h1 = S->hash; int s1 = S->status; std::vector<uint64_t> t(S->tape, S->tape + S->tapeLen);
            setScratch(topScratch + "/w01");
            runTape(t, S->seed); uint64_t h2 = S->hash; int s2 = S->status;
            setScratch(topScratch + "/w00");
            if (s1 != OK) break;
            if (s1 == s2 && h1 != h2 && s1 == OK) { fprintf(stderr, "ERROR: run %d is not deterministic (%016llx vs %016llx)\n", i, (unsigned long long)h1, (unsigned long long)h2); nondet = true; }
        }
    }

    const double tSearch = now(), deadline = tSearch + O.seconds;
    std::vector<int> fds; std::vector<pid_t> pids;
    for (int w = 0; w < O.workers; ++w) {
        int p[2]; if (pipe(p)) return 2;
        pid_t c = fork();
        if (c == 0) { close(p[0]); for (int f : fds) close(f); S = mapShared(); workerMain(w, p[1], deadline); }
        close(p[1]); fds.push_back(p[0]); pids.push_back(c);
    }
    Agg g;
    for (size_t w = 0; w < fds.size(); ++w) {
        std::string buf; char b[65536]; ssize_t r; while ((r = ::read(fds[w], b, sizeof b)) > 0) buf.append(b, r);
        close(fds[w]); int st; waitpid(pids[w], &st, 0);
        if (buf.size() < 2 || buf.substr(buf.size() - 2) != "E\n") { fprintf(stderr, "ERROR: worker %zu failed\n", w); return 2; }
        std::istringstream is(buf); std::string line;
        while (std::getline(is, line)) {
            std::istringstream l(line); std::string k; l >> k; uint64_t n; std::string rest;
            if (k == "runs") { l >> n; g.runs += n; } else if (k == "ok") { l >> n; g.ok += n; } else if (k == "discards") { l >> n; g.discards += n; }
            else if (k == "draws") { l >> n; g.draws += n; } else if (k == "ops") { l >> n; g.ops += n; }
            else if (k == "F") { l >> n >> rest; g.faults[rest] += n; } else if (k == "P") { l >> n >> rest; g.probes[rest] += n; } else if (k == "D") { l >> n >> rest; g.disc[rest] += n; }
            else if (k == "h") { l >> n; g.hashes.insert(n); } else if (k == "s") { l >> n; g.states.insert(n); }
            else if (k == "X") { std::string s = line.substr(2); std::replace(s.begin(), s.end(), '\x01', '\n'); if (g.samples.size() < 3) g.samples.push_back(s); }
            else if (k == "V") {
                Found f; l >> f.seed >> f.idx >> f.cls; std::getline(is, line); f.msg = line.size() > 2 ? line.substr(2) : ""; std::getline(is, line);
                std::istringstream tl(line.substr(2)); size_t cnt; tl >> cnt; f.tape.resize(cnt); for (auto& x : f.tape) tl >> x; g.found.push_back(f);
            }
        }
    }
    const double searchWall = now() - tSearch;

    // known findings: "KNOWN property=<id> class=<class> <description>"
    std::map<std::string, std::string> known;
    if (!O.known.empty()) {
        std::istringstream is(readFile(O.known)); std::string line;
        while (std::getline(is, line)) if (line.rfind("KNOWN property=" + O.property + " class=", 0) == 0) {
            size_t q = line.find("class=") + 6, e = line.find(' ', q); known[line.substr(q, e - q)] = e == std::string::npos ? "" : line.substr(e + 1);
        }
    }
    for (auto& k : known) printf("KNOWN-FINDING: property=%s %s\n", O.property.c_str(), k.second.c_str());

    // violations: confirm, minimise, record
    setScratch(topScratch + "/w00");
    std::map<std::string, Found> byClass;
    for (auto& f : g.found) { if (known.count(f.cls)) continue; auto it = byClass.find(f.cls); if (it == byClass.end() || f.tape.size() < it->second.tape.size()) byClass[f.cls] = f; }
    int nViol = 0, nFlaky = 0; double minLimit = O.tier == "thorough" ? 60 : 20; if (byClass.size() > 1) minLimit /= byClass.size();
    for (auto& pr : byClass) {
        const Found& f = pr.second;
        runTape(f.tape, f.seed); uint64_t h1 = S->hash; bool v1 = S->status == VIOLATION && f.cls == S->cls;
        runTape(f.tape, f.seed); uint64_t h2 = S->hash; bool v2 = S->status == VIOLATION && f.cls == S->cls;
        if (!v1 && !v2) { fprintf(stderr, "ERROR: violation %s (run %llu) does not reproduce\n", f.cls.c_str(), (unsigned long long)f.idx); ++nFlaky; continue; }
        if (!v1 || !v2 || h1 != h2) printf("note: the executions of this violation differ: the code depends on something outside of the simulation\n");
        auto t = f.cls.rfind("hang", 0) == 0 ? f.tape : minimise(f, minLimit);
        runTape(t, f.seed);
        if (S->status != VIOLATION || f.cls != S->cls) { t = f.tape; runTape(t, f.seed); }
        std::string cls = f.cls; for (auto& c : cls) if (!isalnum((unsigned char)c) && c != '-') c = '_';
        mkdir(O.replayDir.c_str(), 0755);
        const std::string path = O.replayDir + "/" + O.property + "-" + cls + ".json";
        char hb[32]; snprintf(hb, 32, "%016llx", (unsigned long long)S->hash);
        std::ofstream o(path);
        o << "{\n \"property\": \"" << O.property << "\",\n \"class\": \"" << jsonEsc(S->cls) << "\",\n \"message\": \"" << jsonEsc(S->msg) << "\",\n \"seed\": " << O.seed
          << ",\n \"run_index\": " << f.idx << ",\n \"run_seed\": \"" << f.seed << "\",\n \"hash\": \"" << hb << "\",\n \"tape_original_length\": " << f.tape.size() << ",\n \"tape\": [";
        for (size_t i = 0; i < t.size(); ++i) o << (i ? "," : "") << t[i];
        o << "],\n \"trace\": [\n";
        std::istringstream is(std::string(S->logBuf, S->logLen)); std::string line; bool first = true;
        while (std::getline(is, line)) { o << (first ? "" : ",\n") << "  \"" << jsonEsc(line) << "\""; first = false; }
        o << "\n ]\n}\n"; o.close();
        printf("%s\n", S->msg);
        printf("VIOLATION property=%s replay=%s\n", O.property.c_str(), path.c_str());
        ++nViol;
    }

    if (!O.out.empty()) {
        std::ofstream o(O.out);
        auto mapJson = [&](const std::map<std::string, uint64_t>& m) { std::string r = "{"; bool f = true; for (auto& p : m) { r += (f ? "\"" : ", \"") + jsonEsc(p.first) + "\": " + std::to_string(p.second); f = false; } return r + "}"; };
        const double wall = now() - t0;
        o << "{\n \"property\": \"" << O.property << "\", \"tier\": \"" << O.tier << "\", \"seed\": " << O.seed << ", \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << g.runs << ",\n  \"distinct_nontrivial\": " << g.hashes.size() << ",\n  \"rule\": \"" << jsonEsc(simRule) << "\",\n  \"samples\": [";
        for (size_t i = 0; i < g.samples.size(); ++i) o << (i ? ", " : "") << "\"" << jsonEsc(g.samples[i]) << "\"";
        if (g.samples.empty()) o << "\"(no run completed)\"";
        o << "],\n  \"runs_held\": " << g.ok << ", \"runs_undecided\": " << g.discards << ", \"undecided_reasons\": " << mapJson(g.disc)
          << ",\n  \"runs_per_hour\": " << (uint64_t)(g.runs / std::max(0.01, searchWall) * 3600)
          << ",\n  \"simulated_time\": {\"unit\": \"operations and random draws (the library has no clock)\", \"operations\": " << g.ops << ", \"draws\": " << g.draws << "}"
          << ",\n  \"faults_injected\": " << mapJson(g.faults) << ",\n  \"rare_states_reached\": " << mapJson(g.probes)
          << ",\n  \"distinct_abstract_states\": " << g.states.size()
          << ",\n  \"real_components\": \"" << jsonEsc(simRealComponents) << "\", \"stub_components\": \"" << jsonEsc(simStubComponents) << "\"\n },\n"
          << " \"assumptions\": [\"single-threaded library (no threads of its own; boolean operations run with parallelism off)\"],\n"
          << " \"wall_s\": " << wall << ", \"violations\": " << nViol << "\n}\n";
    }
    printf("%s: %llu runs (%llu held, %llu undecided), %zu distinct non-trivial histories, %zu states, %llu draws, %llu ops, %.1f s\n", O.property.c_str(), (unsigned long long)g.runs, (unsigned long long)g.ok, (unsigned long long)g.discards, g.hashes.size(), g.states.size(), (unsigned long long)g.draws, (unsigned long long)g.ops, now() - t0);
    if (nViol) return 1;
    if (nFlaky || nondet) return 2;
    return 0;
}
