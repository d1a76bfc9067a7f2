// Simulated disk: file operations below the run's scratch directory go through a fault plan.
// The medium is a real file in a private directory; the plan decides what each call reports.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hh"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace simdisk {
sim::DiskPlan plan;
bool armed = false, fired = false;
char prefix[256]; size_t prefixLen = 0;
constexpr int MAXFD = 1024;
bool tracked[MAXFD];
long opens = 0;

template<class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

static bool mine(const char* path)
{
    if (!armed || !prefixLen || strncmp(path, prefix, prefixLen) != 0) return false;
    if (!plan.onlySuffix) return true;
    size_t a = strlen(path), b = strlen(plan.onlySuffix);
    return a >= b && strcmp(path + a - b, plan.onlySuffix) == 0;
}
// returns true if the open must fail
static bool failOpen(const char* path)
{
    if (!mine(path)) return false;
    if (plan.openErrno && opens++ >= plan.openSkip) {
        fired = true; sim::fault(plan.openErrno == ENOSPC ? "open-ENOSPC" : plan.openErrno == EACCES ? "open-EACCES" : plan.openErrno == EMFILE ? "open-EMFILE" : plan.openErrno == ENOENT ? "open-ENOENT" : "open-error");
        sim::log("disk: open -> errno %d", plan.openErrno);
        errno = plan.openErrno; return true;
    }
    return false;
}
static void track(const char* path, int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = mine(path); }
static bool isTracked(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }
} // namespace simdisk
using namespace simdisk;

extern "C" {
FILE* fopen64(const char* path, const char* mode)
{
    static auto f = real<FILE*(*)(const char*, const char*)>("fopen64");
    if (failOpen(path)) return nullptr;
    FILE* r = f(path, mode); if (r) track(path, fileno(r)); return r;
}
FILE* fopen(const char* path, const char* mode)
{
    static auto f = real<FILE*(*)(const char*, const char*)>("fopen");
    if (failOpen(path)) return nullptr;
    FILE* r = f(path, mode); if (r) track(path, fileno(r)); return r;
}
int open(const char* path, int flags, ...)
{
    static auto f = real<int(*)(const char*, int, ...)>("open");
    va_list ap; va_start(ap, flags); int m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (failOpen(path)) return -1;
    int r = f(path, flags, m); track(path, r); return r;
}
int open64(const char* path, int flags, ...)
{
    static auto f = real<int(*)(const char*, int, ...)>("open64");
    va_list ap; va_start(ap, flags); int m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (failOpen(path)) return -1;
    int r = f(path, flags, m); track(path, r); return r;
}
static ssize_t simWrite(int fd, const void* buf, size_t n)
{
    if (plan.interrupts && n && sim::chance(20)) { fired = true; sim::fault("write-EINTR"); errno = EINTR; return -1; }
    size_t k = n;
    if (plan.shortWrites && n > 1 && sim::chance(60)) { k = 1 + (size_t)sim::choose(n - 1); fired = true; sim::fault("write-short"); }
    if (plan.writeBudget >= 0) {
        if (plan.writeBudget == 0 && n) {
            fired = true; sim::fault(plan.writeErrno == ENOSPC ? "write-ENOSPC" : plan.writeErrno == EDQUOT ? "write-EDQUOT" : "write-EIO");
            sim::log("disk: write of %zu bytes -> errno %d", n, plan.writeErrno);
            errno = plan.writeErrno; return -1;
        }
        if ((long)k > plan.writeBudget) { k = (size_t)plan.writeBudget; sim::fault("write-torn"); }
        plan.writeBudget -= (long)k;
    }
    return syscall(SYS_write, fd, buf, k);
}
ssize_t write(int fd, const void* buf, size_t n)
{
    if (isTracked(fd)) return simWrite(fd, buf, n);
    return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!isTracked(fd)) return syscall(SYS_writev, fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) {
        if (!v[i].iov_len) continue;
        ssize_t r = simWrite(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return tot ? tot : r;
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}
ssize_t read(int fd, void* buf, size_t n)
{
    if (isTracked(fd) && n) {
        if (plan.interrupts && sim::chance(20)) { fired = true; sim::fault("read-EINTR"); errno = EINTR; return -1; }
        if (plan.shortReads && n > 1 && sim::chance(60)) { n = 1 + (size_t)sim::choose(n > 512 ? 512 : n - 1); fired = true; sim::fault("read-short"); }
        if (plan.readBudget >= 0) {
            if (plan.readBudget == 0) {
                fired = true;
                if (plan.readErrno) { sim::fault("read-EIO"); sim::log("disk: read -> errno %d", plan.readErrno); errno = plan.readErrno; return -1; }
                sim::fault("read-premature-EOF"); sim::log("disk: read -> premature end of file"); return 0;
            }
            if ((long)n > plan.readBudget) n = (size_t)plan.readBudget;
            ssize_t r = syscall(SYS_read, fd, buf, n);
            if (r > 0) plan.readBudget -= r;
            return r;
        }
    }
    return syscall(SYS_read, fd, buf, n);
}
int close(int fd)
{
    bool t = isTracked(fd);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = false;
    int r = (int)syscall(SYS_close, fd);
    if (t && plan.closeErrno) { fired = true; sim::fault("close-EIO"); errno = plan.closeErrno; return -1; }
    return r;
}
int fclose(FILE* fp)
{
    static auto f = real<int(*)(FILE*)>("fclose");
    int fd = fileno(fp);
    bool t = isTracked(fd);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = false;
    int r = f(fp);
    if (t && plan.closeErrno) { fired = true; sim::fault("close-EIO"); errno = plan.closeErrno; return EOF; }
    return r;
}
}

namespace sim {
void disk(const DiskPlan& p) { plan = p; armed = true; fired = false; opens = 0; memset(tracked, 0, sizeof tracked); }
void diskOff() { armed = false; }
bool diskFaultFired() { return fired; }
} // namespace sim
