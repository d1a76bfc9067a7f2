// Disk faults of a write: what a plan does is described in `what`; hard faults have to be reported.
#ifndef VERIF_DISKPLAN_HH
#define VERIF_DISKPLAN_HH
#include "common.hh"
namespace wl {
inline sim::DiskPlan randomPlan(long brepSize, long geoSize, std::string& what, bool& hard)
{
    sim::DiskPlan p; hard = true; static const char* suffix[] = { ".geo", ".brep", nullptr }; p.onlySuffix = suffix[sim::choose(3)];
    switch (sim::choose(7)) {
    case 0: case 1: { // out of space / I/O error at a byte
        const long n = p.onlySuffix && p.onlySuffix[1] == 'b' ? brepSize : p.onlySuffix ? geoSize : brepSize + geoSize;
        p.writeBudget = sim::chance(20) ? 0 : sim::chance(30) ? std::max(0l, n - 1 - (long)sim::choose(30)) : (long)sim::choose(n); p.writeErrno = sim::choose(3) == 0 ? ENOSPC : sim::chance(50) ? EIO : EDQUOT; what = "disk full or broken"; if (sim::chance(30)) p.shortWrites = 1; break; }
    case 2: p.openErrno = sim::chance(50) ? EACCES : sim::chance(50) ? EMFILE : ENOSPC; what = "open fails"; break;
    case 3: p.closeErrno = sim::chance(50) ? EIO : ENOSPC; what = "close fails"; break;
    case 4: p.shortWrites = 1; hard = false; what = "short writes"; break;
    case 5: p.interrupts = 1; hard = false; what = "interrupts"; break;
    default: p.shortWrites = p.interrupts = 1; hard = false; what = "short writes and interrupts"; break;
    }
    return p;
}
} // namespace wl
#endif
