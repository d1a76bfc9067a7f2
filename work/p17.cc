// P17: write() returning means that complete files are on disk; failures surface and can be repeated.
#include "gmshfile.hh"
#include "diskplan.hh"
#include <unistd.h>
#include <sys/stat.h>
const char* simRealComponents = "GmshWriter, BRepWriter, both network builders, OpenCASCADE .brep output, C++ file streams";
const char* simStubComponents = "the disk (system calls below the streams follow a fault plan decided by the simulator), sub-domains and entities, heap placement and failures of operator new";
const char* simRule = "a run builds a network and writes it several times under disk faults (failing opens, full disk, I/O errors at any byte, torn and short writes, interrupts, failing close) and memory faults; whenever write() returns with enough memory the files must equal those of an undisturbed write, an undisturbed write must never fail; non-trivial: a write under a fault plan was judged";
void simWarmup() {}
using namespace wl;

template<class Net> void history(const Net& net)
{
    const std::string base = sim::scratch() + "/net"; const bool brepOnly = sim::chance(25);
    std::unique_ptr<Frackit::GmshWriter> g; std::unique_ptr<Frackit::BRepWriter> w;
    mustNotThrow("write-throws", "constructing a writer", [&] { if (brepOnly) w = std::make_unique<Frackit::BRepWriter>(net); else g = std::make_unique<Frackit::GmshWriter>(net); });
    auto write = [&](const std::string& n) { if (brepOnly) w->write(n); else g->write(n, 0.125, 0.5); };
    mustNotThrow("write-throws", "an undisturbed write", [&] { write(base); });
    const std::string refB = slurp(base + ".brep"), refG = brepOnly ? "" : slurp(base + ".geo");
    if (refB.empty() || (!brepOnly && refG.empty())) sim::violation("empty-file", "an undisturbed write left an empty file");
    auto complete = [&](std::string& what) { if (slurp(base + ".brep") != refB) { what = ".brep"; return false; } if (!brepOnly && slurp(base + ".geo") != refG) { what = ".geo"; return false; } return true; };
    const int n = 1 + (int)sim::choose(5);
    for (int i = 0; i < n; ++i) {
        sim::op(); if (sim::chance(50)) { unlink((base + ".brep").c_str()); unlink((base + ".geo").c_str()); }
        std::string what, err, file; bool hard;
        if (sim::chance(15)) { // no such directory
            if (!throws([&] { write(sim::scratch() + "/missing/net"); }, err)) sim::violation("silent-failure", "writing into a missing directory reports no error"); sim::fault("missing-directory"); continue;
        }
        if (sim::chance(15)) { // memory
            sim::failAllocation(1 + sim::choose(12), 1); const bool threw = throws([&] { write(base); }, err); const bool hit = sim::allocationFailed(); sim::failAllocation(0, 0); what = "out of memory";
            if (!threw && !complete(file)) { if (!hit) sim::violation("silent-loss", "write() returned but the %s file is incomplete", file.c_str()); sim::probe("memory-failure-swallowed"); } // standard streams may swallow it, not judged
            if (threw && !hit) sim::violation("write-throws", "an undisturbed write threw: %s", err.c_str()); if (hit) sim::fault("write-out-of-memory");
        } else {
            const auto p = randomPlan((long)refB.size(), (long)refG.size(), what, hard); sim::disk(p); const bool threw = throws([&] { write(base); }, err); sim::diskOff(); const bool fired = sim::diskFaultFired();
            if (!threw && !complete(file)) sim::violation("silent-loss", "%s: write() returned but the %s file is not what an undisturbed write leaves (%zu of %zu bytes)", what.c_str(), file.c_str(), slurp(base + file).size(), file == ".geo" ? refG.size() : refB.size());
            if (!threw && hard && fired) sim::violation("silent-failure", "%s: the system reported an error but write() returned normally", what.c_str());
            if (threw && (!fired || !hard)) sim::violation("write-throws", "%s: write() threw: %s", fired ? what.c_str() : "undisturbed", err.c_str());
            sim::log("%s%s: %s", what.c_str(), p.onlySuffix ? p.onlySuffix : "", threw ? "error reported" : "written"); sim::state(sim::mix(sim::mix(std::hash<std::string>()(what), threw), brepOnly * 2 + (p.onlySuffix ? p.onlySuffix[1] : 0)));
        }
        if (sim::chance(60)) { mustNotThrow("retry-throws", "a write after a disturbed one", [&] { write(base); }); if (!complete(file)) sim::violation("retry-incomplete", "the %s file of a write after a disturbed one is not what an undisturbed write leaves", file.c_str()); sim::probe("retried-write"); }
    }
}
void simRun()
{
    idBits = 24;
    sim::heapLayout(sim::choose(1ull << 32));
    const bool contained = sim::chance(50); Scene s = randomScene(contained ? 2 : 0, 3); if (s.prims.empty()) sim::discard("no entities");
    if (contained) { Frackit::ContainedEntityNetworkBuilder<double> b; fill(b, s); mustNotThrow("build-throws", "build()", [&] { b.build(); }); history(b.network()); }
    else { Frackit::EntityNetworkBuilder<double> b; fill(b, s); mustNotThrow("build-throws", "build()", [&] { b.build(); }); history(b.network()); }
}
