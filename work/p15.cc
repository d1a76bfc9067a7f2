// P15: networks contained in sub-domains: confinement, conservation and conformity.
#include "netgen.hh"
const char* simRealComponents = "ContainedEntityNetworkBuilder, EntityNetworkBuilder, both network classes, getShape(), fuse(), default tolerances, OpenCASCADE boolean operations and maps";
const char* simStubComponents = "sub-domains and entities (chosen by the simulator), heap placement (decides the iteration order of the shape maps)";
const char* simRule = "a run adds confining and non-confining sub-domains (boxes, also stacked or with a hole, cylinders, spheres) and entities in an interleaved order and builds the contained or the plain network; entity areas in their region, sub-domain volumes, indices and shared edges/faces are compared with independent geometry; non-trivial: a network was built";
void simWarmup() {}
using namespace wl;

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    const bool none = sim::chance(4); Scene s = randomScene(3, 6, 0, none); if (s.prims.empty() && !none) sim::discard("no entities"); describe(s); if (none) sim::probe("no-entities");
    const bool plain = sim::chance(35) && !none; int nconf = 0; for (char c : s.confining) nconf += c;
    sim::log("%zu domains (%d confining, union %d), %zu entities, %s", s.doms.size(), nconf, s.toUnion, s.prims.size(), plain ? "plain" : "contained");
    for (auto& d : s.doms) sim::log("domain %d vol %.6g", d.kind, d.volume());
    sim::state(sim::mix(s.doms.size() * 10 + nconf, s.prims.size() * 4 + s.toUnion * 2 + plain)); if (nconf) sim::probe("confining"); if (nconf < (int)s.doms.size() && s.toUnion) sim::probe("confined-to-union");
    if (plain) {
        Frackit::EntityNetworkBuilder<double> b; fill(b, s); mustNotThrow("build-throws", "build()", [&] { b.build(); });
        auto frags = fragsOf(b.network().entityFragments(), b.network().entityFragmentsIndexMap(), ~(std::size_t)0, "network");
        NetOracle o{ s.prims, [&](const Prim& p) { return s.region(p); }, [&](const Prim& p) { return s.count.size() == 1 ? p.pos : 0; }, s.S }; o.check(frags, "network");
    } else {
        Frackit::ContainedEntityNetworkBuilder<double> b; fill(b, s); mustNotThrow("build-throws", "build()", [&] { b.build(); });
        checkContained(b.network(), s);
    }
}
