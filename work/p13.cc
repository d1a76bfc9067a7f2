// P13: a built network is a conforming decomposition of its entities.
#include "network.hh"
const char* simRealComponents = "EntityNetworkBuilder, EntityNetwork, getShape(), default tolerances, OpenCASCADE boolean operations and maps";
const char* simStubComponents = "entities (chosen by the simulator), heap placement (decides the iteration order of the shape maps)";
const char* simRule = "a run adds entities of three geometry types to several sets in an interleaved order and builds; the fragments must conserve area, carry the index of exactly their primary entity and share edges exactly along the entities' intersections; non-trivial: at least one intersecting pair (probe)";
void simWarmup() {}
using namespace wl;

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    const double S = sim::chance(60) ? 1.0 : sim::chance(50) ? 200.0 : 0.02; const V3 O = sim::chance(60) ? V3{ 0, 0, 0 } : V3{ 15 * S, -4 * S, 30 * S };
    Arrangement a; a.S = S; const int n = 1 + (int)sim::choose(8); const double spread = S * sim::real(0.2, 1.2);
    for (int t = 0; t < 3 * n && (int)a.shapes.size() < n; ++t) a.tryAdd(randomShape(O, spread, 0.3 * S, S), {});
    const int nSets = sim::chance(60) ? 1 : 2 + (int)sim::choose(3); std::vector<std::size_t> ids{ 0 }; for (int i = 1; i < nSets; ++i) ids.push_back(7 * i + sim::choose(6)); if (nSets == 1 && sim::chance(40)) ids[0] = 3;
    std::vector<Prim> prims; std::map<std::size_t, int> count; int twins = sim::chance(15) ? 1 + (int)sim::choose(2) : 0;
    for (auto& s : a.shapes) { Prim p{ s, ids[sim::choose(nSets)], 0, {} }; p.asFace = sim::chance(twins ? 50 : 15); if (p.asFace) p.face = faceOf(s); prims.push_back(p); }
    if (prims.empty()) sim::discard("no entities");
    Frackit::EntityNetworkBuilder<double> b; if (sim::chance(15)) b.setEpsilon(1e-7 * S);
    if (sim::chance(20)) b.setConfineToSubDomainUnion(sim::chance(50));
    // the order of sets is interleaved; runs of one type in one set may be added at once
    for (std::size_t i = 0; i <= prims.size(); ++i) {
        // an entity once more, in the same or in another set, as a new geometry or as the same shape
        while (i && twins && sim::chance(40)) {
            --twins; sim::op(); Prim& p = prims[sim::choose(i)]; Prim t = p; t.twins.clear(); if (!p.asFace || sim::chance(30)) t.asFace = false;
            if (sim::chance(40)) t.sd = ids[sim::choose(nSets)];
            t.pos = ++count[t.sd]; p.twins.push_back({ t.sd, t.pos }); addPrim(b, t); sim::probe("twin"); sim::log("entity %d of set %zu once more: number %d of set %zu, %s", p.pos, p.sd, t.pos, t.sd, t.asFace ? "same shape" : "new shape");
        }
        if (i == prims.size()) break;
        sim::op(); Prim& p = prims[i]; p.pos = ++count[p.sd];
        if (sim::chance(30) && !p.asFace && p.s.kind == 0) {
            std::vector<FDisk> v; std::size_t j = i; while (j < prims.size() && prims[j].sd == p.sd && prims[j].s.kind == 0 && !prims[j].asFace) { if (j > i) prims[j].pos = ++count[p.sd]; v.push_back(prims[j++].s.disk()); }
            if (p.sd == 0 && sim::chance(50)) b.addEntities(v); else b.addSubDomainEntities(v, Frackit::Id(p.sd)); i = j - 1; continue;
        }
        if (p.sd == 0 && sim::chance(50)) { if (p.asFace) b.addEntity(p.face); else if (p.s.kind == 0) b.addEntity(p.s.disk()); else if (p.s.kind == 1) b.addEntity(p.s.quad()); else b.addEntity(p.s.poly()); }
        else addPrim(b, p);
    }
    const int builds = 1 + (int)sim::choose(2);
    for (int k = 0; k < builds; ++k) {
        mustNotThrow("build-throws", "build()", [&] { b.build(); });
        const auto& net = b.network();
        if (net.entityDimension() != 2) sim::violation("dimension", "the network of planar entities has entity dimension %d", net.entityDimension());
        auto frags = fragsOf(net.entityFragments(), net.entityFragmentsIndexMap(), ~(std::size_t)0, "network");
        NetOracle o{ prims, [](const Prim&) { return Region{}; }, [&](const Prim& p) { return count.size() == 1 ? p.pos : 0; }, S };
        o.check(frags, "network");
        sim::log("%zu entities in %zu sets: %zu fragments", prims.size(), count.size(), frags.size()); sim::state(sim::mix(prims.size(), frags.size()));
        if (prims.size() == 1) sim::probe("single-entity"); if (count.size() > 1) sim::probe("several-sets");
    }
}
