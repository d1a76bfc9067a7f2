// P14: a build depends only on what was added since the last clear(), whatever happened before.
#include "netgen.hh"
#include <frackit/geometry/segment.hh>
const char* simRealComponents = "EntityNetworkBuilder, ContainedEntityNetworkBuilder, both network classes, getShape(), fuse(), default tolerances, OpenCASCADE boolean operations and maps";
const char* simStubComponents = "sub-domains and entities (chosen by the simulator), heap placement and failures of operator new";
const char* simRule = "a run is a history of additions (also inadmissible ones, also running out of memory), setting changes, builds (also running out of memory), repeated builds, clears and refills at other length scales; each successful build is compared with independent geometry for exactly the accepted content, each failure must surface and leave the content unchanged; non-trivial: a build was judged";
void simWarmup() {}
using namespace wl; using namespace Frackit;

template<class B> bool isContained() { return std::is_same_v<B, ContainedEntityNetworkBuilder<double>>; }
static void judge(const EntityNetwork& n, const Scene& s)
{
    auto frags = fragsOf(n.entityFragments(), n.entityFragmentsIndexMap(), ~(std::size_t)0, "network");
    NetOracle o{ s.prims, [&](const Prim& p) { return s.region(p); }, [&](const Prim& p) { return s.count.size() == 1 ? p.pos : 0; }, s.S }; o.check(frags, "network");
}
static void judge(const ContainedEntityNetwork& n, const Scene& s) { checkContained(n, s); }
static std::size_t fragCount(const EntityNetwork& n) { return n.entityFragments().Extent(); }
static std::size_t fragCount(const ContainedEntityNetwork& n) { std::size_t c = 0; for (auto id : n.subDomainIds()) c += n.subDomainEntityFragments(id).Extent() + 1000 * n.subDomainFragments(id).Extent(); return c; }

template<class B> void history()
{
    using Net = std::decay_t<decltype(std::declval<B&>().network())>; std::vector<std::pair<Net, Scene>> kept; // copies of earlier networks stay what they are
    B b; bool eps = false; const int phases = 1 + (int)sim::choose(3); bool mayFail = sim::chance(60);
    const bool extreme = phases > 1 && sim::chance(40); const int first = (int)sim::choose(2);
    for (int ph = 0; ph < phases; ++ph) {
        Scene full = randomScene(isContained<B>() ? 2 : sim::chance(50) ? 2 : 0, 4, !extreme ? 0 : (ph + first) % 2 ? 0.05 : 20000.0); Scene cur = full; cur.prims.clear(); cur.doms.clear(); cur.domId.clear(); cur.confining.clear(); cur.count.clear();
        b.setConfineToSubDomainUnion(full.toUnion);
        sim::log("phase %d: scale %.3g, %zu domains, %zu entities", ph, full.S, full.doms.size(), full.prims.size());
        std::vector<int> order; for (std::size_t i = 0; i < full.prims.size(); ++i) order.push_back((int)i);
        for (std::size_t i = 0; i < full.doms.size(); ++i) order.insert(order.begin() + sim::choose(order.size() + 1), -1 - (int)i);
        std::size_t next = 0; const int ops = (int)order.size() + (int)sim::choose(8); bool pendingBuild = true; std::size_t lastCount = 0; bool built = false;
        auto unchanged = [&] { if (built != b.isBuilt()) sim::violation("built-state", "isBuilt() is %d after a failed addition", (int)b.isBuilt()); };
        auto doBuild = [&] {
            if (cur.prims.empty() || (isContained<B>() && cur.doms.empty())) return; // what to do without entities is not specified
            sim::op(); if (eps) { if (sim::chance(50)) b.setDefaultEpsilon(); else b.setEpsilon(1e-7 * cur.S); }
            bool fail = mayFail && sim::chance(40); if (fail) sim::failAllocation(1 + sim::choose(200), 1);
            std::string err; const bool threw = throws([&] { b.build(); }, err); const bool hit = fail && sim::allocationFailed(); sim::failAllocation(0, 0);
            if (threw) {
                if (!hit) sim::violation("build-throws", "build() of %zu entities and %zu sub-domains threw: %s", cur.prims.size(), cur.doms.size(), err.c_str());
                sim::fault("build-out-of-memory"); sim::log("build: out of memory"); built = false;
                if (b.isBuilt()) sim::violation("built-after-failure", "isBuilt() after a build that failed with %s", err.c_str());
                if (!throws([&] { (void)b.network(); }, err)) sim::violation("network-after-failure", "network() delivers a network although the last build failed");
                mustNotThrow("retry-throws", "build() after a failed build", [&] { b.build(); });
                sim::probe("retried-build");
            }
            if (!b.isBuilt()) sim::violation("not-built", "isBuilt() is false after build()");
            built = true; judge(b.network(), cur); lastCount = fragCount(b.network()); pendingBuild = false;
            if (sim::chance(20) && kept.size() < 3) { kept.emplace_back(b.network(), cur); sim::probe("kept-network"); }
            sim::log("built: %zu fragments of %zu entities", lastCount, cur.prims.size());
            if (sim::chance(25)) { mustNotThrow("rebuild-throws", "a second build()", [&] { b.build(); }); judge(b.network(), cur); if (fragCount(b.network()) != lastCount) sim::violation("rebuild", "building again gives %zu fragments instead of %zu", fragCount(b.network()), lastCount); sim::probe("rebuilt"); }
            if (sim::chance(15)) { // a fresh builder
                B f; f.setConfineToSubDomainUnion(cur.toUnion); for (std::size_t i = 0; i < cur.doms.size(); ++i) cur.doms[i].addTo(f, cur.confining[i], cur.domId[i]); for (auto& p : cur.prims) addPrim(f, p);
                mustNotThrow("build-throws", "build() of a fresh builder", [&] { f.build(); }); if (fragCount(f.network()) != lastCount) sim::violation("history", "a fresh builder gives %zu fragments, this one %zu", fragCount(f.network()), lastCount); sim::probe("fresh-builder");
            }
        };
        if (!built) { std::string err; if (b.isBuilt()) sim::violation("built-state", "isBuilt() of an empty builder"); if (!throws([&] { (void)b.network(); }, err)) sim::violation("network-unbuilt", "network() of a builder that was not built"); }
        for (int i = 0; i < ops || next < order.size(); ++i) {
            switch (i > 60 ? 0 : sim::choose(8)) {
            case 4: doBuild(); break;
            case 5: { // inadmissible addition
                sim::op(); std::string err; const int what = (int)sim::choose(6); bool tried = true, threw = false; const std::size_t sd = cur.prims.empty() ? 1 : cur.prims[0].sd;
                if (what == 0 && !cur.doms.empty()) threw = throws([&] { full.doms[0].addTo(b, sim::chance(50), cur.domId[0]); }, err);
                else if (what == 1 && !cur.prims.empty()) threw = throws([&] { b.addSubDomainEntity(Segment<double, 3>(fp(cur.O), fp(cur.O + V3{ 1, 0, 0 })), Id(sd)); }, err);
                else if (what == 2 && (!cur.prims.empty() || !cur.doms.empty())) threw = throws([&] { b.addSubDomainEntity(Box<double>(0, 0, 0, 1, 1, 1), Id(sd)); }, err);
                else if (what == 3 && (!cur.prims.empty() || !cur.doms.empty())) threw = throws([&] { b.addSubDomain(FDisk(fp(cur.O), FDir(fv({ 1, 0, 0 })), FDir(fv({ 0, 1, 0 })), 1, 1), Id(77)); }, err);
                else if (what == 4) threw = throws([&] { b.addSubDomainEntity(BadGeometry(), Id(sim::chance(50) ? sd : 4242)); }, err);
                else if (what == 5 && cur.doms.empty()) { tried = false; }
                else tried = false;
                if (tried && !threw) sim::violation("accepted", "an inadmissible addition (kind %d) was accepted", what);
                if (tried) { sim::log("inadmissible addition %d: %s", what, err.c_str()); sim::probe("inadmissible"); unchanged(); }
                break; }
            case 6: { sim::op(); if (sim::chance(40)) { full.toUnion = cur.toUnion = !cur.toUnion; b.setConfineToSubDomainUnion(cur.toUnion); pendingBuild = true; sim::log("confine to union: %d", (int)cur.toUnion); sim::probe("confinement-changed"); break; } eps = true; if (sim::chance(50)) b.setEpsilon(1e-7 * full.S); else mustNotThrow("epsilon", "setDefaultEpsilon()", [&] { b.setDefaultEpsilon(); }); sim::log("epsilon set"); break; }
            default:
                if (next >= order.size()) break;
                sim::op(); const int k = order[next];
                const bool fail = mayFail && sim::chance(25); if (fail) sim::failAllocation(1 + sim::choose(12), 1);
                std::string err; const bool threw = throws([&] { if (k < 0) full.doms[-1 - k].addTo(b, full.confining[-1 - k], full.domId[-1 - k]); else addPrim(b, full.prims[k]); }, err);
                const bool hit = fail && sim::allocationFailed(); sim::failAllocation(0, 0);
                if (threw && !hit) sim::violation("add-throws", "adding %s threw: %s", k < 0 ? "a sub-domain" : "an entity", err.c_str());
                if (threw) { sim::fault("add-out-of-memory"); sim::log("add %d: out of memory", k); unchanged(); if (sim::chance(50)) ++next; break; } // given up or repeated
                ++next; pendingBuild = true; sim::log("add %d", k);
                if (k < 0) { const int d = -1 - k; cur.doms.push_back(full.doms[d]); cur.domId.push_back(full.domId[d]); cur.confining.push_back(full.confining[d]); }
                else { Prim p = full.prims[k]; p.pos = ++cur.count[p.sd]; cur.prims.push_back(p); }
            }
        }
        if (pendingBuild || sim::chance(30)) doBuild();
        sim::state(sim::mix(sim::mix(cur.doms.size(), cur.prims.size()), ph * 4 + eps * 2 + isContained<B>()));
        for (auto& k : kept) if (sim::chance(50)) judge(k.first, k.second);
        if (ph + 1 < phases) { b.clear(); sim::log("clear"); sim::probe("cleared"); if (b.isBuilt()) sim::violation("built-state", "isBuilt() after clear()"); }
    }
    for (auto& k : kept) judge(k.first, k.second);
}
void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    if (sim::chance(50)) history<EntityNetworkBuilder<double>>(); else history<ContainedEntityNetworkBuilder<double>>();
}
