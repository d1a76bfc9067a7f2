// P12: a multi-geometry entity set is a map from ids to typed lists, exported completely and in order.
#include "constraintmodel.hh"
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <map>
const char* simRealComponents = "MultiGeometryEntitySet, assign(), geometryName(), Disk, Quadrilateral, Polygon";
const char* simStubComponents = "network builders (recorders behind the builder interface, may fail), heap placement and its failures";
const char* simRule = "a run is a history of adding entities as values or base class pointers under various ids (also of the wrong type, also running out of memory), applying functions and exporting to builders; contents are compared with a map model after every step; non-trivial: an entity was added";
void simWarmup() {}
using namespace wl; using namespace Frackit;
using Sets = MultiGeometryEntitySet<FDisk, FQuad, FPoly>;
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
static int idOf(const FDisk& d) { return (int)std::lround(d.center().x()); }
static int idOf(const FQuad& q) { return (int)std::lround(q.corner(0).x()); }
static int idOf(const FPoly& q) { return (int)std::lround(q.corner(0).x()); }
struct Rec {
    std::vector<std::pair<std::size_t, std::vector<int>>> lists; long failAt = -1;
    template<class V> void add(const V& v, std::size_t sd) { if (failAt == 0) throw Boom(); if (failAt > 0) --failAt; std::vector<int> l; for (auto& g : v) l.push_back(idOf(g)); lists.push_back({ sd, l }); }
    template<class V> void addSubDomainEntities(const V& v, const Id& id) { add(v, id.get()); }
    template<class V> void addEntities(const V& v) { add(v, 0); }
    template<class G> void addSubDomainEntity(const G& g, const Id& id) { add(std::vector<G>{ g }, id.get()); }
    template<class G> void addEntity(const G& g) { add(std::vector<G>{ g }, 0); }
};
struct Model { int kind = -1; std::vector<int> nums; };

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    Sets sets; std::map<std::size_t, Model> m; int num = 1; std::vector<std::size_t> ids; const int nIds = 1 + (int)sim::choose(7);
    ids = distinctIds(nIds);
    const int ops = 5 + (int)sim::choose(80);
    auto shape = [&](int kind, int n) { Shape s; s.kind = kind; s.c = { (double)n, 0, 0 }; s.e1 = { 1, 0, 0 }; s.e2 = { 0, 1, 0 }; s.n = { 0, 0, 1 }; s.a = s.b = 0.25; s.pts = { { 0, 0 }, { 0.3, 0 }, { 0.3, 0.3 }, { 0, 0.3 } }; return s; };
    auto sorted = [](const Rec& r) { std::vector<std::pair<std::size_t, std::vector<int>>> v; for (auto& l : r.lists) if (!l.second.empty()) v.push_back(l); std::sort(v.begin(), v.end()); return v; };
    // lists of one builder call never mix sets, but one set may come in several calls: compare per set by first element
    auto checkExport = [&](const Rec& r, const std::vector<std::size_t>& which, std::size_t sd) {
        std::map<int, std::size_t> owner; for (auto& p : m) for (int n : p.second.nums) owner[n] = p.first;
        std::map<std::size_t, std::vector<int>> got;
        for (auto& l : r.lists) { if (l.first != sd) sim::violation("export-subdomain", "entities were exported to sub-domain %zu instead of %zu", l.first, sd); for (int n : l.second) { if (!owner.count(n)) sim::violation("export-unknown", "entity %d was exported but never added", n); got[owner[n]].push_back(n); } }
        for (auto& p : m) {
            const bool wanted = std::count(which.begin(), which.end(), p.first) > 0; auto& g = got[p.first];
            if (wanted && g != p.second.nums) sim::violation("export", "set %zu has %zu entities, %zu were exported or in another order", p.first, p.second.nums.size(), g.size());
            if (!wanted && !g.empty()) sim::violation("export-extra", "set %zu was exported without being asked for", p.first);
        }
    };
    for (int i = 0; i < ops; ++i) {
        sim::op(); const auto what = sim::choose(12); const std::size_t id = ids[sim::choose(ids.size())];
        if (m.empty() || what < 7) {
            Model* cur = m.count(id) ? &m[id] : nullptr; const bool wrong = cur && sim::chance(15); int kind = cur ? cur->kind : (int)sim::choose(3); if (wrong) kind = (kind + 1 + (int)sim::choose(2)) % 3;
            const int n = num++; Shape s = shape(kind, n); const bool ptr = sim::chance(40);
            auto add = [&](Shape& q) {
                if (ptr) { std::shared_ptr<Geometry> g; if (kind == 0) g = std::make_shared<FDisk>(q.disk()); else if (kind == 1) g = std::make_shared<FQuad>(q.quad()); else g = std::make_shared<FPoly>(q.poly()); sets.addEntity(g, Id(id)); }
                else if (kind == 0) sets.addEntity(q.disk(), Id(id)); else if (kind == 1) sets.addEntity(q.quad(), Id(id)); else sets.addEntity(q.poly(), Id(id));
            };
            const bool alloc = sim::chance(20); if (alloc) sim::failAllocation(1 + sim::choose(16), 1);
            std::string err; const bool threw = throws([&] { add(s); }, err); const bool fired = alloc && sim::allocationFailed(); sim::failAllocation(0, 0);
            if (fired) sim::fault("allocation-failure");
            if (wrong) { if (!threw) sim::violation("wrong-type", "an entity of another type was added to set %zu", id); sim::probe("wrong-type-rejected"); }
            else if (threw) {
                if (!fired) sim::violation("add-throws", "adding an entity to set %zu threw: %s", id, err.c_str());
                sim::probe("add-failed"); // nothing changed; a later entity may be the first of this set, of any type
                if (sim::chance(70)) { const int n2 = num++; Shape t = shape(kind, n2); mustNotThrow("add-after-failure", "adding an entity after an allocation failure", [&] { add(t); }); auto& e = m[id]; e.kind = kind; e.nums.push_back(n2); }
            } else { auto& e = m[id]; e.kind = kind; e.nums.push_back(n); sim::probe("added"); }
            sim::log("add type %d to set %zu%s", kind, id, threw ? ": failed" : "");
        } else if (what < 9) {
            // export of everything, or of a list of sets
            Rec r; const bool fail = sim::chance(15); if (fail) r.failAt = (long)sim::choose(3);
            std::vector<std::size_t> which; for (auto& p : m) which.push_back(p.first); const std::size_t sd = sim::choose(4); std::string err; bool threw; std::size_t wantSd = sd;
            const auto form = sim::choose(3);
            if (form == 0) threw = throws([&] { sets.exportEntitySets(r, Id(sd)); }, err);
            else if (form == 1) { wantSd = 0; threw = throws([&] { sets.exportEntitySets(r); }, err); }
            else {
                const std::size_t a = ids[sim::choose(ids.size())], b = ids[sim::choose(ids.size())]; which = { a }; if (sim::chance(60)) which.push_back(b);
                threw = throws([&] { if (which.size() == 1) sets.exportEntitySets({ Id(a) }, r, Id(sd)); else sets.exportEntitySets({ Id(a), Id(b) }, r, Id(sd)); }, err);
            }
            if (threw) { if (!fail || err != "std: boom") sim::violation("export-throws", "export threw: %s", err.c_str()); sim::fault("builder-failure"); continue; }
            checkExport(r, which, wantSd); sim::probe("exported"); sim::log("export form %d: %zu lists", (int)form, r.lists.size());
        } else if (what == 9) { Sets c(sets); Sets d; d = c; sets = d; sim::probe("copied"); }
        else {
            const bool boom = sim::chance(15); std::vector<int> l; int calls = 0; std::string err; bool r = false;
            const bool threw = throws([&] { r = sets.applyOnSet(Id(id), [&](const auto& v) { ++calls; if (boom) throw Boom(); for (auto& g : v) l.push_back(idOf(g)); }); }, err);
            const bool has = m.count(id) > 0;
            if (boom && has) { if (!threw || err != "std: boom") sim::violation("failure-changed", "a failing function went unnoticed"); sim::fault("function-failure"); continue; }
            if (threw) sim::violation("apply-throws", "applyOnSet threw: %s", err.c_str());
            if (r != has || calls != (int)has) sim::violation("apply", "applyOnSet on set %zu answers %d after %d calls; the set %s", id, r, calls, has ? "exists" : "does not exist");
            if (has && l != m[id].nums) sim::violation("content", "set %zu holds other entities than were added", id);
            sim::log("apply on %zu: %zu entities", id, l.size());
        }
        // invariants
        std::size_t total = 0; for (auto x : ids) { const std::size_t want = m.count(x) ? m[x].nums.size() : 0, got = sets.numEntities(Id(x)); if (want != got) sim::violation("count", "set %zu reports %zu entities, %zu were added", x, got, want); total += want; }
        if (sets.numEntities() != total) sim::violation("total", "total is %zu, %zu were added", sets.numEntities(), total);
        sim::state(sim::mix(m.size(), std::min<std::size_t>(total, 20)));
    }
}
