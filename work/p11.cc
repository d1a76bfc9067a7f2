// P11: a constraints matrix is the conjunction of its relations.
#include "constraintmodel.hh"
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/entitynetwork/constraintsmatrix.hh>
#include <map>
#include <set>
const char* simRealComponents = "EntityNetworkConstraintsMatrix, MultiGeometryEntitySet, Id/IdPair; in half of the runs EntityNetworkConstraints with all geometry behind it";
const char* simStubComponents = "candidate entities; in the other half of the runs tagged stub constraints that record every call; heap placement and its failures";
const char* simRule = "a run is a generation history: constraints are added for single and listed relations (also repeated ones, also running out of memory), candidates are evaluated against growing sets and accepted; every decision is compared with a relation model and the accepted network is re-checked at the end; non-trivial: a candidate was decided against a non-empty related set";
void simWarmup() {}
using namespace wl; using namespace Frackit;
using Sets = MultiGeometryEntitySet<FDisk, FQuad>;

// stub constraints: fulfilled unless the hash of (tag, set entity, candidate) says otherwise
static int rejectPct = 20; static bool stubBoom = false;
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
static int idOf(const FDisk& d) { return (int)std::lround(d.center().x()); }
static int idOf(const FQuad& q) { return (int)std::lround(q.corner(0).x()); }
static int idOf(const std::shared_ptr<Geometry>& g) { if (auto p = dynamic_cast<FDisk*>(g.get())) return idOf(*p); return idOf(*dynamic_cast<FQuad*>(g.get())); }
static bool stubPair(int tag, int e, int cand) { return sim::mix(sim::mix(tag, e), cand) % 100 >= (uint64_t)rejectPct; }
struct StubC {
    int tag;
    template<class G, class E> bool evaluate(const std::vector<G>& set, const E& e) const { if (stubBoom) throw Boom(); for (auto& g : set) if (!stubPair(tag, idOf(g), idOf(e))) return false; return true; }
    template<class G, class E> bool evaluate(const E& e, const std::vector<G>& set) const { return evaluate(set, e); }
    template<class A, class B> bool evaluate(const A& a, const B& b) const { if (stubBoom) throw Boom(); return stubPair(tag, idOf(a), idOf(b)); }
};

struct Ent { int num; Shape s; int set; };
struct Con { int tag; CModel m; };

template<class C, class MakeC, class PairModel>
void scenario(MakeC makeC, PairModel pm, bool real, double S)
{
    EntityNetworkConstraintsMatrix<C> M; Sets sets; const int nIds = 1 + (int)sim::choose(5);
    const std::vector<std::size_t> ids = distinctIds(nIds);
    std::vector<int> kind; for (int i = 0; i < nIds; ++i) kind.push_back((int)sim::choose(2));
    std::map<std::pair<int, int>, int> rel; std::vector<Con> cons; std::vector<Ent> acc; std::vector<std::pair<int,int>> accRelOrder; int num = 1;
    const int ops = 5 + (int)sim::choose(real ? 25 : 60);
    for (int i = 0; i < ops; ++i) {
        sim::op();
        if (rel.empty() || sim::chance(20)) {
            std::vector<std::pair<int, int>> ps; const int k = 1 + (int)sim::choose(4); for (int j = 0; j < k; ++j) ps.push_back({ (int)sim::choose(nIds), (int)sim::choose(nIds) });
            bool dup = false; std::set<std::pair<int, int>> seen; for (auto& p : ps) { dup = dup || rel.count(p) || seen.count(p); seen.insert(p); }
            const int tag = (int)cons.size(); CModel m; C c = makeC(tag, m);
            auto ip = [&](int j) { return IdPair(Id(ids[ps[j].first]), Id(ids[ps[j].second])); };
            auto add = [&] {
                if (ps.size() == 1 && sim::chance(0)) return;
                switch (ps.size()) {
                    case 1: M.addConstraints(c, ip(0)); break;
                    case 2: M.addConstraints(c, { ip(0), ip(1) }); break;
                    case 3: M.addConstraints(c, { ip(0), ip(1), ip(2) }); break;
                    default: M.addConstraints(c, { ip(0), ip(1), ip(2), ip(3) });
                }
            };
            std::string err; const bool alloc = !dup && ps.size() == 1 && sim::chance(15); if (alloc) sim::failAllocation(1 + sim::choose(8), 1);
            bool threw = throws(add, err); const bool fired = alloc && sim::allocationFailed(); sim::failAllocation(0, 0);
            if (dup) { if (!threw) sim::violation("duplicate-relation", "a relation that exists already was accepted"); sim::probe("duplicate-rejected"); sim::log("add %zu relations: rejected", ps.size()); continue; }
            if (threw && fired) { sim::fault("allocation-failure"); mustNotThrow("retry", "adding constraints again after an allocation failure", add); sim::probe("retried"); }
            else if (threw) sim::violation("add-throws", "adding %zu new relations threw: %s", ps.size(), err.c_str());
            cons.push_back({ tag, m }); for (auto& p : ps) rel[p] = tag;
            sim::log("constraint %d for %zu relations", tag, ps.size()); continue;
        }
        const int x = (int)sim::choose(nIds); Ent e; e.num = num++; e.set = x;
        if (real) e.s = randomShape({ 0, 0, 0 }, S, 0.3 * S, 1.4 * S, kind[x]);
        else { e.s.kind = kind[x]; e.s.c = { (double)e.num, 0, 0 }; e.s.e1 = { 1, 0, 0 }; e.s.e2 = { 0, 1, 0 }; e.s.n = { 0, 0, 1 }; e.s.a = e.s.b = 0.25; e.s.pts = { { 0, 0 }, { 0.3, 0 }, { 0.3, 0.3 }, { 0, 0.3 } }; }
        bool hasRel = false; int want = 1; size_t related = 0; bool coplanar = false;
        for (auto& r : rel) if (r.first.first == x) { hasRel = true; for (auto& a : acc) if (a.set == r.first.second) { ++related; const int w = pm(cons[r.second], a, e); want = CModel::both(want, w); if (real && onePlane(a.s, e.s, w)) coplanar = true; } }
        bool boom = !real && related && sim::chance(5); stubBoom = boom;
        bool got = false; std::string err; const bool asPtr = sim::chance(30);
        auto withG = [&](auto&& f) {
            if (asPtr) { std::shared_ptr<Geometry> g; if (e.s.kind == 0) g = std::make_shared<FDisk>(e.s.disk()); else g = std::make_shared<FQuad>(e.s.quad()); f(g); }
            else if (e.s.kind == 0) f(e.s.disk()); else f(e.s.quad());
        };
        bool threw = false; withG([&](const auto& g) { threw = throws([&] { got = M.evaluate(sets, g, Id(ids[x])); }, err); }); stubBoom = false;
        if (boom) { sim::fault("constraint-failure"); if (!threw || err != "std: boom") sim::violation("failure-changed", "a failing constraint surfaced as: %s", threw ? err.c_str() : "an answer"); continue; }
        if (!hasRel) { if (!threw) sim::violation("no-relation", "an id without constraints was evaluated"); sim::probe("no-relation-reported"); if (!sim::chance(50)) continue; got = true; }
        else if (threw) { if (coplanar) continue; sim::violation("evaluate-throws", "evaluation threw: %s", err.c_str()); }
        else if (want >= 0 && got != (want == 1)) sim::violation("decision", "candidate %d for set %zu: matrix says %d, relations say %d (%zu related entities)", e.num, ids[x], got, want, related);
        if (related) sim::probe(want < 0 ? "borderline" : want ? "accepted" : "rejected");
        sim::state(sim::mix(sim::mix(rel.size(), acc.size()), sim::mix(want + 1, related)));
        sim::log("candidate %d for set %zu: %s (%zu related)", e.num, ids[x], got ? "accepted" : "rejected", related);
        if (got) { mustNotThrow("add-entity", "adding an accepted entity", [&] { withG([&](const auto& g) { sets.addEntity(g, Id(ids[x])); }); }); acc.push_back(e); }
    }
}

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    if (sim::choose(2) == 0) {
        rejectPct = 1 + (int)sim::choose(40);
        scenario<StubC>([](int tag, CModel&) { return StubC{ tag }; }, [](const Con& c, const Ent& a, const Ent& e) { return (int)stubPair(c.tag, a.num, e.num); }, false, 1);
    } else {
        scenario<EntityNetworkConstraints<double>>([](int, CModel& m) { EntityNetworkConstraints<double> c; for (int k = 0; k < 2; ++k) m.change(c, 1.0); return c; },
            [](const Con& c, const Ent& a, const Ent& e) { return c.m.pair(a.s, e.s); }, true, 1.5);
    }
}
