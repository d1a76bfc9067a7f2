// P10: the answer of a constraint evaluation does not depend on how the entities are handed over.
#include "constraintmodel.hh"
const char* simRealComponents = "EntityNetworkConstraints in all call forms, applyOnGeometry(), assign(), geometry copies, intersections and distances with OpenCASCADE behind them";
const char* simStubComponents = "the entities (chosen by the simulator), heap placement and its failures";
const char* simRule = "a run evaluates random (sub)sets of disks and quadrilaterals in random call forms (values, base class pointers, vectors of either, both argument orders, set against set) under changing constraints and allocation failures; every answer must be the conjunction of the independently modelled pairs; non-trivial: at least one decided non-empty evaluation";
void simWarmup() {}
using namespace wl;
using C = Frackit::EntityNetworkConstraints<double>; using GP = std::shared_ptr<Frackit::Geometry>;

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    const double S = sim::chance(70) ? 1.0 : 30.0; const V3 O{ 0, 0, 0 };
    std::vector<Shape> pool; const int n = 3 + (int)sim::choose(8);
    for (int i = 0; i < n; ++i) { pool.push_back(randomShape(O, S * 1.2, 0.3 * S, 1.5 * S, (int)sim::choose(2))); if (i && sim::chance(20)) nudge(pool[i], pool[sim::choose(i)], S); }
    C c; CModel m; const int k0 = 1 + (int)sim::choose(4); for (int j = 0; j < k0; ++j) m.change(c, S);
    std::vector<std::vector<int>> cache(n, std::vector<int>(n, -2));
    auto pairModel = [&](int i, int j) { int& r = cache[i][j]; if (r == -2) r = m.pair(pool[i], pool[j]); return r; };
    // one side of an evaluation: indices plus a representation
    struct Side { std::vector<int> idx; int rep; }; // 0 value, 1 pointer, 2 vector of values, 3 vector of pointers
    const int ops = 4 + (int)sim::choose(20);
    for (int i = 0; i < ops; ++i) {
        sim::op();
        if (sim::chance(10)) { m.change(c, S); for (auto& r : cache) std::fill(r.begin(), r.end(), -2); sim::log("constraints:%s", m.describe().c_str()); continue; }
        auto side = [&] {
            Side s; s.rep = (int)sim::choose(4); int cnt = s.rep < 2 ? 1 : (int)sim::choose(5); const int kind = (int)sim::choose(2);
            for (int t = 0; t < 40 && (int)s.idx.size() < cnt; ++t) { int j = (int)sim::choose(n); if (s.rep != 2 || pool[j].kind == kind) s.idx.push_back(j); }
            if (s.rep < 2 && s.idx.empty()) s.idx.push_back(0);
            if (s.rep == 2 && s.idx.empty()) sim::probe("empty-set");
            return s;
        };
        Side a = side(), b = side();
        int want = 1; bool coplanar = false;
        for (int p : a.idx) for (int q : b.idx) {
            want = CModel::both(want, pairModel(p, q));
            if (onePlane(pool[p], pool[q], pairModel(p, q))) coplanar = true;
        }
        // a pair of an entity with itself or borderline pairs may be undecided (or not implemented)
        bool got = false; std::string err;
        auto ptr = [&](int j) -> GP { if (pool[j].kind == 0) return std::make_shared<FDisk>(pool[j].disk()); return std::make_shared<FQuad>(pool[j].quad()); };
        auto with = [&](const Side& s, auto&& f) {
            if (s.rep == 0) { if (pool[s.idx[0]].kind == 0) f(pool[s.idx[0]].disk()); else f(pool[s.idx[0]].quad()); }
            else if (s.rep == 1) f(ptr(s.idx[0]));
            else if (s.rep == 3) { std::vector<GP> v; for (int j : s.idx) v.push_back(ptr(j)); f(v); }
            else if (s.idx.empty() || pool[s.idx[0]].kind == 0) { std::vector<FDisk> v; for (int j : s.idx) v.push_back(pool[j].disk()); f(v); }
            else { std::vector<FQuad> v; for (int j : s.idx) v.push_back(pool[j].quad()); f(v); }
        };
        const bool alloc = sim::chance(15); bool threw = false, fired = false;
        with(a, [&](const auto& x) { with(b, [&](const auto& y) {
            if (alloc) sim::failAllocation(1 + sim::choose(60), 1);
            threw = throws([&] { got = c.evaluate(x, y); }, err);
            fired = alloc && sim::allocationFailed(); sim::failAllocation(0, 0);
        }); });
        if (fired) sim::fault("allocation-failure");
        if (threw) {
            if (fired) { if (err != "bad_alloc" && !coplanar) sim::violation("failure-changed", "an allocation failure surfaced as: %s", err.c_str()); sim::probe("evaluation-out-of-memory"); }
            else if (coplanar) sim::probe("coplanar-not-implemented");
            else sim::violation("evaluate-throws", "evaluation (forms %d/%d) threw: %s", a.rep, b.rep, err.c_str());
        } else if (want >= 0) {
            if (got != (want == 1)) sim::violation("form-dependent", "forms %d/%d with %zu x %zu entities answer %d, the pairs say %d [%s ]", a.rep, b.rep, a.idx.size(), b.idx.size(), got, want, m.describe().c_str());
            if (!a.idx.empty() && !b.idx.empty()) sim::probe(want ? "fulfilled" : "violated");
        } else sim::probe("borderline");
        sim::state(sim::mix(a.rep * 4 + b.rep, sim::mix(want + 1, threw)));
        sim::log("forms %d/%d, %zu x %zu -> %s", a.rep, b.rep, a.idx.size(), b.idx.size(), threw ? "threw" : want < 0 ? "borderline" : got ? "true" : "false");
    }
}
