// P09: an entity is accepted exactly if it fulfils all active constraints against all accepted entities.
#include "constraintmodel.hh"
#include "linenet.hh"
const char* simRealComponents = "EntityNetworkConstraints, IntersectionAngle, intersect(), computeDistance(), computeDistanceToBoundary(), computeMagnitude() with OpenCASCADE behind them, Disk, Quadrilateral, Polygon";
const char* simStubComponents = "the entity samplers (candidates are chosen by the simulator), heap placement";
const char* simRule = "a run is an accept/reject history: candidates of three geometry types (or segments) are offered to a growing network under constraints that are changed, dropped and copied meanwhile; every decision is compared with an independent model wherever that is not borderline; non-trivial: at least one decided pair with an intersection or an active distance constraint";
void simWarmup() {}
using namespace wl;
using C = Frackit::EntityNetworkConstraints<double>;

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    if (sim::chance(12)) { lineConstraints(); return; }
    const double S = sim::chance(70) ? 1.0 : sim::chance(50) ? 50.0 : 0.1; const V3 O = sim::chance(60) ? V3{ 0, 0, 0 } : V3{ 20 * S, -7 * S, 3 * S };
    std::vector<Shape> acc; std::vector<FDisk> disks; std::vector<FQuad> quads; std::vector<FPoly> polys; std::vector<Shape> sd, sq, sp;
    C c; CModel m; bool changed = false; const int cornered = 1 + (int)sim::choose(2);
    const int ops = 4 + (int)sim::choose(26); const double spread = S * sim::real(0.5, 2.0);
    for (int i = 0; i < ops; ++i) {
        sim::op();
        if (i < 2 || sim::chance(12)) { const int k = 1 + (int)sim::choose(3); for (int j = 0; j < k; ++j) m.change(c, S); changed = changed || !acc.empty(); sim::log("constraints:%s", m.describe().c_str()); continue; }
        if (sim::chance(5)) { C copy(c); C other; other.setMinDistance(1e9); c = other; c = copy; sim::probe("copied-constraints"); }
        // quadrilaterals and polygons cannot be intersected with each other
        Shape s = randomShape(O, spread, 0.3 * S, 1.5 * S, sim::chance(50) ? cornered : 0);
        if (!acc.empty() && sim::chance(20)) { nudge(s, acc[sim::choose(acc.size())], S); sim::probe("plane-near-corner"); }
        int on = -1; Contact contact; // rests on an accepted one with a corner or an edge
        if (on < 0 && !acc.empty() && s.kind && sim::chance(12)) {
            on = (int)sim::choose(acc.size()); const Shape& o = acc[on];
            if (o.kind && o.kind != s.kind) on = -1;
            else { const V2 q{ sim::real(-0.5, 0.5) * o.R, sim::real(-0.5, 0.5) * o.R }; contact = rest(s, o.at(q), sim::chance(50) ? o.n : -1.0 * o.n, sim::chance(40), 0.25); }
        }
        auto pairOf = [&](const Shape& o) { return on >= 0 && norm(o.c - acc[on].c) == 0 && o.kind == acc[on].kind ? m.contact(o, contact, o.R + s.R) : m.pair(o, s); };
        auto decide = [&](const auto& set, const std::vector<Shape>& shapes, const auto& g) -> int {
            // model over the whole set
            int want = 1; for (auto& o : shapes) want = CModel::both(want, pairOf(o));
            bool got = false; const int form = (int)sim::choose(3);
            std::string err;
            const bool threw = throws([&] {
                if (form == 0) got = c.evaluate(set, g);
                else if (form == 1) got = c.evaluate(g, set);
                else { got = true; for (auto& e : set) got = got && c.evaluate(e, g); }
            }, err);
            if (threw) { // surface intersections of coplanar entities are documented as not implemented
                bool coplanar = false; for (auto& o : shapes) coplanar = coplanar || onePlane(o, s, m.pair(o, s));
                if (!coplanar) sim::violation("evaluate-throws", "evaluating constraints threw: %s", err.c_str());
                sim::probe("coplanar-not-implemented"); return 0;
            }
            for (size_t k = 0; k < shapes.size(); ++k) {
                const int w = pairOf(shapes[k]); if (on >= 0 && norm(shapes[k].c - acc[on].c) == 0 && w >= 0) sim::probe(contact.edge ? w ? "resting-edge-accepted" : "resting-edge-rejected" : w ? "resting-corner-accepted" : "resting-corner-rejected"); if (w < 0) { sim::probe("borderline-pair"); continue; }
                const Meet mt = meet(shapes[k], s); sim::probe(mt.state == 1 ? (w ? "intersecting-accepted" : "intersecting-rejected") : w ? "apart-accepted" : "apart-rejected");
                sim::state(sim::mix(shapes[k].kind * 3 + s.kind, sim::mix(mt.state, w + 2 * (m.minDist ? 1 : 0) + 4 * (m.minAngle ? 1 : 0) + 8 * (m.minMag ? 1 : 0) + 16 * (m.minIsDist ? 1 : 0))));
                if (!w && got) sim::violation("accepted-violating", "%s and %s violate [%s ] but were accepted (intersection length %.9g angle %.9g)", shapes[k].describe().c_str(), s.describe().c_str(), m.describe().c_str(), mt.length, mt.angle);
            }
            if (want == 1 && !got) sim::violation("rejected-fulfilling", "%s fulfils [%s ] against all %zu entities of the set but was rejected", s.describe().c_str(), m.describe().c_str(), shapes.size());
            return got;
        };
        auto all = [&](const auto& g) {
            using T = std::decay_t<decltype(g)>; bool r = decide(disks, sd, g);
            if constexpr (!std::is_same_v<T, FPoly>) r = r && decide(quads, sq, g);
            if constexpr (!std::is_same_v<T, FQuad>) r = r && decide(polys, sp, g);
            return r;
        };
        bool ok; if (s.kind == 0) ok = all(s.disk()); else if (s.kind == 1) ok = all(s.quad()); else ok = all(s.poly());
        sim::log("%s -> %s", s.describe().c_str(), ok ? "accepted" : "rejected");
        if (ok) { if (s.kind == 0) { disks.push_back(s.disk()); sd.push_back(s); } else if (s.kind == 1) { quads.push_back(s.quad()); sq.push_back(s); } else { polys.push_back(s.poly()); sp.push_back(s); } acc.push_back(s); }
    }
}
