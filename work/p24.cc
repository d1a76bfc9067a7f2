// P24: the constraints hold against curved surfaces and face shapes as they do among plain entities.
#include "curved.hh"
#include "flatfaces.hh"
const char* simRealComponents = "EntityNetworkConstraints on cylinder surfaces and face shapes, intersect_cylinderSurface_planarGeometry(), intersect_face_face_3d(), IntersectionAngle, computeDistance(), computeDistanceToBoundary(), with OpenCASCADE behind them";
const char* simStubComponents = "the entity samplers (candidates are chosen by the simulator), heap placement and its failures";
const char* simRule = "a run is an accept/reject history inside a cylindrical domain: candidates are decided against the lateral surface (as geometry and as face shape), against sets of planar (also non-convex, with holes) and curved face shapes and against the accepted entities, in every form, while constraints change, are copied, and allocations fail; every decision is compared with an independent model wherever that is clear of rounding";
void simWarmup() {}
using namespace wl;
using C = Frackit::EntityNetworkConstraints<double>;

// rectilinear face shapes: intersections in several parts, of several dimensions
static void flatFaces()
{
    Grid g; g.S = sim::chance(70) ? 1.0 : sim::chance(50) ? 40.0 : 0.2; const double S = g.S; const V3 w = sim::chance(30) ? V3{ 0, 0, 1 } : randUnit(); g.z = w; g.x = w.z == 1 ? V3{ 1, 0, 0 } : rot(anyOrtho(w), w, sim::real(0, 6)); g.y = cross(g.z, g.x); g.o = sim::chance(50) ? V3{ 0, 0, 0 } : V3{ 15 * S, -7 * S, 3 * S };
    C c; CModel m; bool allowed = sim::chance(40); if (allowed) c.allowEquiDimensionalIntersections(true);
    auto change = [&] {
        switch (sim::choose(4)) {
            case 0: if (sim::chance(70)) { m.minMag = sim::chance(50) ? S * sim::real(0.1, 1.5) : S * S * sim::real(0.1, 4); c.setMinIntersectionMagnitude(*m.minMag); } else { m.minMag.reset(); c.neglectMinIntersectionMagnitude(); } break;
            case 1: if (sim::chance(70)) { m.minDist = S * sim::real(0.1, 1.5); c.setMinDistance(*m.minDist); } else { m.minDist.reset(); c.neglectMinDistance(); } break;
            case 2: if (sim::chance(40)) { m.minAngle = sim::real(0.1, 1.5); c.setMinIntersectingAngle(*m.minAngle); } else { m.minAngle.reset(); c.neglectMinIntersectionAngle(); } break;
            default: if (sim::chance(50)) c.setIntersectionEpsilon(1e-7 * S); else c.setDefaultIntersectionEpsilon(); break;
        }
    };
    const int k0 = 1 + (int)sim::choose(3); for (int i = 0; i < k0; ++i) change();
    std::vector<Flat> acc; std::vector<TopoDS_Face> faces; const int ops = 4 + (int)sim::choose(8);
    for (int i = 0; i < ops; ++i) {
        sim::op(); if (sim::chance(20)) { change(); sim::log("constraints:%s", m.describe().c_str()); }
        if (sim::chance(5)) { allowed = !allowed; c.allowEquiDimensionalIntersections(allowed); }
        if (sim::chance(5)) { C copy(c); C other; other.setMinDistance(1e9); c = other; c = copy; }
        Flat f; f.cells = randomCells(); f.axis = sim::chance(65) ? 2 : 0;
        auto sh = [](int range) { return 10 * ((int)sim::choose(2 * range + 1) - range); };
        if (f.axis == 2) { f.off = sim::chance(75) ? 0 : sim::chance(50) ? 7 : -20; const int far = sim::chance(20) ? 4 : 2; f.s0 = sh(far) + (sim::chance(40) ? 3 : 0); f.s1 = sh(far) + (sim::chance(40) ? 3 : 0); }
        else { f.off = 5 + 10 * ((int)sim::choose(5) - 1) + (sim::chance(20) ? 2 : 0); f.s0 = 6 + sh(2); f.s1 = 5 - 10 * (int)sim::choose(4); }
        const TopoDS_Face shape = g.face(f); const bool many = sim::chance(50); const size_t one = acc.empty() ? 0 : sim::choose(acc.size()); const int order = (int)sim::choose(2);
        int want = 1; std::string why;
        for (size_t k = 0; k < acc.size(); ++k) if (many || k == one) {
            const FlatMeet mt = meet(acc[k], f); const int w = decide(m, acc[k], f, mt, S, allowed); want = CModel::both(want, w); if (w == 0) why = acc[k].describe();
            sim::state(sim::mix(4711 + mt.touchEdge + 2 * mt.touchPoint + 4 * mt.perpendicular + 8 * std::min<size_t>(3, mt.areas.size()) + 32 * std::min<size_t>(3, mt.runs.size()), w + 2 + 8 * allowed));
            if (w >= 0) sim::probe(mt.areas.size() && mt.touchEdge ? "area-and-edge" : mt.areas.size() > 1 ? "several-areas" : mt.runs.size() > 1 ? "several-runs" : mt.touchEdge ? "touching-faces" : "other-flat");
        }
        bool got = true; std::string err; const bool alloc = sim::chance(10); bool fired = false;
        if (alloc) sim::failAllocation(1 + sim::choose(200), 1);
        const bool threw = throws([&] { if (acc.empty()) return; if (many) got = order ? c.evaluate(faces, shape) : c.evaluate(shape, faces); else got = order ? c.evaluate(faces[one], shape) : c.evaluate(shape, faces[one]); }, err);
        fired = alloc && sim::allocationFailed(); sim::failAllocation(0, 0); if (fired) sim::fault("allocation-failure");
        sim::log("flat %s against %s: %s", f.describe().c_str(), many ? "all" : "one", threw ? err.c_str() : got ? "accepted" : "rejected");
        if (threw) { if (fired) continue; sim::violation("evaluate-throws", "evaluating [%s ] for %s threw: %s", m.describe().c_str(), f.describe().c_str(), err.c_str()); }
        if (!fired && want >= 0 && got != (want == 1)) sim::violation(got ? "accepted-violating" : "rejected-fulfilling", "the face shape %s was %s against %s, the constraints [%s ]%s say otherwise (%s)", f.describe().c_str(), got ? "accepted" : "rejected", many ? "all" : acc[one].describe().c_str(), m.describe().c_str(), allowed ? " with equi-dimensional intersections" : "", why.c_str());
        if (acc.size() < 4 && (got || sim::chance(30))) { acc.push_back(f); faces.push_back(shape); }
    }
}

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    if (sim::chance(25)) { flatFaces(); return; }
    const double S = sim::chance(70) ? 1.0 : sim::chance(50) ? 40.0 : 0.2; const V3 O = sim::chance(60) ? V3{ 0, 0, 0 } : V3{ 15 * S, -7 * S, 3 * S };
    C c; CModel m; bool allowed = false; const int k0 = 1 + (int)sim::choose(3);
    auto change = [&] { m.change(c, S); if (m.minMag && sim::chance(15)) { m.minMag = S * sim::real(1, 12); c.setMinIntersectionMagnitude(*m.minMag); } }; // also as long as closed curves
    for (int i = 0; i < k0; ++i) change();
    std::vector<Lateral> lats; const int nl = 1 + (int)sim::choose(2); for (int i = 0; i < nl; ++i) lats.push_back(randomLateral(O + V3{ i * 0.4 * S, 0, 0 }, S));
    std::vector<TopoDS_Face> latFaces; std::vector<Frackit::CylinderSurface<double>> surfs; for (auto& l : lats) { latFaces.push_back(l.face()); surfs.push_back(l.surface()); }
    std::vector<Shape> acc; std::vector<TopoDS_Face> accFaces; // accepted entities as face shapes
    auto faceOf = [](const Shape& s) -> TopoDS_Face { using Frackit::OCCUtilities::getShape; return s.kind == 0 ? getShape(s.disk()) : s.kind == 1 ? getShape(s.quad()) : getShape(s.poly()); };
    const int ops = 3 + (int)sim::choose(12);
    for (int i = 0; i < ops; ++i) {
        sim::op();
        if (sim::chance(15)) { const int k = 1 + (int)sim::choose(3); for (int j = 0; j < k; ++j) change(); sim::log("constraints:%s", m.describe().c_str()); continue; }
        if (sim::chance(5)) { C copy(c); C other; other.setMinDistance(1e9); c = other; c = copy; sim::probe("copied-constraints"); }
        if (sim::chance(4)) { allowed = !allowed; c.allowEquiDimensionalIntersections(allowed); sim::log("equi-dimensional intersections %s", allowed ? "allowed" : "denied"); }
        Shape s = randomShape(O, 1.2 * S, 0.2 * S, 1.3 * S);
        const Lateral& L = lats[sim::choose(nl)];
        auto turn = [&](V3 n) { s.n = unit(n); s.e1 = anyOrtho(s.n); s.e1 = unit(rot(s.e1, s.n, sim::real(0, 6))); s.e2 = cross(s.n, s.e1); };
        switch (sim::choose(6)) { case 0: turn(L.w); break; case 1: turn(rot(L.u, L.w, sim::real(0, 6))); break; case 2: turn(L.w + sim::real(-0.8, 0.8) * L.u); break; default: break; }
        if (sim::chance(40)) s.c = L.c + sim::real(-0.1, 1.1) * L.h * L.w + sim::real(0, 1.3) * L.r * rot(L.u, L.w, sim::real(0, 6));
        if (sim::chance(10)) { // the plane cuts the whole way round
            s.kind = (int)sim::choose(2); s.c = L.c + sim::real(0.35, 0.65) * L.h * L.w; turn(rot(L.w, rot(L.u, L.w, sim::real(0, 6)), sim::real(0, 1.15))); s.pts.clear();
            s.R = L.r * sim::real(1.2, 4); s.a = s.R; s.b = s.R * sim::real(0.6, 1); if (s.kind == 1) { const double q = s.R / std::sqrt(2.0); s.pts = { { -q, -q }, { q, -q }, { q, q }, { -q, q } }; }
            if (sim::chance(50)) { m.minMag = M_PI * L.r * (1 + 1 / std::abs(dot(s.n, L.w))) * (sim::chance(50) ? sim::real(0.98, 1.08) : sim::real(0.6, 1.4)); c.setMinIntersectionMagnitude(*m.minMag); }
        }
        bool flat = false; // lies in the plane of an accepted one
        if (!acc.empty() && sim::chance(15)) { const Shape& o = acc[sim::choose(acc.size())]; turn(o.n); s.n = o.n; s.e1 = o.e1; s.e2 = o.e2; s.c = o.c + sim::real(-2.5, 2.5) * o.R * o.e1 + sim::real(-1, 1) * o.R * o.e2; flat = true; }
        // contacts: a corner or an edge rests on an accepted entity, or a corner touches the surface from either side
        int on = -1; bool onSurface = false; Contact contact; Shape held = s;
        if (s.kind && sim::chance(12)) {
            if (!acc.empty() && sim::chance(50)) { on = (int)sim::choose(acc.size()); const Shape& o = acc[on]; contact = rest(s, o.at({ sim::real(-0.5, 0.5) * o.R, sim::real(-0.5, 0.5) * o.R }), sim::chance(50) ? o.n : -1.0 * o.n, sim::chance(40), 0.25); flat = false; }
            else {
                const V3 rad = rot(L.u, L.w, sim::chance(30) ? 0.5 * M_PI * sim::choose(4) + 0.3 : sim::real(0.05, 6.2)); const bool out = sim::chance(50); const double f = out ? 1 : std::min(1.0, 0.3 * L.r / s.R);
                for (auto& q : s.pts) q = { f * q.x, f * q.y }; s.R *= f;
                contact = rest(s, L.c + sim::real(0.1, 0.9) * L.h * L.w + L.r * rad, out ? rad : -1.0 * rad, false, 0.4); onSurface = true;
                for (size_t k = 0; k < s.pts.size(); ++k) for (int j = 0; j < 20; ++j) { const V2 u = s.pts[k], v = s.pts[(k + 1) % s.pts.size()]; const V3 q = s.at({ u.x + j / 20.0 * (v.x - u.x), u.y + j / 20.0 * (v.y - u.y) }); const double z = L.height(q); if ((out ? norm(L.radial(q)) - L.r : L.r - norm(L.radial(q))) < 0.05 * norm(q - contact.p) - 1e-9 * S || z < 0 || z > L.h) onSurface = false; }
                if (!onSurface) s = held;
            }
        }
        if (sim::chance(20)) { // constraints at the edge of what this candidate fulfils
            const CMeet at = meet(L, s);
            if (at.state == 1 && !at.curves.empty()) {
                const Curve& k = at.curves[sim::choose(at.curves.size())]; const double f = sim::chance(50) ? sim::real(0.9, 0.99) : sim::real(1.01, 1.1);
                if (sim::chance(60)) { m.minDist.reset(); c.neglectMinDistance(); m.minAngle.reset(); c.neglectMinIntersectionAngle(); m.minMag.reset(); c.neglectMinIntersectionMagnitude(); m.minIsDist.reset(); c.neglectMinIntersectionDistance(); }
                switch (sim::choose(3)) {
                    case 0: m.minMag = k.length * f; c.setMinIntersectionMagnitude(*m.minMag); break;
                    case 1: m.minAngle = (sim::chance(50) || k.closed ? k.minAngle : k.endAngle) * f; c.setMinIntersectingAngle(*m.minAngle); break;
                    default: m.minIsDist = std::max(1e-3 * S, sim::chance(50) ? k.minS : k.minC) * f; c.setMinIntersectionDistance(*m.minIsDist); break;
                }
                sim::probe(at.curves.size() > 1 ? "sharp-several-curves" : "sharp-one-curve");
            }
        }
        const TopoDS_Face sf = faceOf(s);
        // what to decide against: 0 surface, 1 surfaces, 2 its face, 3 all faces of the boundary, 4 accepted faces
        const int against = (int)sim::choose(acc.empty() ? 4 : 6), rep = (int)sim::choose(2), order = (int)sim::choose(2), li = (int)sim::choose(nl);
        int want = 1; bool open = false; std::string why;
        auto curved = [&](const Lateral& l, bool faces) { CMeet mt; int w;
            if (onSurface && &l == &L) { w = 1; if (m.minDist || m.minAngle || m.minMag || m.minIsDist) { if (m.minAngle) w = CModel::both(w, CModel::cmp(contact.rise, *m.minAngle, 1e-5)); if (m.minIsDist) { int x = CModel::cmp(L.rimDist(contact.p), *m.minIsDist, 1e-4 * S); if (faces && x == 1) x = -1; w = CModel::both(w, x); } } want = CModel::both(want, w); if (w == 0) why = "contact with " + l.describe(); if (w >= 0) sim::probe(w ? "contact-accepted" : "contact-rejected"); return; }
            w = decide(m, l, s, mt, faces); if (m.minIsDist && s.kind) { open = open || (w < 0 && mt.curves.empty()); for (auto& k : mt.curves) open = open || k.closed; } /* the distance of a full ellipse to the edges of a polygon is documented as not implemented */ want = CModel::both(want, w); if (w == 0) why = l.describe(); sim::state(sim::mix(sim::mix(against, s.kind + 3 * rep), sim::mix(mt.state + 1 + 3 * std::min<size_t>(3, mt.curves.size()), w + 2 * (m.minDist ? 1 : 0) + 4 * (m.minAngle ? 1 : 0) + 8 * (m.minMag ? 1 : 0) + 16 * (m.minIsDist ? 1 : 0)))); if (w >= 0) sim::probe(mt.state == 1 ? mt.curves[0].closed ? (w ? "ring-accepted" : "ring-rejected") : (w ? "curve-accepted" : "curve-rejected") : w ? "apart-accepted" : "apart-rejected"); else sim::probe("borderline"); };
        auto planar = [&](const Shape& o) {
            const bool at = on >= 0 && &o == &acc[on]; int w = at ? m.contact(o, contact, o.R + s.R) : m.pair(o, s); if (at && w >= 0) sim::probe(w ? "resting-accepted" : "resting-rejected");
            const bool par = onePlane(o, s, w);
            if (par) { // faces in one plane: meeting in a face is inadmissible unless allowed
                w = -1; const bool active = m.minDist || m.minAngle || m.minMag || m.minIsDist;
                if (!active) w = 1;
                else if (norm(cross(o.n, s.n)) < 1e-12 && std::abs(o.off(s.c)) < 1e-12 * S) { double lb, ub; distanceBracket(o, s, lb, ub, m.minDist.value_or(0)); if (s.inside({ dot(o.c - s.c, s.e1), dot(o.c - s.c, s.e2) }) && -s.signedDist(s.in(o.c)) > 1e-2 * S) { w = allowed ? (m.minAngle ? 0 : m.minIsDist || m.minMag ? -1 : 1) : 0; if (allowed && m.minIsDist) open = true; sim::probe(w == 0 ? "overlap-rejected" : "overlap-allowed"); } else if (lb > 1e-3 * S) { w = !m.minDist ? 1 : lb >= *m.minDist + 1e-4 * S ? 1 : ub <= *m.minDist - 1e-4 * S ? 0 : -1; sim::probe("flat-apart"); } }
                if (allowed) open = open || m.minIsDist.has_value();
            }
            want = CModel::both(want, w); if (w == 0) why = o.describe();
            if (w >= 0) sim::probe(w ? "face-accepted" : "face-rejected"); sim::state(sim::mix(sim::mix(77 + o.kind, s.kind), w + 4 * par));
        };
        bool got = false; std::string err; const bool alloc = sim::chance(10); bool fired = false, threw = false;
        auto run = [&](const auto& x, const auto& y) {
            if (alloc) sim::failAllocation(1 + sim::choose(200), 1);
            threw = throws([&] { got = order ? c.evaluate(x, y) : c.evaluate(y, x); }, err);
            fired = alloc && sim::allocationFailed(); sim::failAllocation(0, 0);
        };
        auto form = [&](const auto& x) { if (s.kind == 0) run(x, s.disk()); else if (s.kind == 1) run(x, s.quad()); else run(x, s.poly()); };
        const bool viaFace = rep && against < 2 && sim::chance(50); if (viaFace && m.minAngle) open = true; // angles between surfaces and face shapes are documented as not implemented
        if (against == 0) { curved(lats[li], viaFace); if (viaFace) run(surfs[li], sf); else form(surfs[li]); }
        else if (against == 1) { for (auto& l : lats) curved(l, viaFace); if (viaFace) run(surfs, sf); else form(surfs); }
        else if (against == 2) { curved(lats[li], true); if (rep) run(latFaces[li], sf); else form(latFaces[li]); }
        else if (against == 3) {
            std::vector<TopoDS_Face> all = latFaces; for (auto& l : lats) curved(l, true);
            // the lids of the first cylinder
            for (int k = 0; k < 2; ++k) { Shape lid; lid.kind = 0; lid.c = lats[0].c + (k * lats[0].h) * lats[0].w; lid.n = lats[0].w; lid.e1 = lats[0].u; lid.e2 = lats[0].v; lid.a = lid.b = lid.R = lats[0].r; all.insert(all.begin() + sim::choose(all.size() + 1), faceOf(lid)); planar(lid); }
            if (rep) run(all, sf); else form(all);
        } else if (against == 4) { for (auto& o : acc) planar(o); if (rep) run(accFaces, sf); else form(accFaces); }
        else { const size_t k = sim::choose(acc.size()); planar(acc[k]); if (rep) run(accFaces[k], sf); else form(accFaces[k]); }
        if (fired) sim::fault("allocation-failure");
        sim::log("%s against %d (%s, %s first)%s: %s", s.describe().c_str(), against, rep ? "face shape" : "geometry", order ? "boundary" : "candidate", alloc ? " short of memory" : "", threw ? err.c_str() : got ? "accepted" : "rejected");
        if (threw) {
            if (fired) { sim::probe("evaluation-out-of-memory"); continue; }
            if (open) { sim::probe("not-implemented"); continue; }
            sim::violation("evaluate-throws", "evaluating [%s ] for %s against form %d threw: %s", m.describe().c_str(), s.describe().c_str(), against, err.c_str());
        }
        if (!fired && want >= 0 && got != (want == 1)) sim::violation(got ? "accepted-violating" : "rejected-fulfilling", "%s (%s) was %s against form %d, the constraints [%s ]%s say otherwise (%s)", s.describe().c_str(), rep ? "face shape" : "geometry", got ? "accepted" : "rejected", against, m.describe().c_str(), allowed ? " with equi-dimensional intersections" : "", why.c_str());
        if (got && acc.size() < 5) { acc.push_back(s); accFaces.push_back(sf); }
    }
}
