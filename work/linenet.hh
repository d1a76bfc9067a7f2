// Accept/reject histories of line entities (segments): known contacts, exact distances.
#ifndef VERIF_LINENET_HH
#define VERIF_LINENET_HH
#include "constraintmodel.hh"
#include <frackit/geometry/segment.hh>
namespace wl {
struct Seg { V3 a, b; Frackit::Segment<double, 3> get() const { return Frackit::Segment<double, 3>(fp(a), fp(b)); } V3 at(double t) const { return a + t * (b - a); } double length() const { return norm(b - a); } V3 dir() const { return unit(b - a); }
    std::string describe() const { char t[200]; snprintf(t, sizeof t, "segment (%.5g %.5g %.5g)-(%.5g %.5g %.5g)", a.x, a.y, a.z, b.x, b.y, b.z); return t; } };
inline double pointSeg(V3 p, const Seg& s) { const V3 d = s.b - s.a; const double t = std::min(1.0, std::max(0.0, dot(p - s.a, d) / dot(d, d))); return norm(p - s.at(t)); }
inline double segSeg(const Seg& s, const Seg& t) // distance
{
    double r = std::min({ pointSeg(s.a, t), pointSeg(s.b, t), pointSeg(t.a, s), pointSeg(t.b, s) });
    const V3 u = s.b - s.a, v = t.b - t.a, w = s.a - t.a; const double a = dot(u, u), b = dot(u, v), c = dot(v, v), d = dot(u, w), e = dot(v, w), D = a * c - b * b;
    if (D > 1e-9 * a * c) { const double x = (b * e - c * d) / D, y = (a * e - b * d) / D; if (x >= 0 && x <= 1 && y >= 0 && y <= 1) r = std::min(r, norm(s.at(x) - t.at(y))); }
    return r;
}
// 0 apart, 1 meet in a point, 2 overlap by length, -1 too close to tell
struct SMeet { int state = -1; double length = 0, dist = 0; };
inline SMeet meet(const Seg& s, const Seg& t)
{
    SMeet m; const double sc = s.length() + t.length(); m.dist = segSeg(s, t);
    if (m.dist > 1e-4 * sc) { m.state = 0; return m; }
    const double sn = norm(cross(s.dir(), t.dir()));
    if (sn < 1e-12) { // along one line?
        if (norm(cross(t.a - s.a, s.dir())) > 1e-12 * sc) return m;
        const double p = dot(t.a - s.a, s.dir()), q = dot(t.b - s.a, s.dir()), l = std::min(s.length(), std::max(p, q)) - std::max(0.0, std::min(p, q));
        if (l > 1e-4 * sc) { m.state = 2; m.length = l; } else if (std::abs(l) < 1e-14 * sc) m.state = 1;
        return m;
    }
    if (sn > 1e-2 && m.dist < 1e-14 * sc) m.state = 1;
    return m;
}
// candidates as geometries; other forms do not exist for lines
inline void lineConstraints()
{
    using C = Frackit::EntityNetworkConstraints<double>;
    const double S = sim::chance(70) ? 1.0 : sim::chance(50) ? 50.0 : 0.1; const V3 O = sim::chance(50) ? V3{ 0, 0, 0 } : V3{ 16 * S, -8 * S, 4 * S };
    C c; CModel m; bool allowed = sim::chance(30); if (allowed) c.allowEquiDimensionalIntersections(true);
    std::vector<Seg> acc; std::vector<Frackit::Segment<double, 3>> segs; const int ops = 4 + (int)sim::choose(26);
    // grid directions and lengths keep collinear contacts exact
    auto pick = [&] { return (double)(1 + sim::choose(8)) / 8.0 * S; };
    auto gridDir = [&] { const int k = (int)sim::choose(6); return k == 0 ? V3{ 1, 0, 0 } : k == 1 ? V3{ 0, 1, 0 } : k == 2 ? V3{ 0, 0, 1 } : k == 3 ? V3{ 0.5, 0.5, 0 } : k == 4 ? V3{ -0.5, 0, 1 } : V3{ 0.25, 0.5, -0.5 }; };
    for (int i = 0; i < ops; ++i) {
        sim::op();
        if (i < 2 || sim::chance(12)) { const int k = 1 + (int)sim::choose(3); for (int j = 0; j < k; ++j) m.change(c, S); sim::log("constraints:%s", m.describe().c_str()); continue; }
        if (sim::chance(5)) { allowed = !allowed; c.allowEquiDimensionalIntersections(allowed); sim::log("equi-dimensional intersections %s", allowed ? "allowed" : "denied"); }
        if (sim::chance(5)) { C copy(c); C other; other.setMinDistance(1e9); c = other; c = copy; }
        Seg s; const int kind = acc.empty() ? (int)sim::choose(2) : (int)sim::choose(9);
        auto randP = [&] { return O + V3{ S * sim::real(-1, 1), S * sim::real(-1, 1), S * sim::real(-1, 1) }; };
        if (kind == 0) { s.a = randP(); s.b = s.a + S * sim::real(0.2, 1.5) * randUnit(); }
        else if (kind == 1) { s.a = O + V3{ pick() - pick(), pick() - pick(), pick() - pick() }; s.b = s.a + (2 * pick()) * gridDir(); }
        else {
            const Seg o = acc[sim::choose(acc.size())];
            const V3 p = kind <= 4 ? o.at(sim::chance(40) ? 0.25 * (1 + (int)sim::choose(3)) : sim::real(0.1, 0.9)) : sim::chance(50) ? o.a : o.b, d = randUnit();
            switch (kind) {
                case 2: s.a = p - S * sim::real(0.1, 1) * d; s.b = p + S * sim::real(0.1, 1) * d; break; // crossing
                case 3: s.a = p; s.b = p + S * sim::real(0.1, 1) * d; break; // ends on it
                case 4: { const V3 off = S * sim::real(0.02, 0.7) * unit(cross(o.dir(), d)); s.a = p + off - S * sim::real(0.1, 1) * d; s.b = p + off + S * sim::real(0.1, 1) * d; break; } // passes by
                case 5: s.a = p; s.b = p + S * sim::real(0.1, 1) * d; break; // common end
                case 6: { const V3 e = o.b - o.a; const double x = 0.25 * ((int)sim::choose(13) - 4), y = 0.25 * (1 + (int)sim::choose(6)); s.a = o.a + x * e; s.b = o.a + (x + y) * e; break; } // on the same line
                case 7: { const V3 e = o.b - o.a; const double y = 0.25 * (1 + (int)sim::choose(6)); s.a = o.b; s.b = o.b + y * e; break; } // continues it
                default: { const V3 off = S * sim::real(0.02, 0.7) * unit(cross(o.dir(), d)), e = o.b - o.a; const double x = sim::real(-1.5, 1.5); s.a = o.a + off + x * e; s.b = s.a + sim::real(0.3, 1.5) * e; break; } // parallel
            }
            if (sim::chance(50)) std::swap(s.a, s.b);
        }
        if (s.length() < 0.05 * S) continue;
        auto decide = [&](const Seg& o, bool& open) {
            if (!m.minDist && !m.minAngle && !m.minMag && !m.minIsDist) return 1;
            const SMeet mt = meet(o, s); int w = -1;
            if (mt.state == 0) w = m.minDist ? CModel::cmp(mt.dist, *m.minDist, 1e-5 * S) : 1;
            else if (mt.state == 1) { if (m.minAngle || m.minIsDist) open = true; else w = 1; }
            else if (mt.state == 2) { if (!allowed) w = 0; else if (m.minMag && mt.length < *m.minMag - 1e-5 * S) w = 0; else if (m.minAngle || m.minIsDist) open = true; else w = m.minMag ? CModel::cmp(mt.length, *m.minMag, 1e-5 * S) : 1; }
            else open = true;
            sim::state(sim::mix(900 + mt.state, w + 2 * allowed + 4 * (m.minDist ? 1 : 0) + 8 * (m.minMag ? 1 : 0)));
            if (w >= 0) sim::probe(mt.state == 0 ? w ? "lines-apart-accepted" : "lines-apart-rejected" : mt.state == 1 ? "lines-meet" : w ? "lines-overlap-accepted" : "lines-overlap-rejected");
            return w;
        };
        const int form = (int)sim::choose(4); bool open = false, got = true; int want = 1; std::string err, why; const size_t one = acc.empty() ? 0 : sim::choose(acc.size());
        for (size_t k = 0; k < acc.size(); ++k) if (form < 2 || k == one) { const int w = decide(acc[k], open); want = CModel::both(want, w); if (w == 0) why = acc[k].describe(); }
        const auto g = s.get(); const std::vector<Frackit::Segment<double, 3>> both{ g, g };
        const bool threw = throws([&] { if (acc.empty()) return; if (form == 0) got = sim::chance(80) ? c.evaluate(segs, g) : c.evaluate(segs, both); else if (form == 1) got = c.evaluate(g, segs); else if (form == 2) got = c.evaluate(segs[one], g); else got = c.evaluate(g, segs[one]); }, err);
        sim::log("%s form %d: %s", s.describe().c_str(), form, threw ? err.c_str() : got ? "accepted" : "rejected");
        if (threw) { if (!open) sim::violation("evaluate-throws", "evaluating [%s ] for %s threw: %s", m.describe().c_str(), s.describe().c_str(), err.c_str()); sim::probe("lines-not-implemented"); continue; }
        if (want >= 0 && got != (want == 1)) sim::violation(got ? "accepted-violating" : "rejected-fulfilling", "%s was %s under [%s ]%s (%s)", s.describe().c_str(), got ? "accepted" : "rejected", m.describe().c_str(), allowed ? " with equi-dimensional intersections" : "", why.empty() ? "no entity of the set violates them" : why.c_str());
        if (acc.size() < 8 && (got || sim::chance(20))) { acc.push_back(s); segs.push_back(g); }
    }
}
} // namespace wl
#endif
