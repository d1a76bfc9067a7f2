// Networks: sub-domains and entities with an independent description, and the oracle for built networks.
#ifndef VERIF_NETWORK_HH
#define VERIF_NETWORK_HH
#include "shapes.hh"
#include <map>
#include <set>
#include <iostream>
#include <BRepGProp.hxx>
#include <gp_Elips.hxx>
#include <Standard_Failure.hxx>
#include <BRepBuilderAPI_MakePolygon.hxx>
#include <BRepBuilderAPI_MakeEdge.hxx>
#include <BRepBuilderAPI_MakeWire.hxx>
#include <BRepBuilderAPI_MakeFace.hxx>
#include <BRepPrimAPI_MakeBox.hxx>
#include <BRepPrimAPI_MakeCylinder.hxx>
#include <BRepPrimAPI_MakeSphere.hxx>
#include <BRepAlgoAPI_Common.hxx>
#include <BRepAlgoAPI_Cut.hxx>
#include <BRepAlgoAPI_BuilderAlgo.hxx>
#include <GProp_GProps.hxx>
#include <BRepAdaptor_Curve.hxx>
#include <TopExp_Explorer.hxx>
#include <TopTools_IndexedMapOfShape.hxx>
#include <TopTools_MapOfShape.hxx>
#include <TopExp.hxx>
#include <BRep_Tool.hxx>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/entitynetwork/networkbuilder.hh>
namespace wl {
using Iv = std::vector<std::pair<double, double>>;

inline bool faceMeets(const Shape& s, V3 q, V3 n, V3 u, double hu, double hv);

struct Domain {
    int kind = 0; // 0 box, 1 cylinder, 2 sphere, 3 box with spherical hole
    V3 lo, hi;    // box
    V3 c, ax, b1; double r = 1, h = 1; // cylinder: base center, axis; sphere/hole: center
    mutable std::vector<V3> corners;
    double volume() const
    {
        const V3 d = hi - lo; const double ball = 4.0 / 3 * M_PI * r * r * r;
        return kind == 0 ? d.x * d.y * d.z : kind == 1 ? M_PI * r * r * h : kind == 2 ? ball : d.x * d.y * d.z - ball;
    }
    double size() const { return kind == 0 || kind == 3 ? norm(hi - lo) : kind == 1 ? h + 2 * r : 2 * r; }
    static bool quadratic(double A, double B, double C, double& l, double& u) { const double D = B * B - A * C; if (D <= 0) return false; l = (-B - std::sqrt(D)) / A; u = (-B + std::sqrt(D)) / A; return true; }
    bool boxLine(V3 p, V3 d, double& l, double& u) const
    {
        l = -1e300; u = 1e300; const double P[3] = { p.x, p.y, p.z }, D[3] = { d.x, d.y, d.z }, L[3] = { lo.x, lo.y, lo.z }, H[3] = { hi.x, hi.y, hi.z };
        for (int i = 0; i < 3; ++i) {
            if (std::abs(D[i]) < 1e-14) { const double e = 1e-9 * (H[i] - L[i]); if (P[i] < L[i] - e || P[i] > H[i] + e) return false; continue; }
            double a = (L[i] - P[i]) / D[i], b = (H[i] - P[i]) / D[i]; if (a > b) std::swap(a, b); l = std::max(l, a); u = std::min(u, b);
        }
        return l < u;
    }
    // intervals of the line p + t d (|d| = 1) inside
    Iv line(V3 p, V3 d) const
    {
        double l, u;
        if (kind == 0) { if (boxLine(p, d, l, u)) return { { l, u } }; return {}; }
        if (kind == 2) { const V3 q = p - c; if (quadratic(1, dot(q, d), dot(q, q) - r * r, l, u)) return { { l, u } }; return {}; }
        if (kind == 1) {
            const V3 q = p - c; const double qa = dot(q, ax), da = dot(d, ax); const V3 qp = q - qa * ax, dp = d - da * ax; const double A = dot(dp, dp);
            l = -1e300; u = 1e300;
            if (A > 1e-20) { if (!quadratic(A, dot(qp, dp), dot(qp, qp) - r * r, l, u)) return {}; } else if (dot(qp, qp) > r * r) return {};
            if (std::abs(da) < 1e-14) { if (qa < 0 || qa > h) return {}; } else { double a = -qa / da, b = (h - qa) / da; if (a > b) std::swap(a, b); l = std::max(l, a); u = std::min(u, b); }
            if (l < u) return { { l, u } }; return {};
        }
        if (!boxLine(p, d, l, u)) return {};
        double hl, hu; const V3 q = p - c; if (!quadratic(1, dot(q, d), dot(q, q) - r * r, hl, hu)) return { { l, u } };
        Iv v; if (hl > l) v.push_back({ l, std::min(u, hl) }); if (hu < u) v.push_back({ std::max(l, hu), u }); return v;
    }
    // distance outside (<= 0 inside), lower bound
    double outside(V3 q) const
    {
        const double box = std::max({ lo.x - q.x, q.x - hi.x, lo.y - q.y, q.y - hi.y, lo.z - q.z, q.z - hi.z });
        if (kind == 0) return box;
        if (kind == 2) return norm(q - c) - r;
        if (kind == 3) return std::max(box, r - norm(q - c));
        const V3 d = q - c; const double a = dot(d, ax); return std::max({ norm(d - a * ax) - r, -a, a - h });
    }
    double lateral(V3 q) const { const V3 d = q - c; return kind == 1 ? norm(d - dot(d, ax) * ax) - r : norm(d) - r; }
    // distance from the seam of the curved surface (OpenCASCADE merges intersections nearby with it)
    double seam(V3 q) const
    {
        if (kind == 0) return 1e300;
        if (corners.empty()) for (TopExp_Explorer x(shape(), TopAbs_VERTEX); x.More(); x.Next()) { const auto p = BRep_Tool::Pnt(TopoDS::Vertex(x.Current())); corners.push_back({ p.X(), p.Y(), p.Z() }); }
        double m = 1e300;
        if (kind == 1) { for (auto& v : corners) { const V3 d = q - v; m = std::min(m, norm(d - dot(d, ax) * ax)); } return m; }
        const V3 d = q - c; return d.x > 0 ? std::abs(d.y) : std::hypot(d.x, d.y); // from pole to pole on the side of x
    }
    // the entity lies in the plane of the bottom or the top face of the box
    bool flush(const Shape& s) const { return (kind == 0 || kind == 3) && std::abs(s.n.z) == 1 && std::min(std::abs(s.c.z - lo.z), std::abs(s.c.z - hi.z)) < 1e-9 * (hi.z - lo.z); }
    double outsideXY(V3 q) const { return std::max({ lo.x - q.x, q.x - hi.x, lo.y - q.y, q.y - hi.y }); }
    bool genericFlush(const Shape& s, double tol) const
    {
        for (double x : { lo.x, hi.x }) for (double y : { lo.y, hi.y }) if (s.boundaryDist(s.in({ x, y, s.c.z })) < tol) return false;
        for (V3 n : { V3{ 1, 0, 0 }, V3{ 0, 1, 0 } }) for (V3 q : { lo, hi }) { const double up = s.support(n) - dot(n, q), dn = -s.support(-1.0 * n) - dot(n, q); if (std::abs(up) < 5 * tol || std::abs(dn) < 5 * tol) return false; }
        for (std::size_t i = 0; i < s.pts.size(); ++i) {
            const V3 a = s.at(s.pts[i]), b = s.at(s.pts[(i + 1) % s.pts.size()]), u = unit(b - a); if (std::abs(u.x) < 0.1 || std::abs(u.y) < 0.1) return false;
            if (std::min({ std::abs(a.x - lo.x), std::abs(a.x - hi.x), std::abs(a.y - lo.y), std::abs(a.y - hi.y) }) < tol) return false;
        }
        return kind == 0 || std::abs(s.off(c)) > r + 10 * tol;
    }
    // clearly not tangential to / touching the bounding surfaces
    bool generic(const Shape& s, double tol) const
    {
        if (flush(s)) return genericFlush(s, tol);
        auto plane = [&](V3 q, V3 n) { // bounding plane parallel to the entity: keep clear
            return norm(cross(n, s.n)) > 5e-2 || std::abs(s.off(q)) > tol;
        };
        auto support = [&](V3 q, V3 n) { const double up = s.support(n) - dot(n, q), dn = -s.support(-1.0 * n) - dot(n, q); return std::abs(up) > tol && std::abs(dn) > tol; };
        if (kind == 0 || kind == 3) for (V3 n : { V3{ 1, 0, 0 }, V3{ 0, 1, 0 }, V3{ 0, 0, 1 } }) for (V3 q : { lo, hi }) if (!plane(q, n) || !support(q, n)) return false;
        if (kind == 2 || kind == 3) { const double o = std::abs(s.off(c)); if (std::abs(o - r) < tol * 10) return false; const V3 pr = s.project(c); if (std::abs(norm(pr - c) - r) < tol * 10) return false; if (o < tol) return false; }
        if (kind == 1) {
            for (V3 q : { c, c + h * ax }) if (!plane(q, ax) || !support(q, ax)) return false;
            const double ca = std::abs(dot(s.n, ax)); if (ca < 0.2 || ca > 0.98) return false;
        }
        if (kind != 0) { seam(c); for (auto& v : corners) if (norm(s.project(v) - v) < tol) return false; }
        if (kind != 0) { // the entity's boundary nearly touches the curved surface, or passes one of its rims
            std::vector<double> f; std::vector<char> inRange; const int per = s.kind == 0 ? 480 : 80; const std::size_t sides = s.kind == 0 ? 1 : s.pts.size();
            for (std::size_t k = 0; k < sides; ++k) for (int i = 0; i < per; ++i) {
                V2 b; if (s.kind == 0) { const double t = 2 * M_PI * i / per; b = { s.a * std::cos(t), s.b * std::sin(t) }; } else { const V2 u = s.pts[k], v = s.pts[(k + 1) % sides]; const double t = (double)i / per; b = { u.x + t * (v.x - u.x), u.y + t * (v.y - u.y) }; }
                const V3 q = s.at(b); f.push_back(lateral(q)); if (std::abs(f.back()) < 5 * tol && seam(q) < tol + 1e-2 * s.R) return false; const double z = dot(q - c, ax); inRange.push_back(kind != 1 || (z > -tol && z < h + tol));
                if (kind == 1 && std::hypot(f.back(), std::min(std::abs(z), std::abs(z - h))) < tol) return false;
            }
            const std::size_t n = f.size(); for (std::size_t i = 0; i < n; ++i) { const double l = f[(i + n - 1) % n], m = f[i], u = f[(i + 1) % n]; if (inRange[i] && (m - l) * (u - m) <= 0 && std::abs(m) < tol) return false; }
        }
        return true;
    }
    TopoDS_Shape shape() const
    {
        using namespace Frackit;
        if (kind == 0) return OCCUtilities::getShape(box());
        if (kind == 1) return OCCUtilities::getShape(cylinder());
        if (kind == 2) return OCCUtilities::getShape(sphere());
        return OCCUtilities::getSolids(OCCUtilities::cut(OCCUtilities::getShape(box()), OCCUtilities::getShape(sphere()), 1e-7)).at(0);
    }
    Frackit::Box<double> box() const { return Frackit::Box<double>(lo.x, lo.y, lo.z, hi.x, hi.y, hi.z); }
    Frackit::Sphere<double> sphere() const { return Frackit::Sphere<double>(fp(c), r); }
    Frackit::Cylinder<double> cylinder() const { return Frackit::Cylinder<double>(Frackit::Circle<double, 3>(fp(c), fd(ax), r), h); }
    template<class B> void addTo(B& b, bool confining, std::size_t id) const
    {
        auto add = [&](const auto& g) { if (confining) b.addConfiningSubDomain(g, Frackit::Id(id)); else b.addSubDomain(g, Frackit::Id(id)); };
        if (kind == 0) add(box()); else if (kind == 1) add(cylinder()); else if (kind == 2) add(sphere()); else add(TopoDS::Solid(shape()));
    }
};

// sub-domains with disjoint interiors
inline std::vector<Domain> randomDomains(V3 O, double S, int count, bool fill = false)
{
    std::vector<Domain> v; const bool stacked = sim::chance(50);
    double z = O.z - 0.5 * S * count;
    for (int i = 0; i < count; ++i) {
        Domain d; d.kind = stacked && count > 1 ? (sim::chance(20) ? 3 : 0) : (int)sim::choose(4);
        const double w = S * sim::real(0.7, 1.3), t = S * sim::real(0.6, 1.0), gap = stacked ? 0 : S * sim::real(0.3, 0.6);
        d.lo = { O.x - 0.5 * w, O.y - 0.5 * S, z + gap }; d.hi = { O.x + 0.5 * w, O.y + 0.5 * S, z + gap + t };
        if (stacked && sim::chance(50)) { d.lo.x = O.x - 0.5 * S; d.hi.x = O.x + 0.5 * S; }
        d.c = 0.5 * (d.lo + d.hi);
        if (d.kind == 3) d.r = t * sim::real(0.15, 0.35);
        if (d.kind == 2) d.r = 0.5 * t;
        if (d.kind == 1) { d.ax = sim::chance(60) ? V3{ 0, 0, 1 } : V3{ 0, 0.6, 0.8 }; d.r = 0.3 * t; d.h = 0.6 * t; d.c = d.c - (0.5 * d.h) * d.ax; }
        z += gap + t; v.push_back(d);
        if (fill && d.kind == 3 && i + 1 < count && sim::chance(40)) { d.kind = 2; d.lo = d.c - V3{ d.r, d.r, d.r }; d.hi = d.c + V3{ d.r, d.r, d.r }; v.push_back(d); ++i; sim::probe("hole-filled"); } // a body of its own in the hole
    }
    return v;
}

// where the entities of a set are confined to: everywhere, or the union of these domains
struct Region {
    bool everywhere = true; std::vector<Domain> in;
    Iv line(V3 p, V3 d, double l, double u) const
    {
        if (everywhere) return { { l, u } };
        Iv r; for (auto& D : in) for (auto [a, b] : D.line(p, d)) if (std::max(a, l) < std::min(b, u)) r.push_back({ std::max(a, l), std::min(b, u) });
        std::sort(r.begin(), r.end()); Iv w; for (auto& x : r) { if (w.empty() || x.first > w.back().second) w.push_back(x); else w.back().second = std::max(w.back().second, x.second); } // a line between two layers is in both
        return w;
    }
    double outside(V3 q) const { if (everywhere) return -1e300; double m = 1e300; for (auto& D : in) m = std::min(m, D.outside(q)); return m; }
};
inline double ivLength(const Iv& v) { double s = 0; for (auto [a, b] : v) s += b - a; return s; }
inline double areaIn(const Shape& s, const Region& r)
{
    if (r.everywhere) return s.area();
    const int N = 800; const double top = s.support(s.e2) - dot(s.e2, s.c), bot = -(s.support(-1.0 * s.e2) + dot(s.e2, s.c)), dy = (top - bot) / N; double A = 0;
    for (int i = 0; i < N; ++i) { const double y = bot + (i + 0.5) * dy; double l, u; bool g; if (s.clip({ 0, y }, { 1, 0 }, l, u, 0, g)) A += dy * ivLength(r.line(s.at({ 0, y }), s.e1, l, u)); }
    return A;
}

struct Prim { Shape s; std::size_t sd; int pos; TopoDS_Face face; bool asFace = false; std::vector<std::pair<std::size_t, int>> twins; }; // twins: the same entity, added again
inline bool inSet(const Prim& p, std::size_t sd) { if (p.sd == sd) return true; for (auto& t : p.twins) if (t.first == sd) return true; return false; }
template<class B> void addPrim(B& b, const Prim& p)
{
    const Frackit::Id id(p.sd);
    if (p.asFace) b.addSubDomainEntity(p.face, id);
    else if (p.s.kind == 0) b.addSubDomainEntity(p.s.disk(), id);
    else if (p.s.kind == 1) b.addSubDomainEntity(p.s.quad(), id);
    else b.addSubDomainEntity(p.s.poly(), id);
}
inline TopoDS_Face faceOf(const Shape& s) { using namespace Frackit; return s.kind == 0 ? OCCUtilities::getShape(s.disk()) : s.kind == 1 ? OCCUtilities::getShape(s.quad()) : OCCUtilities::getShape(s.poly()); }

// a set of entities in general position: every pair decided, no three meeting near a point
struct Arrangement {
    std::vector<Shape> shapes; std::map<std::pair<int, int>, Meet> meets; double S;
    bool tryAdd(const Shape& s, const std::vector<Domain>& doms)
    {
        const double tol = 2e-3 * S; const int k = (int)shapes.size();
        for (auto& d : doms) if (!d.generic(s, tol)) return false;
        std::map<int, Meet> mine;
        for (int i = 0; i < k; ++i) {
            const Meet m = meet(shapes[i], s); if (m.state < 0) return false;
            if (m.state == 0) { if (norm(cross(shapes[i].n, s.n)) < 5e-2 && std::abs(shapes[i].off(s.c)) < 0.2 * s.R) return false; continue; }
            if (m.angle < 0.15 || m.length < 10 * tol) return false;
            // both ends clearly inside one of the two
            for (V3 e : { m.p, m.q }) if (std::abs(shapes[i].signedDist(shapes[i].in(e))) < tol && std::abs(s.signedDist(s.in(e))) < tol) return false;
            for (auto& d : doms) { const bool fl = d.flush(s) || d.flush(shapes[i]); for (V3 e : { m.p, m.q }) if (std::abs(fl ? d.outsideXY(e) : d.outside(e)) < tol) return false; }
            // where both meet a curved surface
            for (auto& d : doms) if (d.kind) { const V3 u = unit(m.q - m.p); for (auto [lo, hi] : d.line(m.p, u)) for (double t : { lo, hi }) { const V3 q = m.p + t * u; if (t > -tol && t < m.length + tol && (d.seam(q) < 2 * tol || (d.kind == 1 && std::hypot(d.lateral(q), std::min(std::abs(dot(q - d.c, d.ax)), std::abs(dot(q - d.c, d.ax) - d.h))) < 2 * tol))) return false; } }
            // corners of polygons
            for (const Shape* t : { (const Shape*)&shapes[i], &s }) for (auto& c : t->pts) for (V3 e : { m.p, m.q }) if (norm(t->at(c) - e) < tol) return false;
            mine[i] = m;
        }
        // triple points
        auto segDist = [](const Meet& a, V3 q) { const V3 d = a.q - a.p; double t = dot(q - a.p, d) / dot(d, d); t = std::min(1.0, std::max(0.0, t)); return norm(a.p + t * d - q); };
        for (auto& [i, a] : mine) for (auto& [j, b] : mine) {
            if (i == j) continue;
            for (V3 e : { a.p, a.q }) if (segDist(b, e) < tol) return false;
            auto it = meets.find({ std::min(i, j), std::max(i, j) }); if (it == meets.end()) continue;
            for (V3 e : { a.p, a.q }) if (segDist(it->second, e) < tol) return false;
            for (V3 e : { it->second.p, it->second.q }) if (segDist(a, e) < tol) return false;
        }
        for (auto& [i, a] : mine) meets[{ i, k }] = a;
        shapes.push_back(s); return true;
    }
};

inline double faceArea(const TopoDS_Shape& f) { GProp_GProps g; BRepGProp::SurfaceProperties(f, g); return std::abs(g.Mass()); }
inline double solidVolume(const TopoDS_Shape& f) { GProp_GProps g; BRepGProp::VolumeProperties(f, g); return std::abs(g.Mass()); }
inline V3 facePoint(const TopoDS_Shape& f) { GProp_GProps g; BRepGProp::SurfaceProperties(f, g); auto p = g.CentreOfMass(); return { p.X(), p.Y(), p.Z() }; }
inline double edgeLength(const TopoDS_Shape& e) { GProp_GProps g; BRepGProp::LinearProperties(e, g); return g.Mass(); }
// points along the edges of a shape
inline std::vector<V3> outline(const TopoDS_Shape& s, int perEdge = 4)
{
    std::vector<V3> v;
    for (TopExp_Explorer x(s, TopAbs_EDGE); x.More(); x.Next()) {
        if (BRep_Tool::Degenerated(TopoDS::Edge(x.Current()))) continue;
        BRepAdaptor_Curve c(TopoDS::Edge(x.Current())); const double a = c.FirstParameter(), b = c.LastParameter();
        for (int i = 0; i <= perEdge; ++i) { const auto p = c.Value(a + (b - a) * i / perEdge); v.push_back({ p.X(), p.Y(), p.Z() }); }
    }
    return v;
}

struct Frag { TopoDS_Shape shape; std::size_t sd; int idx; };

// Shapes made without the library, and OpenCASCADE asked directly for the decomposition of a scene: where its Boolean
// operations themselves go wrong (rarely, in special positions), a network that deviates is not the library's fault.
inline TopoDS_Face ownFace(const Shape& s)
{
    auto P = [](V3 p) { return gp_Pnt(p.x, p.y, p.z); }; auto D = [](V3 p) { return gp_Dir(p.x, p.y, p.z); };
    if (s.kind == 0) return BRepBuilderAPI_MakeFace(BRepBuilderAPI_MakeWire(BRepBuilderAPI_MakeEdge(gp_Elips(gp_Ax2(P(s.c), D(s.n), D(s.e1)), s.a, s.b)).Edge()).Wire()).Face();
    BRepBuilderAPI_MakePolygon m; if (s.raw.size()) for (auto& p : s.raw) m.Add(P(p)); else for (auto& p : s.pts) m.Add(P(s.at(p))); m.Close(); return BRepBuilderAPI_MakeFace(m.Wire()).Face();
}
inline TopoDS_Shape ownSolid(const Domain& d)
{
    const gp_Pnt c(d.c.x, d.c.y, d.c.z); auto box = [&] { return BRepPrimAPI_MakeBox(gp_Pnt(d.lo.x, d.lo.y, d.lo.z), gp_Pnt(d.hi.x, d.hi.y, d.hi.z)).Solid(); };
    if (d.kind == 0) return box();
    if (d.kind == 1) { const V3 x = v3(d.cylinder().bottomFace().majorAxis()); return BRepPrimAPI_MakeCylinder(gp_Ax2(c, gp_Dir(d.ax.x, d.ax.y, d.ax.z), gp_Dir(x.x, x.y, x.z)), d.r, d.h).Solid(); }
    const TopoDS_Shape ball = BRepPrimAPI_MakeSphere(c, d.r).Solid(); if (d.kind == 2) return ball;
    return BRepAlgoAPI_Cut(box(), ball).Shape();
}
struct OccDoubt {
    static OccDoubt*& top() { static OccDoubt* t = nullptr; return t; }
    const std::vector<Prim>* prims; std::function<Region(const Prim&)> region; const std::vector<Domain>* doms; double S; bool active;
    OccDoubt(const std::vector<Prim>& p, std::function<Region(const Prim&)> r, const std::vector<Domain>* d, double s) : prims(&p), region(r), doms(d), S(s), active(!top()) { if (active) { top() = this; sim::doubt = &OccDoubt::ask; } }
    OccDoubt(const OccDoubt&) = delete;
    ~OccDoubt() { if (active) { top() = nullptr; sim::doubt = nullptr; } }
    static const char* ask() { const char* why = "OpenCASCADE itself goes wrong in this scene"; try { return top() && top()->unsound() ? why : nullptr; } catch (const Standard_Failure&) { return why; } }
    bool unsound() const
    {
        std::vector<TopoDS_Shape> parts; TopTools_ListOfShape args; std::vector<double> want;
        for (auto& p : *prims) {
            const TopoDS_Face f = ownFace(p.s); const Region r = region(p); TopoDS_Shape c = f; want.push_back(areaIn(p.s, r));
            if (!r.everywhere) {
                TopTools_ListOfShape a, t; a.Append(f); for (auto& d : r.in) t.Append(ownSolid(d));
                BRepAlgoAPI_Common op; op.SetArguments(a); op.SetTools(t); op.SetFuzzyValue(1e-8 * S); op.Build(); if (!op.IsDone()) return true; c = op.Shape();
            }
            double A = 0; for (TopExp_Explorer x(c, TopAbs_FACE); x.More(); x.Next()) { A += faceArea(x.Current()); args.Append(x.Current()); }
            if (std::abs(A - want.back()) > 1e-3 * p.s.area()) return true;
            parts.push_back(c);
        }
        std::vector<TopoDS_Shape> solids; if (doms) for (auto& d : *doms) { solids.push_back(ownSolid(d)); args.Append(solids.back()); }
        if (args.Extent() < 2) return false;
        BRepAlgoAPI_BuilderAlgo op; op.SetArguments(args); op.SetFuzzyValue(1e-8 * S); op.Build(); if (!op.IsDone()) return true;
        auto images = [&](const TopoDS_Shape& s, TopAbs_ShapeEnum type) { TopTools_IndexedMapOfShape m; for (TopExp_Explorer x(s, type); x.More(); x.Next()) { const auto& l = op.Modified(x.Current()); if (l.IsEmpty()) m.Add(x.Current()); for (const auto& y : l) m.Add(y); } return m; };
        std::vector<TopTools_IndexedMapOfShape> edges(parts.size());
        for (std::size_t i = 0; i < parts.size(); ++i) {
            const auto m = images(parts[i], TopAbs_FACE); double A = 0; const Region r = region((*prims)[i]);
            for (int k = 1; k <= m.Extent(); ++k) { A += faceArea(m(k)); TopExp::MapShapes(m(k), TopAbs_EDGE, edges[i]); if (!r.everywhere) for (auto& p : outline(m(k))) if (r.outside(p) > 0.5e-4 * S + 1e-5) return true; }
            if (std::abs(A - want[i]) > 1e-3 * (*prims)[i].s.area()) return true;
        }
        for (std::size_t i = 0; i < parts.size(); ++i) for (std::size_t j = i + 1; j < parts.size(); ++j) {
            const Meet m = meet((*prims)[i].s, (*prims)[j].s); if (m.state < 0) continue; double wantL = 0, got = 0;
            if (m.state == 1) { const V3 d = unit(m.q - m.p); const Iv a = region((*prims)[i]).line(m.p, d, 0, m.length); for (auto [l, u] : a) wantL += ivLength(region((*prims)[j]).line(m.p, d, l, u)); }
            for (int e = 1; e <= edges[i].Extent(); ++e) if (edges[j].Contains(edges[i](e)) && !BRep_Tool::Degenerated(TopoDS::Edge(edges[i](e)))) got += edgeLength(edges[i](e));
            if (std::abs(got - wantL) > 1e-3 * S) return true;
        }
        for (std::size_t d = 0; d < solids.size(); ++d) {
            const auto m = images(solids[d], TopAbs_SOLID); double v = 0; for (int k = 1; k <= m.Extent(); ++k) v += solidVolume(m(k));
            if (std::abs(v - (*doms)[d].volume()) > 1e-3 * (*doms)[d].volume()) return true;
        }
        return false;
    }
};

// Oracle: the fragments are a conforming decomposition of the primaries, each confined to its region.
// idxOf: expected index of a primary or 0 (then only a consistent numbering is demanded)
struct NetOracle {
    const std::vector<Prim>& prims; std::function<Region(const Prim&)> region; std::function<int(const Prim&)> idxOf; double S;
    // primary of each fragment, by geometry
    std::vector<int> owner;
    int locate(const TopoDS_Shape& f) const
    {
        auto pts = outline(f); pts.push_back(facePoint(f)); int best = -1; double bd = 1e300;
        for (int i = 0; i < (int)prims.size(); ++i) {
            double d = 0; for (auto& p : pts) d = std::max({ d, std::abs(prims[i].s.off(p)), prims[i].s.signedDist(prims[i].s.in(p)) });
            if (d < bd) bd = d, best = i;
        }
        return bd < 1e-4 * S + 2e-5 ? best : -1;
    }
    void check(const std::vector<Frag>& frags, const char* what)
    {
        OccDoubt doubt(prims, region, nullptr, S); owner.clear(); std::vector<double> area(prims.size(), 0), want(prims.size(), 0);
        std::map<int, int> idxToPrim, primToIdx; TopTools_MapOfShape seen;
        for (auto& f : frags) {
            if (f.shape.IsNull() || f.shape.ShapeType() != TopAbs_FACE) sim::violation("fragment-type", "%s: a fragment of a planar entity is a shape of type %d", what, f.shape.IsNull() ? -1 : (int)f.shape.ShapeType());
            if (!seen.Add(f.shape)) sim::violation("fragment-twice", "%s: a fragment is listed twice", what);
            const int o = locate(f.shape); owner.push_back(o);
            if (o < 0) sim::violation("stray-fragment", "%s: a fragment (area %.4g) lies in none of the %zu entities", what, faceArea(f.shape), prims.size());
            if (f.sd != ~(std::size_t)0 && !inSet(prims[o], f.sd)) sim::violation("wrong-set", "%s: a fragment of an entity of set %zu is listed under set %zu", what, prims[o].sd, f.sd);
            if (f.idx <= 0) sim::violation("no-index", "%s: a fragment has no primary entity index", what);
            bool known = !idxOf(prims[o]) || f.idx == idxOf(prims[o]); for (auto& t : prims[o].twins) if (t.second == f.idx) known = true;
            if (!known) sim::violation("wrong-index", "%s: a fragment of entity %d of set %zu has index %d", what, idxOf(prims[o]), prims[o].sd, f.idx);
            if (idxToPrim.count(f.idx) && idxToPrim[f.idx] != o) sim::violation("index-collision", "%s: index %d is used for fragments of different entities", what, f.idx);
            if (primToIdx.count(o) && primToIdx[o] != f.idx && prims[o].twins.empty()) sim::violation("index-split", "%s: fragments of one entity have the indices %d and %d", what, primToIdx[o], f.idx);
            idxToPrim[f.idx] = o; primToIdx[o] = f.idx; area[o] += faceArea(f.shape);
            const Region r = region(prims[o]); for (auto& p : outline(f.shape)) if (r.outside(p) > 1e-4 * S + 2e-5) sim::violation("outside", "%s: a fragment sticks out of the region it is confined to by %.3g", what, r.outside(p));
        }
        std::size_t decided = 0;
        for (std::size_t i = 0; i < prims.size(); ++i) {
            sim::hashDouble(std::round(area[i] / (S * S) * 1e6));
            want[i] = areaIn(prims[i].s, region(prims[i])); const double A = prims[i].s.area();
            if (std::abs(want[i] - area[i]) > 2e-3 * A) sim::violation(area[i] < want[i] ? "area-lost" : "area-gained", "%s: the fragments of entity %zu (%s) have area %.6g, its part in the region has %.6g", what, i, prims[i].s.describe().c_str(), area[i], want[i]);
            ++decided;
        }
        // conforming: shared edges cover exactly the intersections
        std::vector<TopTools_IndexedMapOfShape> edges(prims.size()); for (std::size_t k = 0; k < frags.size(); ++k) TopExp::MapShapes(frags[k].shape, TopAbs_EDGE, edges[owner[k]]);
        for (std::size_t i = 0; i < prims.size(); ++i) for (std::size_t j = i + 1; j < prims.size(); ++j) {
            const Meet m = meet(prims[i].s, prims[j].s); if (m.state < 0) continue;
            double wantL = 0; V3 d{};
            if (m.state == 1) { d = unit(m.q - m.p); const Iv a = region(prims[i]).line(m.p, d, 0, m.length); for (auto [l, u] : a) wantL += ivLength(region(prims[j]).line(m.p, d, l, u)); }
            double got = 0;
            for (int e = 1; e <= edges[i].Extent(); ++e) if (edges[j].Contains(edges[i](e))) { if (BRep_Tool::Degenerated(TopoDS::Edge(edges[i](e)))) continue; got += edgeLength(edges[i](e)); }
            if (m.state == 1) sim::probe("intersecting-pair");
            if (std::abs(got - wantL) > 2e-3 * S) sim::violation("not-conforming", "%s: entities %zu and %zu intersect along %.5g but share edges of length %.5g", what, i, j, wantL, got);
        }
    }
};
inline std::vector<Frag> fragsOf(const TopTools_ListOfShape& l, const TopTools_DataMapOfShapeInteger& m, std::size_t sd, const char* what)
{
    std::vector<Frag> v; TopTools_MapOfShape uniq;
    for (const auto& s : l) { int idx = 0; if (m.IsBound(s)) idx = m.Find(s); v.push_back({ s, sd, idx }); uniq.Add(s); }
    if (m.Extent() != uniq.Extent()) sim::violation("index-map", "%s: the index map has %d entries for %d fragments", what, m.Extent(), uniq.Extent());
    return v;
}
// a shape that cannot be turned into a BRep shape
struct BadGeometry { static constexpr int myDimension() { return 2; } static constexpr int worldDimension() { return 3; } static std::string name() { return "Bad"; } using ctype = double; };
} // namespace wl
#endif
