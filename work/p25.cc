// P25: networks of line entities (segments, edge shapes; a circle is handed over as an edge) in surfaces or solids.
#include "network.hh"
#include <BRep_Tool.hxx>
#include <TopoDS_Vertex.hxx>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/io/gmshwriter.hh>
#include <frackit/magnitude/containedmagnitude.hh>
#include <BRep_Builder.hxx>
#include <TopoDS_Compound.hxx>
const char* simRealComponents = "EntityNetworkBuilder, ContainedEntityNetworkBuilder, both network classes, getShape(), fuse(), default tolerances, OpenCASCADE boolean operations and maps, GmshWriter and BRepWriter";
const char* simStubComponents = "sub-domains and entities (chosen by the simulator), heap placement (decides the iteration order of the shape maps) and its failures, the disk";
const char* simRule = "a run fills a builder with segments and edge shapes (straight or circles) crossing, touching or joining each other in a plane, and with planar or solid sub-domains, in an interleaved order, with memory failures, rebuilds and inadmissible additions; lengths in the region, indices, shared vertices at every junction, areas or volumes of the sub-domains and the embedding are compared with independent geometry";
void simWarmup() {}
using namespace wl; using namespace Frackit;

struct Line1 {
    int kind = 0; V3 p, q; // segment; circle: center p, radius r in the plane of e1, e2
    double r = 0; V3 e1, e2; bool asEdge = false; std::size_t sd = 0; int pos = 0;
    double len() const { return kind ? 2 * M_PI * r : norm(q - p); }
    V3 at(double t) const { return kind ? p + r * (std::cos(2 * M_PI * t) * e1 + std::sin(2 * M_PI * t) * e2) : p + t * (q - p); }
    V3 tangent(double t) const { return kind ? -std::sin(2 * M_PI * t) * e1 + std::cos(2 * M_PI * t) * e2 : unit(q - p); }
    double dist(V3 x) const
    {
        if (kind) { const V3 d = x - p; const double a = dot(d, e1), b = dot(d, e2); const V3 in = a * e1 + b * e2; return std::hypot(norm(d - in), std::hypot(a, b) - r); }
        const V3 d = q - p; double t = dot(x - p, d) / dot(d, d); t = std::min(1.0, std::max(0.0, t)); return norm(p + t * d - x);
    }
    Segment<double, 3> seg() const { return Segment<double, 3>(fp(p), fp(q)); }
    Circle<double, 3> circle() const { return Circle<double, 3>(fp(p), fd(cross(e1, e2)), r); }
    TopoDS_Edge edge() const { if (kind) return OCCUtilities::getEdges(OCCUtilities::getShape(circle())).at(0); return OCCUtilities::getShape(seg()); }
};
struct Dom1 { bool solid = false; Shape s; Domain b; std::size_t id = 0; bool confining = true;
    double outside(V3 x) const { return solid ? b.outside(x) : s.signedDist(s.in(x)); }
    double measure() const { return solid ? b.volume() : s.area(); } };
struct Where { bool everywhere = true; std::vector<Dom1> in; double outside(V3 x) const { if (everywhere) return -1e300; double m = 1e300; for (auto& d : in) m = std::min(m, d.outside(x)); return m; } };

// parameters of the crossings of two coplanar curves
static std::vector<double> crossings(const Line1& a, const Line1& b, V3 n)
{
    std::vector<double> v;
    if (!a.kind && !b.kind) {
        const V3 d = a.q - a.p, e = b.q - b.p; const double det = dot(cross(d, e), n); if (std::abs(det) < 1e-12 * norm(d) * norm(e)) return v;
        const double t = dot(cross(b.p - a.p, e), n) / det, u = dot(cross(b.p - a.p, d), n) / det; if (t >= -1e-9 && t <= 1 + 1e-9 && u >= -1e-9 && u <= 1 + 1e-9) v.push_back(std::min(1.0, std::max(0.0, t)));
        return v;
    }
    // one is a circle: sign changes of the distance to it
    const Line1& c = a.kind ? (b.kind ? b : a) : b; const Line1& o = (&c == &b) ? a : b;
    auto f = [&](double t) { return norm(o.at(t) - c.p) - c.r; }; const int N = 720;
    for (int i = 0; i < N; ++i) {
        double l = (double)i / N, u = (double)(i + 1) / N; if ((f(l) < 0) == (f(u) < 0)) continue; const bool neg = f(l) < 0;
        for (int k = 0; k < 60; ++k) { const double m = 0.5 * (l + u); if ((f(m) < 0) == neg) l = m; else u = m; }
        const V3 x = o.at(0.5 * (l + u)); 
        if (&o == &a) v.push_back(0.5 * (l + u));
        else if (a.kind) { const V3 d = x - a.p; double t = std::atan2(dot(d, a.e2), dot(d, a.e1)) / (2 * M_PI); v.push_back(t < 0 ? t + 1 : t); }
        else v.push_back(std::min(1.0, std::max(0.0, dot(x - a.p, a.q - a.p) / dot(a.q - a.p, a.q - a.p))));
    }
    return v;
}
// length of the curve inside, or -1 if that is too close to call
static double lengthIn(const Line1& a, const Where& w, double tol)
{
    if (w.everywhere) return a.len();
    const int N = 1000; std::vector<double> g; for (int i = 0; i <= N; ++i) g.push_back(w.outside(a.at((double)i / N)));
    for (int i = 0; i <= N; ++i) { if (!a.kind && (i == 0 || i == N)) { if (std::abs(g[i]) < tol) return -1; continue; } const double l = g[i ? i - 1 : N - 1], u = g[i < N ? i + 1 : 1]; if (((g[i] <= l && g[i] <= u) || (g[i] >= l && g[i] >= u)) && std::abs(g[i]) < tol) return -1; }
    // the parts in each of the regions, then their union: narrow gaps between regions count
    std::vector<std::pair<double, double>> parts;
    for (auto& d : w.in) {
        double from = -1; double l0 = d.outside(a.at(0)); if (l0 < 0) from = 0;
        for (int i = 0; i < N; ++i) {
            const double l1 = d.outside(a.at((double)(i + 1) / N));
            if ((l0 < 0) != (l1 < 0)) { double l = (double)i / N, u = (double)(i + 1) / N; for (int k = 0; k < 50; ++k) { const double m = 0.5 * (l + u); if ((d.outside(a.at(m)) < 0) == (l0 < 0)) l = m; else u = m; } if (l1 < 0) from = l; else { parts.push_back({ from, l }); from = -1; } }
            l0 = l1;
        }
        if (from >= 0) parts.push_back({ from, 1.0 });
    }
    std::sort(parts.begin(), parts.end()); double s = 0, end = 0;
    for (auto& q : parts) { const double b = std::max(q.first, end); if (q.second > b) s += q.second - b; end = std::max(end, q.second); }
    return s * a.len();
}

struct Plan {
    double S = 1; V3 O, e1, e2, n; std::vector<Line1> lines; std::vector<Dom1> doms; bool toUnion = true; std::map<std::size_t, int> count;
    struct Junction { int i, j; V3 x; }; std::vector<Junction> junctions;
    Where where(const Line1& l) const
    {
        Where w; for (auto& d : doms) if (d.id == l.sd) { if (d.confining) { w.everywhere = false; w.in = { d }; } else if (toUnion) { w.everywhere = false; w.in = doms; } }
        return w;
    }
    V3 pt(double x, double y) const { return O + (S * x) * e1 + (S * y) * e2; }
    bool tryAdd(Line1 l, bool joined)
    {
        const double tol = 2e-3 * S; const int k = (int)lines.size(); std::vector<Junction> mine;
        for (auto& d : doms) { Where w; w.everywhere = false; w.in = { d }; if (lengthIn(l, w, tol) < 0) return false;
            for (int i = 0; i <= 1; ++i) if (std::abs(d.outside(l.at(i))) < tol) return false;
            // not nearly parallel to the boundary where it crosses it
            double last = d.outside(l.at(0)); for (int i = 1; i <= 400; ++i) { const double g = d.outside(l.at(i / 400.0)); if ((g < 0) != (last < 0) && std::abs(g - last) < 0.15 * l.len() / 400) return false; last = g; } }
        for (int i = 0; i < k; ++i) {
            for (double t : crossings(l, lines[i], n)) {
                const V3 x = l.at(t); double u = 0; if (lines[i].kind) { const V3 d = x - lines[i].p; u = std::atan2(dot(d, lines[i].e2), dot(d, lines[i].e1)) / (2 * M_PI); } else u = dot(x - lines[i].p, lines[i].q - lines[i].p) / dot(lines[i].q - lines[i].p, lines[i].q - lines[i].p);
                const double s = norm(cross(l.tangent(t), lines[i].tangent(u))); if (s < 0.2) return false;
                mine.push_back({ i, k, x });
            }
            // ends and seams close to the other curve, but not on it
            for (int e = 0; e <= 1; ++e) { const double d1 = lines[i].dist(l.at(e)), d2 = l.dist(lines[i].at(e)); for (double d : { d1, d2 }) if (d < tol && !(joined && d < 1e-9 * S)) return false; }
            // nearly touching elsewhere
            for (int m = 0; m <= 300; ++m) { const V3 x = l.at(m / 300.0); if (lines[i].dist(x) < tol) { double near = 1e300; for (auto& j : mine) if (j.i == i) near = std::min(near, norm(j.x - x)); if (near > 10 * tol) return false; } }
            if (l.kind && lines[i].kind && std::abs(std::abs(norm(l.p - lines[i].p)) - l.r - lines[i].r) < 10 * tol) return false;
        }
        for (auto& a : mine) { for (auto& b : junctions) if (norm(a.x - b.x) < 4 * tol && !(joined && norm(a.x - b.x) < 1e-9 * S)) return false; for (auto& b : mine) if (&a != &b && norm(a.x - b.x) < 4 * tol && !(joined && norm(a.x - b.x) < 1e-9 * S)) return false; for (auto& d : doms) if (std::abs(d.outside(a.x)) < tol) return false; }
        if (l.kind) for (auto& a : mine) if (norm(a.x - l.at(0)) < 4 * tol) return false;
        for (auto& a : mine) if (lines[a.i].kind && norm(a.x - lines[a.i].at(0)) < 4 * tol) return false;
        junctions.insert(junctions.end(), mine.begin(), mine.end()); l.pos = ++count[l.sd]; lines.push_back(l); return true;
    }
};

static double measureOf(const TopoDS_Shape& s, bool solid) { return solid ? solidVolume(s) : faceArea(s); }
struct Frag1 { TopoDS_Shape shape; std::size_t sd; int idx; };
static void judge(const Plan& P, const std::vector<Frag1>& frags, const std::vector<int>& which, const std::function<int(const Line1&)>& idxOf, const char* what, bool counted)
{
    const double S = P.S; std::vector<double> len(P.lines.size(), 0); std::vector<int> num(P.lines.size(), 0); std::vector<TopTools_IndexedMapOfShape> verts(P.lines.size()); TopTools_MapOfShape seen; std::map<int, int> idxToLine;
    for (auto& f : frags) {
        if (f.shape.IsNull() || f.shape.ShapeType() != TopAbs_EDGE) sim::violation("fragment-type", "%s: a fragment of a line entity is a shape of type %d", what, f.shape.IsNull() ? -1 : (int)f.shape.ShapeType());
        if (!seen.Add(f.shape)) sim::violation("fragment-twice", "%s: a fragment is listed twice", what);
        int o = -1; double bd = 1e300; const auto pts = outline(f.shape, 9);
        for (int i : which) { double d = 0; for (auto& p : pts) d = std::max(d, P.lines[i].dist(p)); if (d < bd) bd = d, o = i; }
        if (bd > 1e-4 * S) sim::violation("stray-fragment", "%s: a fragment of length %.4g lies on none of the entities", what, edgeLength(f.shape));
        if (f.sd != ~(std::size_t)0 && P.lines[o].sd != f.sd) sim::violation("wrong-set", "%s: a fragment of an entity of set %zu is listed under set %zu", what, P.lines[o].sd, f.sd);
        if (f.idx <= 0) sim::violation("no-index", "%s: a fragment has no primary entity index", what);
        if (idxOf(P.lines[o]) && f.idx != idxOf(P.lines[o])) sim::violation("wrong-index", "%s: a fragment of entity %d of set %zu has index %d", what, idxOf(P.lines[o]), P.lines[o].sd, f.idx);
        if (f.sd == ~(std::size_t)0) { if (idxToLine.count(f.idx) && idxToLine[f.idx] != o) sim::violation("index-collision", "%s: index %d is used for fragments of different entities", what, f.idx); idxToLine[f.idx] = o; }
        const Where w = P.where(P.lines[o]); for (auto& p : pts) if (w.outside(p) > 1e-4 * S) sim::violation("outside", "%s: a fragment sticks out of the region it is confined to by %.3g", what, w.outside(p));
        len[o] += edgeLength(f.shape); num[o]++; TopExp::MapShapes(f.shape, TopAbs_VERTEX, verts[o]);
    }
    for (int i : which) {
        const double want = lengthIn(P.lines[i], P.where(P.lines[i]), 0); sim::hashDouble(std::round(len[i] / S * 1e6));
        if (std::abs(want - len[i]) > 1e-4 * P.lines[i].len()) sim::violation(len[i] < want ? "length-lost" : "length-gained", "%s: the fragments of entity %d have length %.6g, its part in the region has %.6g", what, i, len[i], want);
    }
    for (auto& j : P.junctions) {
        if (std::find(which.begin(), which.end(), j.i) == which.end() || std::find(which.begin(), which.end(), j.j) == which.end()) continue;
        if (P.where(P.lines[j.i]).outside(j.x) > 0 || P.where(P.lines[j.j]).outside(j.x) > 0) continue;
        bool shared = false; for (int k = 1; k <= verts[j.i].Extent(); ++k) { if (!verts[j.j].Contains(verts[j.i](k))) continue; const auto p = BRep_Tool::Pnt(TopoDS::Vertex(verts[j.i](k))); shared = shared || norm(V3{ p.X(), p.Y(), p.Z() } - j.x) < 1e-4 * S; }
        sim::probe("junction"); if (!shared) sim::violation("not-conforming", "%s: the fragments of two entities do not share a vertex where these meet", what);
    }
    if (counted) for (int i : which) {
        if (P.lines[i].kind) continue; std::vector<V3> cuts;
        for (auto& j : P.junctions) if (j.i == i || j.j == i) { bool dup = norm(j.x - P.lines[i].p) < 1e-6 * S || norm(j.x - P.lines[i].q) < 1e-6 * S; for (auto& c : cuts) dup = dup || norm(c - j.x) < 1e-6 * S; if (!dup) cuts.push_back(j.x); }
        if (num[i] != (int)cuts.size() + 1) sim::violation("fragment-count", "%s: an entity met by others in %zu places has %d fragments", what, cuts.size(), num[i]);
    }
}
static std::vector<Frag1> listed(const TopTools_ListOfShape& l, const TopTools_DataMapOfShapeInteger& m, std::size_t sd) { std::vector<Frag1> v; for (const auto& s : l) v.push_back({ s, sd, m.IsBound(s) ? m.Find(s) : 0 }); return v; }

template<class B> static void addLine(B& b, const Line1& l) { const Id id(l.sd); if (l.asEdge || l.kind) b.addSubDomainEntity(l.edge(), id); else b.addSubDomainEntity(l.seg(), id); }
template<class B> static void addDom(B& b, const Dom1& d)
{
    auto add = [&](const auto& g) { if (d.confining) b.addConfiningSubDomain(g, Id(d.id)); else b.addSubDomain(g, Id(d.id)); };
    if (d.solid) add(d.b.box()); else if (d.s.kind == 0) add(d.s.disk()); else if (d.s.kind == 1) add(d.s.quad()); else add(d.s.poly());
}
template<class B> static void fill(B& b, const Plan& P)
{
    b.setConfineToSubDomainUnion(P.toUnion); std::vector<int> order; for (std::size_t i = 0; i < P.lines.size(); ++i) order.push_back((int)i);
    for (std::size_t i = 0; i < P.doms.size(); ++i) order.insert(order.begin() + sim::choose(order.size() + 1), -1 - (int)i);
    for (int k : order) {
        sim::op(); std::string err;
        if (sim::chance(8)) { // wrong dimension
            const bool any = !P.lines.empty(); int what = (int)sim::choose(2); bool threw = true;
            if (what == 0 && k != order.front()) threw = throws([&] { b.addSubDomainEntity(Box<double>(0, 0, 0, 1, 1, 1), Id(1)); }, err);
            else if (k != order.front()) { bool lines = false; for (int o : order) { if (o == k) break; lines = lines || o >= 0; } if (lines) threw = throws([&] { b.addSubDomain(Segment<double, 3>(fp(P.O), fp(P.O + P.e1)), Id(900)); }, err); }
            if (any && !threw) sim::violation("accepted", "an inadmissible addition (kind %d) was accepted", what);
        }
        const bool fail = sim::chance(6); if (fail) sim::failAllocation(1 + sim::choose(12), 1);
        const bool threw = throws([&] { if (k < 0) addDom(b, P.doms[-1 - k]); else addLine(b, P.lines[k]); }, err); const bool hit = fail && sim::allocationFailed(); sim::failAllocation(0, 0);
        if (threw && !hit) sim::violation("add-throws", "adding %s threw: %s", k < 0 ? "a sub-domain" : "a line entity", err.c_str());
        if (threw) { sim::fault("add-out-of-memory"); mustNotThrow("add-throws", "repeating a failed addition", [&] { if (k < 0) addDom(b, P.doms[-1 - k]); else addLine(b, P.lines[k]); }); }
    }
}
template<class B> static void build(B& b)
{
    const bool fail = sim::chance(15); if (fail) sim::failAllocation(1 + sim::choose(200), 1); std::string err;
    const bool threw = throws([&] { b.build(); }, err), hit = fail && sim::allocationFailed(); sim::failAllocation(0, 0);
    if (threw && !hit) sim::violation("build-throws", "build() of a network of lines threw: %s", err.c_str());
    if (threw) { sim::fault("build-out-of-memory"); if (b.isBuilt()) sim::violation("built-after-failure", "isBuilt() after a failed build"); }
    if (threw || sim::chance(10)) mustNotThrow("retry-throws", "building again", [&] { b.build(); });
}
// the length of an entity inside of a sub-domain, or of several at once
static void containedLength(const Plan& P)
{
    Line1 l = P.lines[sim::choose(P.lines.size())]; Where w; w.everywhere = false; double got = 0; const bool several = P.doms.size() > 1 && sim::chance(30); const int which = (int)sim::choose(P.doms.size()); bool close = false;
    if (!several && sim::chance(40)) { // a segment that ends shortly before or behind the boundary
        const Dom1& d = P.doms[which]; const double t = sim::real(0, 6.3); const V3 u = std::cos(t) * P.e1 + std::sin(t) * P.e2; const V3 c = d.solid ? 0.5 * (d.b.lo + d.b.hi) : d.s.c;
        const V3 a = c + (P.S * sim::real(-0.1, 0.1)) * P.e1 + (P.S * sim::real(-0.1, 0.1)) * P.e2; double in = 0, out = 4 * P.S;
        if (d.outside(a) < -0.05 * P.S && d.outside(a + out * u) > 0) {
            for (int k = 0; k < 60; ++k) { const double m = 0.5 * (in + out); if (d.outside(a + m * u) < 0) in = m; else out = m; }
            const double h = 0.01 * P.S; if ((d.outside(a + (in + h) * u) - d.outside(a + in * u)) > 0.4 * h && (d.outside(a + in * u) - d.outside(a + (in - h) * u)) > 0.4 * h) {
                l = Line1(); l.asEdge = sim::chance(30); l.p = a; l.q = a + (in + P.S * (sim::chance(50) ? 1 : -1) * 2e-5 * std::pow(100.0, sim::real(0, 1))) * u; if (sim::chance(50)) std::swap(l.p, l.q); close = true; sim::probe("contained-length-close");
            }
        }
    }
    auto in = [&](const auto& domain) {
        mustNotThrow("length-throws", "computing a contained length", [&] { got = l.asEdge ? computeContainedMagnitude(l.edge(), domain) : l.kind ? computeContainedMagnitude(l.circle(), domain) : computeContainedMagnitude(l.seg(), domain); });
    };
    auto shape = [](const Dom1& d) -> TopoDS_Shape { if (d.solid) return OCCUtilities::getShape(d.b.box()); if (d.s.kind == 0) return OCCUtilities::getShape(d.s.disk()); if (d.s.kind == 1) return OCCUtilities::getShape(d.s.quad()); return OCCUtilities::getShape(d.s.poly()); };
    if (several) { TopoDS_Compound c; BRep_Builder b; b.MakeCompound(c); for (auto& d : P.doms) b.Add(c, shape(d)); w.in = P.doms; if (l.kind || l.asEdge || sim::chance(50)) in(static_cast<const TopoDS_Shape&>(c)); else in(c); }
    else {
        const Dom1& d = P.doms[which]; w.in = { d };
        if (sim::chance(30)) { if (d.solid) in(TopoDS::Solid(shape(d))); else in(TopoDS::Face(shape(d))); }
        else if (d.solid) in(d.b.box()); else if (d.s.kind == 0) in(d.s.disk()); else if (d.s.kind == 1) in(d.s.quad()); else in(d.s.poly());
    }
    const double want = lengthIn(l, w, 0); sim::hashDouble(std::round(got / P.S * 1e6)); sim::probe(want == 0 ? "contained-length-zero" : want > 0.999 * l.len() ? "contained-length-all" : "contained-length"); if (several) sim::probe("contained-length-several");
    if (std::abs(want - got) > (close ? 5e-6 * P.S : 1e-4 * l.len())) sim::violation("contained-length", "the length of %s %d (%.6g) inside %s is computed as %.6g, it is %.6g", l.kind ? "circle" : "segment", l.pos, l.len(), several ? "all sub-domains" : "a sub-domain", got, want);
}

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    Plan P; P.S = sim::chance(60) ? 1.0 : sim::chance(50) ? 100.0 : 0.05; P.O = sim::chance(60) ? V3{ 0, 0, 0 } : V3{ 9 * P.S, -4 * P.S, 2 * P.S };
    P.n = sim::chance(50) ? V3{ 0, 0, 1 } : randUnit(); P.e1 = sim::chance(50) && std::abs(P.n.z) == 1 ? V3{ 1, 0, 0 } : anyOrtho(P.n); P.e2 = cross(P.n, P.e1);
    const int nd = (int)sim::choose(4); const bool solid = sim::chance(35); const bool stacked = sim::chance(50); const auto ids = distinctIds(nd); double x = -0.5 * nd;
    if (solid) { auto v = nd ? randomDomains(P.O, P.S, nd) : std::vector<Domain>(); for (int i = 0; i < nd; ++i) { Dom1 d; d.solid = true; d.b = v[i]; d.b.kind = 0; d.id = ids[i]; d.confining = sim::chance(65); P.doms.push_back(d); } }
    else for (int i = 0; i < nd; ++i) {
        Dom1 d; d.id = ids[i]; d.confining = sim::chance(65); Shape& s = d.s; const double w = sim::real(0.6, 1), h = sim::real(0.4, 0.8);
        if (stacked) { s.kind = sim::chance(70) ? 1 : 2; s.c = P.pt(x + 0.5 * w, 0); s.e1 = P.e1; s.e2 = P.e2; s.n = P.n; for (V2 c : { V2{ -0.5 * w, -h }, V2{ 0.5 * w, -h }, V2{ 0.5 * w, h }, V2{ -0.5 * w, h } }) s.pts.push_back({ P.S * c.x, P.S * c.y }); s.R = P.S * std::hypot(0.5 * w, h); x += w; }
        else { s = randomShape(P.pt(x + 0.5, 0), 0, 0.3 * P.S, 0.48 * P.S); const double a = sim::real(0, 6); s.n = P.n; s.e1 = unit(rot(P.e1, P.n, a)); s.e2 = cross(s.n, s.e1); x += 1; }
        P.doms.push_back(d);
    }
    P.toUnion = !sim::chance(25); std::vector<std::size_t> sets = ids; const bool contained = nd && sim::chance(60); if (!nd || (!contained && sim::chance(15))) sets.push_back(nd ? 100 : sim::choose(2) * 4);
    const int n = 1 + (int)sim::choose(7);
    for (int t = 0; t < 5 * n && (int)P.lines.size() < n; ++t) {
        Line1 l; l.e1 = P.e1; l.e2 = P.e2; l.sd = sets[sim::choose(sets.size())]; l.asEdge = sim::chance(15); l.kind = sim::chance(20); bool joined = false;
        auto any = [&] { return P.pt(sim::real(-0.6 - 0.4 * nd, 0.6 + 0.4 * nd), sim::real(-0.9, 0.9)); };
        l.p = any(); l.r = P.S * sim::real(0.1, 0.6);
        if (!l.kind) {
            l.q = any(); const int how = (int)sim::choose(8);
            if (!P.lines.empty() && how < 3) { const Line1& o = P.lines[sim::choose(P.lines.size())]; if (!o.kind) { joined = true; l.p = how == 0 ? o.q : how == 1 ? o.p : o.at(sim::real(0.2, 0.8)); } }
            if (norm(l.q - l.p) < 0.2 * P.S) continue;
        } else { const double ph = 0; (void)ph; // the library's basis of a circle follows from its normal
            const auto c = l.circle(); l.e1 = v3(c.base1()); l.e2 = v3(c.base2()); }
        if (P.tryAdd(l, joined) && joined) sim::probe("joined");
    }
    if (P.lines.empty()) sim::discard("no entities");
    for (auto& d : P.doms) sim::log("sub-domain %zu: %s, measure %.4g, %s", d.id, d.solid ? "box" : d.s.describe().c_str(), d.measure(), d.confining ? "confining" : P.toUnion ? "union" : "open");
    for (auto& l : P.lines) sim::log("%s %d of set %zu: (%.4g %.4g %.4g) - (%.4g %.4g %.4g) r=%.4g%s", l.kind ? "circle" : "segment", l.pos, l.sd, l.p.x, l.p.y, l.p.z, l.q.x, l.q.y, l.q.z, l.r, l.asEdge ? " (edge)" : "");
    sim::state(sim::mix(sim::mix(nd * 4 + solid * 2 + contained, P.lines.size()), P.junctions.size())); sim::log("%zu junctions, %s", P.junctions.size(), contained ? "contained" : "plain");
    if (nd && sim::chance(60)) containedLength(P);
    std::vector<int> all; for (std::size_t i = 0; i < P.lines.size(); ++i) all.push_back((int)i);
    auto refuse = [&](const auto& net) { std::string err; if (!throws([&] { GmshWriter w(net); (void)w; }, err)) sim::violation("written", "a writer for planar entities accepted a network of lines"); sim::probe("writer-refuses"); };
    if (!contained) {
        EntityNetworkBuilder<double> b; fill(b, P); build(b); const auto& net = b.network();
        if (net.entityDimension() != 1) sim::violation("dimension", "entity dimension %d", net.entityDimension());
        judge(P, listed(net.entityFragments(), net.entityFragmentsIndexMap(), ~(std::size_t)0), all, [&](const Line1& l) { return P.count.size() == 1 ? l.pos : 0; }, "network", nd == 0);
        refuse(net); return;
    }
    ContainedEntityNetworkBuilder<double> b; fill(b, P); build(b); const auto& net = b.network();
    if (net.entityDimension() != 1 || net.domainDimension() != (solid ? 3 : 2)) sim::violation("dimension", "entity dimension %d, domain dimension %d", net.entityDimension(), net.domainDimension());
    std::vector<Frag1> frags; for (auto& d : P.doms) { auto f = listed(net.subDomainEntityFragments(Id(d.id)), net.subDomainEntityFragmentsIndexMap(Id(d.id)), d.id); frags.insert(frags.end(), f.begin(), f.end()); }
    judge(P, frags, all, [](const Line1& l) { return l.pos; }, "contained network", false);
    TopTools_MapOfShape seen;
    for (auto& d : P.doms) {
        double v = 0; TopTools_IndexedMapOfShape edges;
        for (const auto& f : net.subDomainFragments(Id(d.id))) {
            if (f.ShapeType() != (d.solid ? TopAbs_SOLID : TopAbs_FACE)) sim::violation("domain-fragment-type", "a fragment of sub-domain %zu is a shape of type %d", d.id, (int)f.ShapeType());
            if (!seen.Add(f)) sim::violation("domain-fragment-twice", "a fragment of sub-domain %zu is listed twice", d.id);
            v += measureOf(f, d.solid); TopExp::MapShapes(f, TopAbs_EDGE, edges);
            for (auto& p : outline(f)) if (d.outside(p) > 1e-4 * P.S && !(false)) sim::violation("domain-outside", "a fragment of sub-domain %zu sticks out of it by %.3g", d.id, d.outside(p));
        }
        if (std::abs(v - d.measure()) > 1e-4 * d.measure()) sim::violation(v < d.measure() ? "measure-lost" : "measure-gained", "the fragments of sub-domain %zu measure %.6g, it measures %.6g", d.id, v, d.measure());
        for (auto& f : frags) {
            double in = -1e300; for (auto& p : outline(f.shape)) in = std::max(in, d.outside(p)); BRepAdaptor_Curve c(TopoDS::Edge(f.shape)); const auto m = c.Value(0.5 * (c.FirstParameter() + c.LastParameter()));
            if (in > 1e-5 * P.S || d.outside({ m.X(), m.Y(), m.Z() }) > -1e-3 * P.S) continue;
            sim::probe(d.solid ? "embedded-in-solid" : "embedded-in-face"); if (!edges.Contains(f.shape)) sim::violation("not-embedded", "a fragment inside of the %s sub-domain %zu is no edge of its fragments: the mesh would not conform", d.solid ? "solid" : "planar", d.id);
        }
    }
    refuse(net);
}
