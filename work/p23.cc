// P23: shapes handled in Python - boolean operations, sub-shapes, translations, files - keep their content.
#include "pyhost.hh"
#include "gmshfile.hh"
#include "entityshape.hh"
#include "diskplan.hh"
#include <unistd.h>
#include <frackit/python/geometry/brepwrapper.hh>
#include <BRepBndLib.hxx>
#include <BRepAlgoAPI_BuilderAlgo.hxx>
const char* simRealComponents = "frackit.occutilities (getShape, cut, intersect, fuse, fragment, translate, sub-shape getters, getBoundingBox, write, readShape), shape wrappers, computeMagnitude, the compiled bindings, the library and OpenCASCADE behind them, CPython";
const char* simStubComponents = "the user's script, geometries in general position, the disk (system calls below the streams follow a fault plan), heap placement";
const char* simRule = "a run is a history over a pool of wrapped shapes: primitives, boolean operations, translations, compounds, sub-shapes, files written and read under disk faults; every result is compared with a model in own arithmetic (cell decompositions of boxes, clipped planar shapes), shapes obtained earlier must not change; non-trivial: a result was judged";
using namespace wl; using namespace Frackit;
using ShapeW = Frackit::Python::ShapeWrapper; using SolidW = Frackit::Python::SolidWrapper; using FaceW = Frackit::Python::FaceWrapper; using CompW = Frackit::Python::CompoundWrapper; using ShellW = Frackit::Python::ShellWrapper; using WireW = Frackit::Python::WireWrapper; using EdgeW = Frackit::Python::EdgeWrapper; using VertexW = Frackit::Python::VertexWrapper;
void simWarmup() { wl::startPython({ "frackit.common", "frackit.precision", "frackit.geometry", "frackit.occutilities" }); }

struct B3 { V3 lo, hi; double vol() const { const V3 d = hi - lo; return d.x * d.y * d.z; } bool has(V3 p) const { return p.x > lo.x && p.x < hi.x && p.y > lo.y && p.y < hi.y && p.z > lo.z && p.z < hi.z; } };
using Cells = std::vector<B3>;
static double volume(const Cells& c) { double v = 0; for (auto& b : c) v += b.vol(); return v; }
static bool inside(const Cells& c, V3 p) { for (auto& b : c) if (b.has(p)) return true; return false; }
// cells of the common grid grouped into face-connected components of equal membership; membership 0 is dropped
static std::map<unsigned, std::vector<Cells>> atoms(const std::vector<Cells>& in)
{
    std::vector<double> X, Y, Z; for (auto& c : in) for (auto& b : c) { X.push_back(b.lo.x); X.push_back(b.hi.x); Y.push_back(b.lo.y); Y.push_back(b.hi.y); Z.push_back(b.lo.z); Z.push_back(b.hi.z); }
    for (auto* v : { &X, &Y, &Z }) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
    const int nx = std::max(0, (int)X.size() - 1), ny = std::max(0, (int)Y.size() - 1), nz = std::max(0, (int)Z.size() - 1); std::vector<unsigned> m(nx * ny * nz, 0); auto id = [&](int i, int j, int k) { return (i * ny + j) * nz + k; };
    auto cell = [&](int i, int j, int k) { return B3{ { X[i], Y[j], Z[k] }, { X[i + 1], Y[j + 1], Z[k + 1] } }; };
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) for (int k = 0; k < nz; ++k) { const B3 c = cell(i, j, k); const V3 p = 0.5 * (c.lo + c.hi); for (std::size_t s = 0; s < in.size(); ++s) if (inside(in[s], p)) m[id(i, j, k)] |= 1u << s; }
    std::map<unsigned, std::vector<Cells>> out; std::vector<char> seen(m.size(), 0);
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) for (int k = 0; k < nz; ++k) {
        const unsigned w = m[id(i, j, k)]; if (!w || seen[id(i, j, k)]) continue; Cells c; std::vector<std::array<int, 3>> st{ { i, j, k } }; seen[id(i, j, k)] = 1;
        while (!st.empty()) { const auto q = st.back(); st.pop_back(); c.push_back(cell(q[0], q[1], q[2])); for (int a = 0; a < 3; ++a) for (int d : { -1, 1 }) { auto r = q; r[a] += d; if (r[0] < 0 || r[1] < 0 || r[2] < 0 || r[0] >= nx || r[1] >= ny || r[2] >= nz) continue; const int t = id(r[0], r[1], r[2]); if (!seen[t] && m[t] == w) seen[t] = 1, st.push_back(r); } }
        out[w].push_back(c);
    }
    return out;
}
static std::vector<Cells> connected(const std::vector<Cells>& in, const std::function<bool(unsigned)>& keep) { Cells all; for (auto& [w, l] : atoms(in)) if (keep(w)) for (auto& c : l) all.insert(all.end(), c.begin(), c.end()); std::vector<Cells> r; if (all.empty()) return r; for (auto& [w, l] : atoms({ all })) for (auto& c : l) r.push_back(c); return r; }

struct Sig { std::size_t so, f, e, v; double vol, area; V3 lo, hi; };
static std::size_t distinct(const TopoDS_Shape& s, TopAbs_ShapeEnum t) { TopTools_IndexedMapOfShape m; TopExp::MapShapes(s, t, m); return m.Extent(); }
static Sig sig(const TopoDS_Shape& s)
{
    Sig g{ distinct(s, TopAbs_SOLID), distinct(s, TopAbs_FACE), distinct(s, TopAbs_EDGE), distinct(s, TopAbs_VERTEX), 0, 0, { 1e300, 1e300, 1e300 }, { -1e300, -1e300, -1e300 } };
    for (TopExp_Explorer x(s, TopAbs_SOLID); x.More(); x.Next()) g.vol += solidVolume(x.Current()); for (TopExp_Explorer x(s, TopAbs_FACE); x.More(); x.Next()) g.area += faceArea(x.Current());
    for (TopExp_Explorer x(s, TopAbs_VERTEX); x.More(); x.Next()) { const gp_Pnt p = BRep_Tool::Pnt(TopoDS::Vertex(x.Current())); g.lo = { std::min(g.lo.x, p.X()), std::min(g.lo.y, p.Y()), std::min(g.lo.z, p.Z()) }; g.hi = { std::max(g.hi.x, p.X()), std::max(g.hi.y, p.Y()), std::max(g.hi.z, p.Z()) }; }
    return g;
}
static bool same(const Sig& a, const Sig& b, double S) { auto near = [](double x, double y, double t) { return std::abs(x - y) <= t; }; return a.so == b.so && a.f == b.f && a.e == b.e && a.v == b.v && near(a.vol, b.vol, 1e-9 * S * S * S) && near(a.area, b.area, 1e-9 * S * S) && (a.v == 0 || (norm(a.lo - b.lo) < 1e-9 * S && norm(a.hi - b.hi) < 1e-9 * S)); }
// a wrapped shape (any wrapper or geometry) as OCC shape
static TopoDS_Shape occ(const py::object& o)
{
    if (py::isinstance<ShapeW>(o)) return o.cast<const ShapeW&>().get(); if (py::isinstance<SolidW>(o)) return o.cast<const SolidW&>().get(); if (py::isinstance<FaceW>(o)) return o.cast<const FaceW&>().get(); if (py::isinstance<CompW>(o)) return o.cast<const CompW&>().get();
    if (py::isinstance<ShellW>(o)) return o.cast<const ShellW&>().get(); if (py::isinstance<WireW>(o)) return o.cast<const WireW&>().get(); if (py::isinstance<EdgeW>(o)) return o.cast<const EdgeW&>().get(); if (py::isinstance<VertexW>(o)) return o.cast<const VertexW&>().get();
    if (py::isinstance<Box<double>>(o)) return OCCUtilities::getShape(o.cast<const Box<double>&>()); if (py::isinstance<FDisk>(o)) return OCCUtilities::getShape(o.cast<const FDisk&>()); if (py::isinstance<FQuad>(o)) return OCCUtilities::getShape(o.cast<const FQuad&>()); if (py::isinstance<FPoly>(o)) return OCCUtilities::getShape(o.cast<const FPoly&>());
    sim::violation("type", "an operation returned a %s", std::string(py::str(o.get_type())).c_str());
}
struct Val { py::object o; bool face = false; std::vector<Cells> parts; Shape s{}; double area = 0; bool whole = false; Sig ref; bool loose = false; std::string what; };
static double S; static V3 O;
static void judge(Val& v, const char* how)
{
    sim::probe("judged"); const TopoDS_Shape t = occ(v.o); const Sig g = sig(t); v.ref = g;
    if (v.face) { if (g.so) sim::violation("result", "%s: a planar shape became solid", how); if (std::abs(g.area - v.area) > 2e-3 * v.s.area()) sim::violation("result", "%s has area %.6g instead of %.6g", how, g.area, v.area); return; }
    double want = 0; for (auto& p : v.parts) want += volume(p); if (std::abs(g.vol - want) > 1e-6 * S * S * S) sim::violation("result", "%s has volume %.8g instead of %.8g", how, g.vol, want);
    if (v.parts.empty()) return; V3 lo{ 1e300, 1e300, 1e300 }, hi{ -1e300, -1e300, -1e300 }; for (auto& p : v.parts) for (auto& b : p) { lo = { std::min(lo.x, b.lo.x), std::min(lo.y, b.lo.y), std::min(lo.z, b.lo.z) }; hi = { std::max(hi.x, b.hi.x), std::max(hi.y, b.hi.y), std::max(hi.z, b.hi.z) }; }
    if (norm(g.lo - lo) > 1e-5 * S || norm(g.hi - hi) > 1e-5 * S) sim::violation("result", "%s spans (%.6g %.6g %.6g)-(%.6g %.6g %.6g) instead of (%.6g %.6g %.6g)-(%.6g %.6g %.6g)", how, g.lo.x, g.lo.y, g.lo.z, g.hi.x, g.hi.y, g.hi.z, lo.x, lo.y, lo.z, hi.x, hi.y, hi.z);
    // each solid is one of the parts
    if (v.loose) return; std::vector<char> used(v.parts.size(), 0);
    for (TopExp_Explorer x(t, TopAbs_SOLID); x.More(); x.Next()) { const Sig q = sig(x.Current()); bool found = false; for (std::size_t i = 0; i < v.parts.size() && !found; ++i) { V3 l{ 1e300, 1e300, 1e300 }, h{ -1e300, -1e300, -1e300 }; for (auto& b : v.parts[i]) { l = { std::min(l.x, b.lo.x), std::min(l.y, b.lo.y), std::min(l.z, b.lo.z) }; h = { std::max(h.x, b.hi.x), std::max(h.y, b.hi.y), std::max(h.z, b.hi.z) }; }
        if (!used[i] && std::abs(volume(v.parts[i]) - q.vol) < 1e-6 * S * S * S && norm(q.lo - l) < 1e-5 * S && norm(q.hi - h) < 1e-5 * S) used[i] = 1, found = true; } if (!found) sim::violation("result", "%s contains a solid of volume %.6g that it should not have", how, q.vol); }
    for (std::size_t i = 0; i < used.size(); ++i) if (!used[i]) sim::violation("result", "%s lacks a solid of volume %.6g", how, volume(v.parts[i]));
}
static Cells flatten(const std::vector<Cells>& p) { Cells c; for (auto& x : p) c.insert(c.end(), x.begin(), x.end()); return c; }
// no two faces of different arguments (nearly) coincide
static bool general(const std::vector<Cells>& in)
{
    for (int a = 0; a < 3; ++a) { std::vector<std::pair<double, int>> v; for (std::size_t s = 0; s < in.size(); ++s) for (auto& b : in[s]) for (V3 p : { b.lo, b.hi }) v.push_back({ a == 0 ? p.x : a == 1 ? p.y : p.z, (int)s }); std::sort(v.begin(), v.end()); for (std::size_t i = 0; i + 1 < v.size(); ++i) if (v[i + 1].second != v[i].second && v[i + 1].first - v[i].first < 2e-3 * S) return false; }
    return true;
}
static Val newBox()
{
    V3 lo, hi; for (int t = 0; t < 50; ++t) { lo = O + V3{ S * sim::real(0, 1), S * sim::real(0, 1), S * sim::real(0, 1) }; hi = lo + V3{ S * sim::real(0.2, 1), S * sim::real(0.2, 1), S * sim::real(0.2, 1) }; break; }
    Val v; Box<double> b(lo.x, lo.y, lo.z, hi.x, hi.y, hi.z); v.o = py::cast(b); v.parts = { { { lo, hi } } }; v.what = "box";
    auto u = mod("frackit.occutilities"); if (sim::chance(60)) pyMust("raises", "getShape()", [&] { v.o = u.attr("getShape")(v.o); }); if (sim::chance(30)) pyMust("raises", "OCCShapeWrapper()", [&] { v.o = u.attr("OCCShapeWrapper")(u.attr("getShape")(v.o)); });
    judge(v, "a box"); return v;
}
static Val newFace()
{
    Val v; v.face = v.whole = true; v.s = randomShape(O + V3{ S * .8, S * .8, S * .8 }, .5 * S, .3 * S, 1.4 * S, (int)sim::choose(3)); v.area = v.s.area(); v.o = v.s.kind == 0 ? py::cast(v.s.disk()) : v.s.kind == 1 ? py::cast(v.s.quad()) : py::cast(v.s.poly()); v.what = "face";
    if (sim::chance(50)) pyMust("raises", "getShape()", [&] { v.o = mod("frackit.occutilities").attr("getShape")(v.o); }); judge(v, "a planar shape"); return v;
}
// volume of the fragments according to OpenCASCADE called directly
static double fragmentsOfOCC(const std::vector<int>& a, std::vector<Val>& pool, double eps)
{
    TopTools_ListOfShape l; for (int j : a) { py::object o = pool[j].o; if (py::isinstance<Box<double>>(o)) o = mod("frackit.occutilities").attr("getShape")(o); l.Append(occ(o)); }
    BRepAlgoAPI_BuilderAlgo b; b.SetRunParallel(false); b.SetArguments(l); b.SetFuzzyValue(eps); b.Build(); return sig(b.Shape()).vol;
}
void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32)); auto u = mod("frackit.occutilities"); S = sim::chance(60) ? 1.0 : sim::chance(50) ? 200.0 : 0.1; O = sim::chance(60) ? V3{ 0, 0, 0 } : V3{ -7 * S, 12 * S, 3 * S }; const double eps = 1e-7 * S;
    std::vector<Val> pool; const int ops = 3 + (int)sim::choose(9); pool.push_back(newBox()); pool.push_back(newBox()); long files = 0;
    auto keep = [&](Val v) { if (pool.size() >= 6) pool.erase(pool.begin() + sim::choose(pool.size())); pool.push_back(std::move(v)); };
    auto pick = [&](bool face) { std::vector<int> c; for (std::size_t i = 0; i < pool.size(); ++i) if (pool[i].face == face) c.push_back((int)i); return c.empty() ? -1 : c[sim::choose(c.size())]; };
    for (int i = 0; i < ops; ++i) {
        sim::op();
        auto perform = [&](const std::string& what, auto&& f) { pyMust("raises", what.c_str(), f); };
        switch (sim::choose(9)) {
        case 0: keep(sim::chance(60) ? newBox() : newFace()); break;
        case 1: case 2: { // boolean operation on solids
            std::vector<int> a; const int n = 2 + (sim::chance(30) ? 1 : 0); for (int k = 0; k < n; ++k) { const int j = pick(false); if (j >= 0 && !pool[j].loose && pool[j].parts.size() == 1 && std::find(a.begin(), a.end(), j) == a.end()) a.push_back(j); }
            if (a.size() < 2) { keep(newBox()); break; } std::vector<Cells> in; for (int j : a) in.push_back(flatten(pool[j].parts)); if (!general(in)) { sim::probe("not-general"); break; }
            Val v; const int op = (int)sim::choose(4); if (op < 2) a.resize(2), in.resize(2); py::list l; for (int j : a) l.append(pool[j].o); static const char* nm[] = { "cut", "intersect", "fuse", "fragment" };
            v.parts = op == 0 ? connected(in, [](unsigned w) { return w == 1; }) : op == 1 ? connected(in, [](unsigned w) { return w == 3; }) : op == 2 ? connected(in, [](unsigned w) { return w != 0; }) : std::vector<Cells>(); if (op == 3) for (auto& [w, c] : atoms(in)) for (auto& x : c) v.parts.push_back(x);
            // the common part of touching components may come as one or several solids when they meet in edges only
            perform(nm[op], [&] { if (op < 2) v.o = u.attr(nm[op])(l[0], l[1], eps); else v.o = u.attr(nm[op])(l, eps); }); v.what = nm[op]; sim::state(sim::mix(sim::mix(op, v.parts.size()), a.size()));
            if (op == 3) { double want = 0; for (auto& p : v.parts) want += volume(p); const double got = sig(occ(v.o)).vol; if (std::abs(got - want) > 1e-6 * S * S * S && std::abs(got - fragmentsOfOCC(a, pool, eps)) < 1e-9 * S * S * S) { sim::probe("occ-duplicates"); break; } } // OpenCASCADE itself sometimes lists a common part twice
            judge(v, nm[op]); sim::log("%s of %zu: %zu solids", nm[op], a.size(), v.parts.size()); keep(v); break; }
        case 3: { // planar shape and solid
            int f = -1; for (std::size_t k = 0; k < pool.size(); ++k) if (pool[k].face && pool[k].whole) f = (int)k; if (f < 0) { keep(newFace()); f = (int)pool.size() - 1; } int b = -1; for (std::size_t k = 0; k < pool.size(); ++k) if (!pool[k].face && pool[k].parts.size() == 1 && pool[k].parts[0].size() == 1) b = (int)k; if (b < 0) { keep(newBox()); break; }
            wl::Domain d; d.kind = 0; d.lo = pool[b].parts[0][0].lo; d.hi = pool[b].parts[0][0].hi; if (!d.generic(pool[f].s, 2e-3 * S)) { sim::probe("not-general"); break; } Region r; r.everywhere = false; r.in = { d }; const double in = areaIn(pool[f].s, r);
            Val v; v.face = true; v.s = pool[f].s; const bool cut = sim::chance(50); v.area = cut ? v.s.area() - in : in; perform("boolean operation of a planar shape with a box", [&] { v.o = u.attr(cut ? "cut" : "intersect")(pool[f].o, pool[b].o, eps); }); judge(v, cut ? "a planar shape cut by a box" : "the part of a planar shape in a box"); sim::log("planar %s", cut ? "cut" : "intersect"); sim::probe("planar"); keep(v); break; }
        case 4: { // translation
            const int j = (int)sim::choose(pool.size()); Val v = pool[j]; const V3 d = V3{ S * sim::real(-.6, .6), S * sim::real(-.6, .6), S * sim::real(-.6, .6) }; py::object src = v.o; if (!py::isinstance<ShapeW>(src) && !py::isinstance<SolidW>(src) && !py::isinstance<FaceW>(src) && !py::isinstance<CompW>(src)) src = u.attr("getShape")(src);
            perform("translate()", [&] { v.o = u.attr("translate")(src, mod("frackit.geometry").attr("Vector_3")(d.x, d.y, d.z)); }); for (auto& p : v.parts) for (auto& b : p) b.lo = b.lo + d, b.hi = b.hi + d; v.s.c = v.s.c + d; const Sig old = pool[j].ref; judge(v, "a translated shape");
            if (v.ref.v && (norm(v.ref.lo - old.lo - d) > 1e-6 * S || norm(v.ref.hi - old.hi - d) > 1e-6 * S)) sim::violation("result", "a translated shape has moved by another vector"); sim::log("translated"); keep(v); break; }
        case 5: { // sub-shapes
            const int j = (int)sim::choose(pool.size()); py::object o = pool[j].o; if (py::isinstance<Box<double>>(o) || py::isinstance<FDisk>(o) || py::isinstance<FQuad>(o) || py::isinstance<FPoly>(o)) o = u.attr("getShape")(o); const TopoDS_Shape t = occ(o);
            static const char* nm[] = { "getSolids", "getShells", "getFaces", "getWires", "getEdges", "getVertices" }; static const TopAbs_ShapeEnum ty[] = { TopAbs_SOLID, TopAbs_SHELL, TopAbs_FACE, TopAbs_WIRE, TopAbs_EDGE, TopAbs_VERTEX }; const bool isFace = py::isinstance<FaceW>(o); const int k = isFace ? 2 + (int)sim::choose(4) : (int)sim::choose(6);
            auto sub = [&](const py::object& of, int k) { py::list l; perform(nm[k], [&] { l = py::list(u.attr(nm[k])(of)); }); const TopoDS_Shape base = occ(of); TopTools_IndexedMapOfShape want, got; TopExp::MapShapes(base, ty[k], want); for (auto x : l) { const TopoDS_Shape q = occ(py::reinterpret_borrow<py::object>(x)); if (q.IsNull() || q.ShapeType() != ty[k]) sim::violation("sub-shapes", "%s() returns another kind of shape", nm[k]); if (!want.Contains(q)) sim::violation("sub-shapes", "%s() returns a shape that is not part of the given one", nm[k]); got.Add(q); }
                if (got.Extent() != want.Extent()) sim::violation("sub-shapes", "%s() returns %d of %d sub-shapes", nm[k], got.Extent(), want.Extent()); return l; };
            py::list l = sub(o, k); sim::probe("sub-shapes"); sim::state(sim::mix(100 + k, std::min<std::size_t>(l.size(), 20)));
            if (l.size() && k < 5) sub(py::reinterpret_borrow<py::object>(l[sim::choose(l.size())]), k + 1 + (int)sim::choose(5 - k));
            if (k == 0 && l.size() && !pool[j].loose) { Val v; py::object one = l[sim::choose(l.size())]; const Sig q = sig(occ(one)); for (auto& p : pool[j].parts) if (std::abs(volume(p) - q.vol) < 1e-6 * S * S * S) { v.o = one; v.parts = { p }; } if (v.o) { bool unique = true; for (auto& p : pool[j].parts) if (&p != nullptr && std::abs(volume(p) - q.vol) < 1e-6 * S * S * S && !(std::abs(p[0].lo.x - v.parts[0][0].lo.x) < 1e-12 * S && p.size() == v.parts[0].size())) unique = false; if (unique) { judge(v, "an extracted solid"); keep(v); sim::probe("extracted"); } } }
            sim::log("%s: %zu", nm[k], (std::size_t)l.size()); break; }
        case 6: { // compound
            py::object c = u.attr("OCCCompoundWrapper")(); Val v; v.loose = true; v.o = c; const int n = 1 + (int)sim::choose(3); for (int k = 0; k < n; ++k) { const int j = pick(false); if (j < 0 || pool[j].parts.empty()) continue; py::object o = pool[j].o; if (py::isinstance<Box<double>>(o)) o = u.attr("getShape")(o); if (py::isinstance<CompW>(o)) o = u.attr("OCCShapeWrapper")(o); pyMust("raises", "adding to a compound", [&] { c.attr("add")(o); }); v.parts.insert(v.parts.end(), pool[j].parts.begin(), pool[j].parts.end()); }
            judge(v, "a compound"); sim::log("compound of %zu solids", v.parts.size()); keep(v); break; }
        case 7: { // bounding box, volume, and what is no shape
            const int j = pick(false); if (j >= 0 && !pool[j].parts.empty()) {
                py::object b; perform("getBoundingBox()", [&] { b = sim::chance(50) ? u.attr("getBoundingBox")(pool[j].o) : mod("frackit.geometry").attr("getBoundingBox")(pool[j].o); }); V3 lo{ 1e300, 1e300, 1e300 }, hi{ -1e300, -1e300, -1e300 }; for (auto& p : pool[j].parts) for (auto& q : p) { lo = { std::min(lo.x, q.lo.x), std::min(lo.y, q.lo.y), std::min(lo.z, q.lo.z) }; hi = { std::max(hi.x, q.hi.x), std::max(hi.y, q.hi.y), std::max(hi.z, q.hi.z) }; }
                auto g = [&](const char* n) { return b.attr(n)().cast<double>(); }; const V3 bl{ g("xMin"), g("yMin"), g("zMin") }, bh{ g("xMax"), g("yMax"), g("zMax") }; if (norm(bl - lo) > 1e-4 * S || norm(bh - hi) > 1e-4 * S) sim::violation("bounding-box", "a shape from (%g %g %g) to (%g %g %g) has the bounding box (%g %g %g)-(%g %g %g)", lo.x, lo.y, lo.z, hi.x, hi.y, hi.z, bl.x, bl.y, bl.z, bh.x, bh.y, bh.z); sim::probe("bounding-box"); }
            std::string err; if (sim::chance(30)) { if (!pyThrows([&] { u.attr("cut")(py::str("box"), pool[0].o, eps); }, err)) sim::violation("bad-argument", "a string is accepted as a shape"); sim::fault("no-shape"); } break; }
        default: { // files
            const int j = (int)sim::choose(pool.size()); Val v = pool[j]; const std::string file = sim::scratch() + "/s" + std::to_string(sim::chance(60) ? 0 : ++files) + ".brep"; std::string err, what; auto write = [&] { u.attr("write")(pool[j].o, file); };
            const int n = (int)sim::choose(3); std::string ref; { pyMust("write-raises", "an undisturbed write", write); ref = slurp(file); if (ref.empty()) sim::violation("silent-loss", "an undisturbed write left an empty file"); }
            for (int k = 0; k < n; ++k) {
                if (sim::chance(50)) unlink(file.c_str()); if (sim::chance(15)) { if (!pyThrows([&] { u.attr("write")(pool[j].o, sim::scratch() + "/missing/s.brep"); }, err)) sim::violation("silent-failure", "writing into a missing directory raises nothing"); sim::fault("missing-directory"); continue; }
                bool hard; const auto p = [&] { auto q = randomPlan((long)ref.size(), 1, what, hard); q.onlySuffix = nullptr; if (q.writeBudget >= 0) q.writeBudget %= (long)ref.size(); return q; }(); sim::disk(p); const bool threw = pyThrows(write, err); sim::diskOff(); const bool fired = sim::diskFaultFired();
                if (!threw && slurp(file) != ref) sim::violation("silent-loss", "%s: write() returned but the file has %zu of %zu bytes", what.c_str(), slurp(file).size(), ref.size()); if (!threw && hard && fired) sim::violation("silent-failure", "%s: the system reported an error but write() returned normally", what.c_str()); if (threw && (!fired || !hard)) sim::violation("write-raises", "%s: write() raised %s", fired ? what.c_str() : "undisturbed", err.c_str()); sim::log("%s: %s", what.c_str(), threw ? "error reported" : "written"); sim::state(sim::mix(std::hash<std::string>()(what), threw));
            }
            if (n) { pyMust("retry-raises", "a write after a disturbed one", write); if (slurp(file) != ref) sim::violation("retry-incomplete", "a write after a disturbed one is not complete"); }
            auto read = [&] { v.o = u.attr("readShape")(file); };
            if (sim::chance(30)) { sim::DiskPlan p; const int k = (int)sim::choose(4); if (k == 0) p.openErrno = EMFILE; else if (k == 3) p.shortReads = p.interrupts = 1; else { p.readBudget = (long)sim::choose(ref.find_last_not_of(" \n\r")); p.readErrno = k == 1 ? EIO : 0; } sim::disk(p); const bool threw = pyThrows(read, err); sim::diskOff(); const bool fired = sim::diskFaultFired(); if (k == 3 ? threw : threw && !fired) sim::violation("read-raises", "readShape() raised %s", err.c_str()); if (k < 3 && fired && !threw && !(k == 2 && same(sig(occ(v.o)), pool[j].ref, S))) sim::violation("silent-failure", "readShape() returned although the file could not be read"); sim::fault("read-fault"); }
            pyMust("read-raises", "an undisturbed read", read); judge(v, "a shape read back"); if (!same(v.ref, pool[j].ref, S)) sim::violation("wrong-shape", "a shape read back is not the one stored (%zu/%zu solids, %zu/%zu faces, %zu/%zu edges)", v.ref.so, pool[j].ref.so, v.ref.f, pool[j].ref.f, v.ref.e, pool[j].ref.e); sim::probe("read-back"); sim::log("stored and read back"); keep(v); break; }
        }
        for (auto& v : pool) if (!same(sig(occ(v.o)), v.ref, S)) sim::violation("shape-changed", "a %s obtained earlier changed", v.what.c_str());
    }
}
