// Independent reader of what the writers leave on disk: the .geo text, the .brep shape numbered the way the mesh generator does it.
#ifndef VERIF_GMSHFILE_HH
#define VERIF_GMSHFILE_HH
#include <filesystem>
#include "netgen.hh"
#include <fstream>
#include <BRepTools.hxx>
#include <BRep_Builder.hxx>
#include <TopoDS_Iterator.hxx>
#include <frackit/io/brepwriter.hh>
#include <frackit/io/gmshwriter.hh>
namespace wl {
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Numbered {
    TopTools_IndexedMapOfShape v, e, f, so, w, sh;
    void faceParts(const TopoDS_Shape& face)
    {
        for (TopExp_Explorer a(face.Oriented(TopAbs_FORWARD), TopAbs_WIRE); a.More(); a.Next()) if (w.FindIndex(a.Current()) < 1) { w.Add(a.Current());
            for (TopExp_Explorer b(a.Current(), TopAbs_EDGE); b.More(); b.Next()) if (e.FindIndex(b.Current()) < 1) { e.Add(b.Current());
                for (TopExp_Explorer c(b.Current(), TopAbs_VERTEX); c.More(); c.Next()) if (v.FindIndex(c.Current()) < 1) v.Add(c.Current()); } }
    }
    // the numbering of an imported shape: solids first, each with its shells, faces, wires, edges; then what is free
    explicit Numbered(const TopoDS_Shape& s)
    {
        for (TopExp_Explorer x(s, TopAbs_SOLID); x.More(); x.Next()) if (so.FindIndex(x.Current()) < 1) { so.Add(x.Current());
            for (TopExp_Explorer y(x.Current(), TopAbs_SHELL); y.More(); y.Next()) if (sh.FindIndex(y.Current()) < 1) { sh.Add(y.Current());
                for (TopExp_Explorer z(y.Current(), TopAbs_FACE); z.More(); z.Next()) if (f.FindIndex(z.Current()) < 1) { f.Add(z.Current()); faceParts(z.Current()); } } }
        for (TopExp_Explorer z(s, TopAbs_FACE, TopAbs_SHELL); z.More(); z.Next()) if (f.FindIndex(z.Current()) < 1) { f.Add(z.Current()); faceParts(z.Current()); }
        for (TopExp_Explorer b(s, TopAbs_EDGE, TopAbs_WIRE); b.More(); b.Next()) if (e.FindIndex(b.Current()) < 1) e.Add(b.Current());
    }
};
struct Geo {
    std::string merge; double sizeE = -1, sizeB = -1;
    std::map<std::string, std::map<long, std::vector<long>>> phys; // Volume/Surface/Line -> tag -> list
    std::map<std::string, std::vector<std::vector<long>>> lengths;  // Volume/Surface -> lists with a size
    std::map<std::string, std::string> sizeOf;
    static std::vector<long> list(const std::string& s, bool& ok)
    {
        std::vector<long> v; std::stringstream in(s); long x; char c; ok = (bool)(in >> x); if (ok) v.push_back(x);
        while (in >> c) { if (c != ',' || !(in >> x)) { ok = false; break; } v.push_back(x); }
        return v;
    }
    // returns an error or ""
    std::string parse(const std::string& text)
    {
        std::stringstream in(text); std::string l; bool ok;
        while (std::getline(in, l)) {
            if (l.empty() || l.rfind("//", 0) == 0) continue;
            if (l.back() != ';') return "incomplete line: " + l;
            if (l.rfind("Merge \"", 0) == 0) { merge = l.substr(7, l.size() - 9); continue; }
            if (l.rfind("sizeAtEntities = ", 0) == 0) { sizeE = atof(l.c_str() + 17); continue; }
            if (l.rfind("sizeAtBoundary = ", 0) == 0) { sizeB = atof(l.c_str() + 17); continue; }
            if (l.rfind("Physical ", 0) == 0) {
                auto p = l.find('('), q = l.find(") = {"), r = l.find("};"); if (p == l.npos || q == l.npos || r == l.npos) return "bad line: " + l;
                const std::string kind = l.substr(9, p - 9); const long tag = atol(l.substr(p + 1, q - p - 1).c_str()); auto v = list(l.substr(q + 5, r - q - 5), ok);
                if (!ok) return "bad list: " + l; if (phys[kind].count(tag)) return "group defined twice: " + l; phys[kind][tag] = v; continue;
            }
            if (l.rfind("Characteristic Length{ PointsOf{", 0) == 0) {
                auto p = l.find('{', 32), r = l.find("};} } = "); if (p == l.npos || r == l.npos) return "bad line: " + l;
                const std::string kind = l.substr(32, p - 32); auto v = list(l.substr(p + 1, r - p - 1), ok); if (!ok) return "bad list: " + l;
                const std::string size = l.substr(r + 8, l.size() - r - 9); if (sizeOf.count(kind) && sizeOf[kind] != size) return "mixed sizes: " + l; sizeOf[kind] = size; lengths[kind].push_back(v); continue;
            }
            return "unknown line: " + l;
        }
        return "";
    }
};
inline std::set<long> flat(const std::map<long, std::vector<long>>& m, const char* what, long n)
{
    std::set<long> s; for (auto& [t, v] : m) for (long x : v) { if (x < 1 || x > n) sim::violation("bad-tag", "physical %s %ld refers to number %ld, there are %ld", what, t, x, n); if (!s.insert(x).second) sim::violation("tag-twice", "%s number %ld belongs to two physical groups or twice to one", what, x); }
    return s;
}
// compares the files with the scene; geo may be null (only a .brep file was written)
inline void checkFiles(const std::string& brepText, const std::string* geoText, const std::string& name, double sizeE, double sizeB, const Scene& s, bool contained)
{
    OccDoubt doubt(s.prims, [&](const Prim& p) { return s.region(p); }, contained ? &s.doms : nullptr, s.S);
    TopoDS_Shape comp; { std::stringstream in(brepText); BRepTools::Read(comp, in, BRep_Builder()); if (comp.IsNull() || in.fail()) sim::violation("brep-unreadable", "the .brep file (%zu bytes) cannot be read", brepText.size()); }
    if (comp.ShapeType() != TopAbs_COMPOUND) sim::violation("brep-content", "the .brep file holds a shape of type %d", (int)comp.ShapeType());
    Numbered n(comp);
    // visible entities
    std::vector<Prim> vis; for (auto& p : s.prims) if (!contained || s.dom(p.sd) >= 0) vis.push_back(p);
    std::set<std::size_t> sets; for (auto& p : vis) sets.insert(p.sd);
    double total = 0, want = 0; for (int i = 1; i <= n.so.Extent(); ++i) total += solidVolume(n.so(i));
    if (contained) for (auto& d : s.doms) want += d.volume();
    if (std::abs(total - want) > 2e-3 * want + 1e-9 * s.S * s.S * s.S) sim::violation("brep-volume", "the solids of the .brep file have volume %.6g instead of %.6g", total, want);
    // each direct child of the compound is listed once
    { TopTools_MapOfShape u; for (TopoDS_Iterator it(comp); it.More(); it.Next()) if (!u.Add(it.Value())) sim::violation("brep-twice", "a sub-shape is listed twice in the .brep compound"); }
    if (!geoText) {
        // all faces but those of the domains' boundaries are entity fragments
        double a = 0, w = 0; for (int i = 1; i <= n.f.Extent(); ++i) { NetOracle o{ vis, [&](const Prim& p) { return s.region(p); }, [](const Prim&) { return 0; }, s.S }; if (o.locate(n.f(i)) >= 0) a += faceArea(n.f(i)); else if (!contained) sim::violation("brep-stray", "the .brep file holds a face that belongs to no entity"); }
        for (auto& p : vis) w += areaIn(p.s, s.region(p)); double A = 0; for (auto& p : vis) A += p.s.area();
        if (std::abs(a - w) > 2e-3 * A) sim::violation("brep-area", "the entity faces of the .brep file have area %.6g instead of %.6g", a, w);
        return;
    }
    Geo g; const std::string err = g.parse(*geoText); if (!err.empty()) sim::violation("geo-syntax", "%s", err.c_str());
    // Gmsh takes a file to be merged relative to the folder of the .geo file
    { namespace fs = std::filesystem; const fs::path m(g.merge), f(name);
      if (fs::absolute(m.is_absolute() ? m : f.parent_path() / m).lexically_normal() != fs::absolute(name + ".brep").lexically_normal()) sim::violation("geo-merge", "the .geo file merges '%s' in another folder or by another name", m.filename().string().c_str()); }
    if (std::abs(g.sizeE - sizeE) > 1e-5 * sizeE || std::abs(g.sizeB - sizeB) > 1e-5 * sizeB) sim::violation("geo-size", "mesh sizes %g and %g instead of %g and %g", g.sizeE, g.sizeB, sizeE, sizeB);
    for (auto& [k, v] : g.phys) if (k != "Volume" && k != "Surface" && k != "Line") sim::violation("geo-kind", "physical group of kind %s", k.c_str());
    // volumes
    auto vols = flat(g.phys["Volume"], "Volume", n.so.Extent()); if ((long)vols.size() != n.so.Extent()) sim::violation("volume-ungrouped", "%d of %d solids belong to no physical volume", n.so.Extent() - (int)vols.size(), n.so.Extent());
    std::set<std::size_t> ids; if (contained) ids.insert(s.domId.begin(), s.domId.end());
    for (auto& [t, l] : g.phys["Volume"]) {
        const int d = contained ? s.dom((std::size_t)t) : -1; if (d < 0) sim::violation("volume-id", "physical volume %ld belongs to no sub-domain", t);
        ids.erase((std::size_t)t); double v = 0; for (long x : l) { v += solidVolume(n.so((int)x)); for (auto& p : outline(n.so((int)x))) if (s.doms[d].outside(p) > 1e-4 * s.S + 2e-5) sim::violation("volume-wrong", "solid %ld is not in sub-domain %ld", x, t); }
        if (std::abs(v - s.doms[d].volume()) > 2e-3 * s.doms[d].volume()) sim::violation("volume-incomplete", "physical volume %ld has volume %.6g, the sub-domain %.6g", t, v, s.doms[d].volume());
    }
    if (!ids.empty()) sim::violation("volume-missing", "no physical volume for sub-domain %zu", *ids.begin());
    // surfaces
    auto surf = flat(g.phys["Surface"], "Surface", n.f.Extent()); std::vector<Frag> frags;
    for (auto& [t, l] : g.phys["Surface"]) for (long x : l) frags.push_back({ n.f((int)x), ~(std::size_t)0, (int)t });
    NetOracle o{ vis, [&](const Prim& p) { return s.region(p); }, [&](const Prim& p) { return sets.size() == 1 ? p.pos : 0; }, s.S }; o.check(frags, ".geo/.brep");
    for (int i = 1; i <= n.f.Extent(); ++i) if (!surf.count(i)) {
        if (!contained) sim::violation("surface-ungrouped", "face %d belongs to no physical surface", i);
        // entities of sets without sub-domain take part in the fragmentation but are not written
        NetOracle all{ s.prims, [&](const Prim& p) { return s.region(p); }, [](const Prim&) { return 0; }, s.S }; if (const int o = all.locate(n.f(i)); o >= 0 && s.dom(s.prims[o].sd) < 0) { sim::probe("face-of-unlisted-entity"); continue; }
        bool onB = false; for (auto& d : s.doms) { bool all = true; for (auto& p : outline(n.f(i))) if (std::abs(d.outside(p)) > 1e-4 * s.S + 2e-5) all = false; onB = onB || all; }
        if (!onB) sim::violation("surface-ungrouped", "face %d belongs to no physical surface although it is not on a sub-domain boundary", i);
    }
    // lines: exactly the edges shared by entity fragments
    std::map<int, int> use; for (auto& f : frags) { TopTools_IndexedMapOfShape m; TopExp::MapShapes(f.shape, TopAbs_EDGE, m); for (int i = 1; i <= m.Extent(); ++i) if (!BRep_Tool::Degenerated(TopoDS::Edge(m(i)))) use[n.e.FindIndex(m(i))]++; }
    auto lines = flat(g.phys["Line"], "Line", n.e.Extent()); std::set<long> shared; for (auto& [e, c] : use) if (c > 1) shared.insert(e);
    if (lines != shared) sim::violation("lines", "%zu edges are in physical lines, %zu edges are shared by entity fragments", lines.size(), shared.size());
    if (!lines.empty()) sim::probe("physical-lines"); if (contained) sim::probe("physical-volumes");
    // mesh sizes for exactly the groups
    for (const char* k : { "Volume", "Surface" }) {
        std::multiset<std::vector<long>> a, b; for (auto& [t, v] : g.phys[k]) a.insert(v); for (auto& v : g.lengths[k]) b.insert(v);
        if (a != b) sim::violation("geo-lengths", "mesh sizes are given for other %s groups than defined", k);
        if (!a.empty() && g.sizeOf[k] != (*k == 'V' ? "sizeAtBoundary" : "sizeAtEntities")) sim::violation("geo-lengths", "the mesh size of %s groups is %s", k, g.sizeOf[k].c_str());
    }
}
} // namespace wl
#endif
