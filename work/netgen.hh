// Simulated histories of filling builders with sub-domains and entities.
#ifndef VERIF_NETGEN_HH
#define VERIF_NETGEN_HH
#include "network.hh"
namespace wl {
struct Scene {
    double S = 1; V3 O; Arrangement arr; std::vector<Domain> doms; std::vector<std::size_t> domId; std::vector<char> confining; bool toUnion = true;
    std::vector<Prim> prims; std::map<std::size_t, int> count;
    int dom(std::size_t id) const { for (std::size_t i = 0; i < domId.size(); ++i) if (domId[i] == id) return (int)i; return -1; }
    Region region(const Prim& p) const
    {
        Region r; const int d = dom(p.sd); if (d < 0) return r;
        if (confining[d]) { r.everywhere = false; r.in = { doms[d] }; } else if (toUnion) { r.everywhere = false; r.in = doms; }
        return r;
    }
};
// ids that go into a Gmsh file are limited to its integers
inline int idBits = 63;
inline Scene randomScene(int maxDomains, int maxEntities, double scale = 0, bool none = false)
{
    Scene s; s.S = scale > 0 ? scale : sim::chance(60) ? 1.0 : sim::chance(50) ? 200.0 : 0.05; s.O = sim::chance(60) ? V3{ 0, 0, 0 } : V3{ 15 * s.S, -4 * s.S, 30 * s.S }; s.arr.S = s.S;
    const int nd = maxDomains > 0 ? 1 + (int)sim::choose(maxDomains) : 0;
    if (nd) s.doms = randomDomains(s.O, s.S, nd, true);
    s.domId = distinctIds(nd, idBits);
    for (int i = 0; i < nd; ++i) { s.confining.push_back(sim::chance(65)); }
    s.toUnion = !sim::chance(25);
    std::vector<std::size_t> sets = s.domId; if (nd == 0 || sim::chance(15)) sets.push_back(nd == 0 ? sim::choose(2) * 4 : 100);
    const int n = none ? 0 : 1 + (int)sim::choose(maxEntities); const double spread = s.S * sim::real(0.2, 0.9);
    for (int t = 0; t < 4 * n && (int)s.arr.shapes.size() < n; ++t) {
        V3 c = s.O; if (nd) { const auto& d = s.doms[sim::choose(nd)]; c = 0.5 * (d.lo + d.hi); }
        s.arr.tryAdd(randomShape(c, spread, 0.15 * s.S, 0.9 * s.S), s.doms);
    }
    // entities in the plane of a face of a sub-domain, for instance between two layers
    if (n && nd && sim::chance(25)) for (int t = 0; t < 4; ++t) {
        const auto& d = s.doms[sim::choose(nd)]; if (d.kind % 3) continue;
        Shape g = randomShape({ 0.5 * (d.lo.x + d.hi.x), 0.5 * (d.lo.y + d.hi.y), 0 }, spread, 0.15 * s.S, 0.9 * s.S); g.n = { 0, 0, sim::chance(50) ? 1.0 : -1.0 }; const double a = sim::real(0, 6.28); g.e1 = { std::cos(a), std::sin(a), 0 }; g.e2 = cross(g.n, g.e1); g.c.z = sim::chance(50) ? d.lo.z : d.hi.z;
        if (s.arr.tryAdd(g, s.doms)) sim::probe("flush-entity");
    }
    for (auto& g : s.arr.shapes) { Prim p{ g, sets[sim::choose(sets.size())], 0, {} }; p.asFace = sim::chance(12); if (p.asFace) p.face = faceOf(g); p.pos = ++s.count[p.sd]; s.prims.push_back(p); }
    return s;
}
inline void describe(const Scene& s)
{
    for (std::size_t i = 0; i < s.doms.size(); ++i) sim::log("sub-domain %zu: kind %d, volume %.5g, %s", s.domId[i], s.doms[i].kind, s.doms[i].volume(), s.confining[i] ? "confining" : s.toUnion ? "union" : "open");
    for (auto& p : s.prims) sim::log("entity %d of set %zu: %s%s", p.pos, p.sd, p.s.describe().c_str(), p.asFace ? " (as face)" : "");
}
// hands the scene to a builder; domains and entities in an interleaved order
template<class B> void fill(B& b, const Scene& s)
{
    std::vector<int> order; const bool late = sim::chance(30);
    for (std::size_t i = 0; i < s.doms.size(); ++i) if (!late || sim::chance(50)) order.push_back(-1 - (int)i);
    for (std::size_t i = 0; i < s.prims.size(); ++i) order.push_back((int)i);
    for (std::size_t i = 0; i < s.doms.size(); ++i) if (std::find(order.begin(), order.end(), -1 - (int)i) == order.end()) order.insert(order.begin() + sim::choose(order.size() + 1), -1 - (int)i);
    if (!s.toUnion || sim::chance(30)) b.setConfineToSubDomainUnion(s.toUnion);
    for (int k : order) { sim::op(); if (k < 0) s.doms[-1 - k].addTo(b, s.confining[-1 - k], s.domId[-1 - k]); else addPrim(b, s.prims[k]); }
}
inline void checkContained(const Frackit::ContainedEntityNetwork& net, const Scene& s, bool full = true)
{
    using Frackit::Id; OccDoubt doubt(s.prims, [&](const Prim& p) { return s.region(p); }, &s.doms, s.S);
    if ((s.prims.size() && net.entityDimension() != 2) || net.domainDimension() != 3) sim::violation("dimension", "entity dimension %d, domain dimension %d", net.entityDimension(), net.domainDimension());
    std::set<std::size_t> ids; for (auto id : net.subDomainIds()) if (!ids.insert(id.get()).second) sim::violation("ids", "sub-domain %zu is listed twice", id.get());
    if (ids != std::set<std::size_t>(s.domId.begin(), s.domId.end())) sim::violation("ids", "the network has %zu sub-domains, %zu were added", ids.size(), s.doms.size());
    std::vector<Frag> all;
    std::vector<Prim> visible;
    for (auto& p : s.prims) if (ids.count(p.sd)) visible.push_back(p);
    for (auto id : ids) {
        char w[64]; snprintf(w, sizeof w, "sub-domain %zu", id);
        auto f = fragsOf(net.subDomainEntityFragments(Id(id)), net.subDomainEntityFragmentsIndexMap(Id(id)), id, w); 
        std::vector<Prim> mine; for (auto& p : visible) if (p.sd == id) mine.push_back(p);
        NetOracle o{ mine, [&](const Prim& p) { return s.region(p); }, [](const Prim& p) { return p.pos; }, s.S }; o.check(f, w);
        all.insert(all.end(), f.begin(), f.end());
    }
    // across sub-domains: indices are local, so only conformity
    { std::vector<Frag> g; std::map<std::pair<std::size_t, int>, int> num; for (auto& f : all) { auto k = std::make_pair(f.sd, f.idx); if (!num.count(k)) { const int v = (int)num.size() + 1; num[k] = v; } g.push_back({ f.shape, f.sd, num[k] }); }
      NetOracle o{ visible, [&](const Prim& p) { return s.region(p); }, [](const Prim&) { return 0; }, s.S }; o.check(g, "contained network"); }
    // sub-domain fragments
    TopTools_MapOfShape seen; std::vector<TopTools_IndexedMapOfShape> bounding(s.doms.size());
    for (std::size_t d = 0; d < s.doms.size(); ++d) {
        double v = 0; TopTools_IndexedMapOfShape& faces = bounding[d];
        for (const auto& f : net.subDomainFragments(Id(s.domId[d]))) {
            if (f.ShapeType() != TopAbs_SOLID) sim::violation("domain-fragment-type", "a fragment of sub-domain %zu is a shape of type %d", s.domId[d], (int)f.ShapeType());
            if (!seen.Add(f)) sim::violation("domain-fragment-twice", "a fragment of sub-domain %zu is listed twice", s.domId[d]);
            v += solidVolume(f); TopExp::MapShapes(f, TopAbs_FACE, faces);
            for (auto& p : outline(f)) if (s.doms[d].outside(p) > 1e-4 * s.S + 2e-5) sim::violation("domain-outside", "a fragment of sub-domain %zu sticks out of it by %.3g", s.domId[d], s.doms[d].outside(p));
        }
        if (std::abs(v - s.doms[d].volume()) > 2e-3 * s.doms[d].volume()) sim::violation(v < s.doms[d].volume() ? "volume-lost" : "volume-gained", "the fragments of sub-domain %zu (kind %d) have volume %.6g, it has %.6g", s.domId[d], s.doms[d].kind, v, s.doms[d].volume());
        sim::hashDouble(std::round(v / (s.S * s.S * s.S) * 1e6));
        // entity fragments inside of the sub-domain are embedded in its fragments
        if (s.doms[d].kind % 3 == 0) for (auto& f : all) for (double z : { s.doms[d].lo.z, s.doms[d].hi.z }) {
            double in = -1e300, off = 0; for (auto& p : outline(f.shape)) { in = std::max(in, s.doms[d].outsideXY(p)); off = std::max(off, std::abs(p.z - z)); }
            if (off > 1e-6 * s.S || in > 1e-5 * s.S || s.doms[d].outsideXY(facePoint(f.shape)) > -1e-3 * s.S) continue;
            sim::probe("flush-fragment"); if (!faces.Contains(f.shape)) sim::violation("not-embedded", "an entity fragment on the boundary of sub-domain %zu is no face of its fragments: the mesh would not conform", s.domId[d]);
        }
        for (auto& f : all) {
            double in = -1e300; for (auto& p : outline(f.shape)) in = std::max(in, s.doms[d].outside(p));
            const V3 c = facePoint(f.shape); if (in > 1e-5 * s.S || s.doms[d].outside(c) > -1e-3 * s.S) continue;
            sim::probe("embedded-fragment");
            if (!faces.Contains(f.shape)) sim::violation("not-embedded", "an entity fragment inside of sub-domain %zu is no face of its fragments: the mesh would not conform", s.domId[d]);
        }
    }
    // neighbouring sub-domains share the faces between them
    for (std::size_t d = 0; d < s.doms.size(); ++d) for (std::size_t e = 0; e < s.doms.size(); ++e) {
        const Domain &a = s.doms[d], &b = s.doms[e]; if (d == e) continue; const bool filled = a.kind == 3 && b.kind == 2 && norm(a.c - b.c) < 1e-9 * s.S;
        if (!filled && (a.kind % 3 || b.kind % 3 || std::abs(a.hi.z - b.lo.z) > 1e-9 * s.S)) continue;
        const double want = filled ? 4 * M_PI * a.r * a.r : (std::min(a.hi.x, b.hi.x) - std::max(a.lo.x, b.lo.x)) * (std::min(a.hi.y, b.hi.y) - std::max(a.lo.y, b.lo.y)); double got = 0;
        for (int k = 1; k <= bounding[d].Extent(); ++k) if (bounding[e].Contains(bounding[d](k))) got += faceArea(bounding[d](k));
        sim::probe("neighbours"); if (std::abs(got - want) > 1e-3 * want) sim::violation("domains-not-conforming", "sub-domains %zu and %zu touch in an area of %.6g, the faces their fragments share have %.6g", s.domId[d], s.domId[e], want, got);
    }
}
} // namespace wl
#endif
