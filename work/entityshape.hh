// Models of entities as they come out of the library's samplers.
#ifndef VERIF_ENTITYSHAPE_HH
#define VERIF_ENTITYSHAPE_HH
#include "constraintmodel.hh"
#include "network.hh"
namespace wl {
inline Shape shapeOf(const FDisk& d) { Shape s; s.kind = 0; s.c = v3(d.center()); s.e1 = v3(d.majorAxis()); s.e2 = v3(d.minorAxis()); s.n = cross(s.e1, s.e2); s.a = d.majorAxisLength(); s.b = d.minorAxisLength(); s.R = s.a; return s; }
inline Shape cornered(const std::vector<V3>& v, int kind)
{
    Shape s; s.kind = kind; V3 c{}; for (auto& p : v) c = c + p; s.c = (1.0 / v.size()) * c; s.n = unit(cross(v[1] - v[0], v[2] - v[0])); s.e1 = unit(v[1] - v[0]); s.e2 = cross(s.n, s.e1); s.R = 0;
    s.raw = v; for (auto& p : v) { s.pts.push_back(s.in(p)); s.R = std::max(s.R, norm(p - s.c)); } return s;
}
inline Shape shapeOf(const FQuad& q) { return cornered({ v3(q.corner(0)), v3(q.corner(1)), v3(q.corner(3)), v3(q.corner(2)) }, 1); }
inline Shape shapeOf(const FPoly& q) { std::vector<V3> v; for (std::size_t i = 0; i < q.numCorners(); ++i) v.push_back(v3(q.corner(i))); return cornered(v, 2); }
inline std::vector<Shape> boxFaces(const Domain& d)
{
    std::vector<Shape> v; const V3 l = d.lo, h = d.hi;
    auto q = [&](V3 a, V3 b, V3 c, V3 e) { v.push_back(cornered({ a, b, c, e }, 1)); };
    for (double x : { l.x, h.x }) q({ x, l.y, l.z }, { x, h.y, l.z }, { x, h.y, h.z }, { x, l.y, h.z });
    for (double y : { l.y, h.y }) q({ l.x, y, l.z }, { h.x, y, l.z }, { h.x, y, h.z }, { l.x, y, h.z });
    for (double z : { l.z, h.z }) q({ l.x, l.y, z }, { h.x, l.y, z }, { h.x, h.y, z }, { l.x, h.y, z });
    return v;
}
// what OpenCASCADE itself, asked directly, yields for the area of an entity inside a domain
inline double occAreaIn(const Shape& s, const std::vector<Domain>& domains)
{
    TopTools_ListOfShape args, tools; args.Append(ownFace(s)); for (auto& d : domains) tools.Append(ownSolid(d));
    BRepAlgoAPI_Common c; c.SetArguments(args); c.SetTools(tools); c.Build(); if (!c.IsDone()) return -1; double a = 0;
    for (TopExp_Explorer e(c.Shape(), TopAbs_FACE); e.More(); e.Next()) { GProp_GProps g; BRepGProp::SurfaceProperties(e.Current(), g); a += g.Mass(); }
    return a;
}
// a contained area that differs from the exact one is not the library's fault if OpenCASCADE agrees with it
inline void judgeContainedArea(const Shape& s, const std::vector<Domain>& D, double area, double want)
{
    if (std::abs(area - want) <= 5e-3 * s.area()) return;
    if (std::abs(occAreaIn(s, D) - area) <= 1e-6 * s.area()) sim::discard("OpenCASCADE itself yields the same inaccurate contained area");
    sim::violation("contained-area", "the contained area of %s in the domain (%zu solids, kind %d) is computed as %.6g instead of %.6g", s.describe().c_str(), D.size(), D[0].kind, area, want);
}
} // namespace wl
#endif
