// Planar convex shapes with an independent description and the exact/bracketed geometry the oracles need.
#ifndef VERIF_SHAPES_HH
#define VERIF_SHAPES_HH
#include "common.hh"
#include <optional>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
namespace wl {
using FDisk = Frackit::Disk<double>; using FQuad = Frackit::Quadrilateral<double, 3>; using FPoly = Frackit::Polygon<double, 3>;
struct V2 { double x, y; };

struct Shape {
    int kind = 0;             // 0 disk, 1 quadrilateral, 2 polygon
    V3 c, e1, e2, n;          // centre, in-plane orthonormal basis, normal
    double a = 1, b = 1;      // disk axes
    std::vector<V2> pts;      // convex, counter clockwise
    double R = 1;             // bounding radius about c
    std::vector<V3> raw;      // the corners as given (if known)
    V3 at(V2 p) const { return c + p.x * e1 + p.y * e2; }
    V2 in(V3 q) const { const V3 d = q - c; return { dot(d, e1), dot(d, e2) }; }
    double off(V3 q) const { return dot(q - c, n); }

    // closest point on the ellipse boundary
    V2 ellipseBoundary(V2 p) const
    {
        double y0 = std::abs(p.x), y1 = std::abs(p.y), x0, x1;
        if (y1 < 1e-14 * b) {
            const double den = a * a - b * b, num = a * y0;
            if (num < den) { const double t = num / den; x0 = a * t; x1 = b * std::sqrt(std::max(0.0, 1 - t * t)); }
            else { x0 = a; x1 = 0; }
        } else if (y0 < 1e-14 * a) { x0 = 0; x1 = b; }
        else {
            const double z0 = y0 / a, z1 = y1 / b, r0 = (a / b) * (a / b);
            double s0 = z1 - 1, s1 = std::sqrt(r0 * r0 * z0 * z0 + z1 * z1) - 1; double s = 0;
            if (s1 < s0) std::swap(s0, s1);
            for (int i = 0; i < 200; ++i) { s = 0.5 * (s0 + s1); if (s == s0 || s == s1) break; const double q0 = r0 * z0 / (s + r0), q1 = z1 / (s + 1), g = q0 * q0 + q1 * q1 - 1; if (g > 0) s0 = s; else if (g < 0) s1 = s; else break; }
            x0 = r0 * y0 / (s + r0); x1 = y1 / (s + 1);
        }
        return { p.x < 0 ? -x0 : x0, p.y < 0 ? -x1 : x1 };
    }
    bool inside(V2 p) const
    {
        if (kind == 0) return p.x * p.x / (a * a) + p.y * p.y / (b * b) <= 1;
        for (size_t i = 0; i < pts.size(); ++i) { const V2 u = pts[i], v = pts[(i + 1) % pts.size()]; if ((v.x - u.x) * (p.y - u.y) - (v.y - u.y) * (p.x - u.x) < 0) return false; }
        return true;
    }
    V2 boundary(V2 p) const
    {
        if (kind == 0) return ellipseBoundary(p);
        V2 best{}; double bd = 1e300;
        for (size_t i = 0; i < pts.size(); ++i) {
            const V2 u = pts[i], v = pts[(i + 1) % pts.size()]; const double dx = v.x - u.x, dy = v.y - u.y;
            double t = ((p.x - u.x) * dx + (p.y - u.y) * dy) / (dx * dx + dy * dy); t = std::min(1.0, std::max(0.0, t));
            const V2 q{ u.x + t * dx, u.y + t * dy }; const double d = std::hypot(q.x - p.x, q.y - p.y); if (d < bd) bd = d, best = q;
        }
        return best;
    }
    double boundaryDist(V2 p) const { const V2 q = boundary(p); return std::hypot(q.x - p.x, q.y - p.y); }
    // signed: negative inside
    double signedDist(V2 p) const { const double d = boundaryDist(p); return inside(p) ? -d : d; }
    V3 project(V3 q) const { V2 p = in(q); if (!inside(p)) p = boundary(p); return at(p); }
    // support: max over the shape of v.x
    double support(V3 v) const
    {
        const double p = dot(v, e1), q = dot(v, e2);
        if (kind == 0) return dot(v, c) + std::sqrt(a * a * p * p + b * b * q * q);
        double m = -1e300; for (auto& t : pts) m = std::max(m, p * t.x + q * t.y); return dot(v, c) + m;
    }
    double area() const
    {
        if (kind == 0) return M_PI * a * b;
        double s = 0; for (size_t i = 0; i < pts.size(); ++i) { const V2 u = pts[i], v = pts[(i + 1) % pts.size()]; s += u.x * v.y - u.y * v.x; } return 0.5 * s;
    }
    // parameter interval of the in-plane line p + t d (|d| = 1) inside the shape; graze: undecided
    bool clip(V2 p, V2 d, double& lo, double& hi, double tol, bool& graze) const
    {
        graze = false;
        // distance of the line from the shape by support in the line normal
        const V2 m{ -d.y, d.x }; const double o = m.x * p.x + m.y * p.y; double smax, smin;
        if (kind == 0) { smax = std::sqrt(a * a * m.x * m.x + b * b * m.y * m.y); smin = -smax; }
        else { smax = -1e300; smin = 1e300; for (auto& t : pts) { const double q = m.x * t.x + m.y * t.y; smax = std::max(smax, q); smin = std::min(smin, q); } }
        if (o > smax + tol || o < smin - tol) return false;
        if (o > smax - tol || o < smin + tol) { graze = true; return false; }
        if (kind == 0) {
            const double A = d.x * d.x / (a * a) + d.y * d.y / (b * b), B = p.x * d.x / (a * a) + p.y * d.y / (b * b), C = p.x * p.x / (a * a) + p.y * p.y / (b * b) - 1;
            const double D = B * B - A * C; if (D <= 0) { graze = true; return false; }
            lo = (-B - std::sqrt(D)) / A; hi = (-B + std::sqrt(D)) / A; return true;
        }
        lo = -1e300; hi = 1e300;
        for (size_t i = 0; i < pts.size(); ++i) {
            const V2 u = pts[i], v = pts[(i + 1) % pts.size()]; const double nx = v.y - u.y, ny = -(v.x - u.x); // outward
            const double num = nx * (u.x - p.x) + ny * (u.y - p.y), den = nx * d.x + ny * d.y;
            if (std::abs(den) < 1e-14) continue;
            if (den > 0) hi = std::min(hi, num / den); else lo = std::max(lo, num / den);
        }
        return lo < hi;
    }
    std::string describe() const
    {
        char t[256]; snprintf(t, sizeof t, "%s c=(%.4g %.4g %.4g) n=(%.4g %.4g %.4g) R=%.4g", kind == 0 ? "disk" : kind == 1 ? "quad" : "polygon", c.x, c.y, c.z, n.x, n.y, n.z, R); return t;
    }
    FDisk disk() const { return FDisk(fp(c), fd(e1), fd(e2), a, b); }
    FQuad quad() const { return FQuad(fp(at(pts[0])), fp(at(pts[1])), fp(at(pts[3])), fp(at(pts[2]))); }
    FPoly poly() const { std::vector<FPoint> v; for (auto& p : pts) v.push_back(fp(at(p))); return FPoly(v); }
};

// kind < 0: simulator's choice
inline Shape randomShape(V3 center, double spread, double sizeLo, double sizeHi, int kind = -1)
{
    Shape s; s.kind = kind < 0 ? (int)sim::choose(3) : kind;
    s.n = randUnit(); s.e1 = anyOrtho(s.n); if (sim::chance(70)) s.e1 = unit(rot(s.e1, s.n, sim::real(0, 2 * M_PI))); s.e2 = cross(s.n, s.e1);
    s.c = center + V3{ sim::real(-spread, spread), sim::real(-spread, spread), sim::real(-spread, spread) };
    const double L = sim::real(sizeLo, sizeHi);
    if (s.kind == 0) { s.a = L; s.b = L * (sim::chance(20) ? 1.0 : sim::real(0.3, 1)); s.R = L; }
    else {
        // corners on an ellipse, by increasing angle: convex; gaps bounded away from zero and pi
        const int m = s.kind == 1 ? 4 : 3 + (int)sim::choose(6); const double asp = sim::real(0.4, 1), ph = sim::real(0, 2 * M_PI); double sum = 0; std::vector<double> g(m);
        for (auto& x : g) { x = 1 + (m > 3 ? sim::real(0, 0.8) : sim::real(0, 0.4)); sum += x; }
        double t = ph; for (int i = 0; i < m; ++i) { s.pts.push_back({ L * std::cos(t), L * asp * std::sin(t) }); t += 2 * M_PI * g[i] / sum; }
        s.R = L;
    }
    return s;
}

// moves s such that the plane of one shape nearly meets a corner of the other
inline void nudge(Shape& s, const Shape& o, double scale)
{
    const double d = scale * std::pow(10.0, sim::real(-10, -3.5)) * (sim::chance(50) ? 1 : -1);
    const bool own = s.kind && (!o.kind || sim::chance(50)); const Shape& x = own ? s : o; if (!x.kind) return;
    const V3 p = x.at(x.pts[sim::choose(x.pts.size())]);
    if (own) s.c = s.c + (d - o.off(p)) * o.n; else s.c = s.c + (s.off(p) + d) * s.n;
}

// A contact: one corner (or one edge) of s lies on a surface with normal up in p, the rest of s on its upper side.
struct Contact { bool edge = false; V3 p, q; double rise = 0; };
inline Contact rest(Shape& s, V3 p, V3 up, bool edge, double minRise)
{
    Contact t; t.edge = edge; const size_t n = s.pts.size(), k = sim::choose(n);
    auto out = [&](size_t i) { const V2 u = s.pts[i % n], v = s.pts[(i + 1) % n]; const double l = std::hypot(v.x - u.x, v.y - u.y); return V2{ (v.y - u.y) / l, -(v.x - u.x) / l }; };
    V2 w = out(k); if (!edge) { const V2 b = out(k + n - 1); const double f = sim::real(0.3, 0.7); w = { (1 - f) * w.x + f * b.x, (1 - f) * w.y + f * b.y }; const double l = std::hypot(w.x, w.y); w = { w.x / l, w.y / l }; }
    const V3 a = rot(anyOrtho(up), up, sim::real(0, 6.28)), c = cross(up, a); const double phi = sim::chance(20) ? M_PI / 2 : sim::real(minRise, M_PI - minRise); t.rise = std::min(phi, M_PI - phi);
    const V3 g = std::cos(phi) * c + std::sin(phi) * up; // in the plane of s, leading upwards; -w maps to g
    s.e1 = (-w.x) * g + w.y * a; s.e2 = (-w.y) * g + (-w.x) * a; s.n = cross(s.e1, s.e2);
    const V2 u = s.pts[k], v = s.pts[(k + 1) % n]; const double f = edge ? sim::real(0.2, 0.8) : 0; const V2 at{ u.x + f * (v.x - u.x), u.y + f * (v.y - u.y) };
    s.c = p - at.x * s.e1 - at.y * s.e2; t.p = s.at(u); t.q = edge ? s.at(v) : t.p; return t;
}

// certified bracket of the distance of two convex shapes
inline void distanceBracket(const Shape& A, const Shape& B, double& lb, double& ub, double stopAt)
{
    V3 y = B.c; lb = 0; ub = 1e300;
    for (int i = 0; i < 400; ++i) {
        const V3 x = A.project(y); y = B.project(x); const V3 v = x - y; const double d = norm(v); ub = std::min(ub, d);
        if (d > 1e-12) { const V3 u = (1 / d) * v; lb = std::max(lb, -A.support(-1.0 * u) - B.support(u)); }
        if (ub < stopAt * (1 - 1e-4) || lb > stopAt * (1 + 1e-4) || ub - lb < 1e-9 * (1 + ub)) break;
    }
}

// relation of two shapes: the intersection segment or the lack of one
struct Meet { int state = -1; double length = 0, angle = 0; V3 p, q; double exA1 = 0; bool onA[2] = { false, false }, onB[2] = { false, false }; };
// state: 0 no intersection, 1 segment, -1 undecided
inline Meet meet(const Shape& A, const Shape& B)
{
    Meet m; const double scale = A.R + B.R, tol = 1e-4 * scale;
    if (norm(A.c - B.c) > scale + tol) { m.state = 0; return m; }
    const V3 l = cross(A.n, B.n); const double s = norm(l);
    m.angle = std::asin(std::min(1.0, s)); // both in [0, pi/2]
    if (std::abs(dot(A.n, B.n)) < 0.7) m.angle = std::acos(std::abs(dot(A.n, B.n)));
    if (s < 5e-2) { // nearly parallel: only decide when the slabs are clearly apart
        const double d1 = std::abs(A.off(B.c)); m.state = d1 > B.R * s + tol * 10 ? 0 : -1; return m;
    }
    const V3 d = unit(l);
    // point on both planes closest to A.c
    const double k1 = dot(A.n, A.c), k2 = dot(B.n, B.c), n12 = dot(A.n, B.n), det = 1 - n12 * n12;
    V3 p0 = ((k1 - k2 * n12) / det) * A.n + ((k2 - k1 * n12) / det) * B.n; p0 = p0 + dot(A.c - p0, d) * d;
    double la, ha, lb, hb; bool g1, g2; const double t2 = tol / s;
    const V2 da{ dot(d, A.e1), dot(d, A.e2) }, db{ dot(d, B.e1), dot(d, B.e2) };
    const bool ia = A.clip(A.in(p0), da, la, ha, t2, g1), ib = B.clip(B.in(p0), db, lb, hb, t2, g2);
    if ((!ia && !g1) || (!ib && !g2)) { m.state = 0; return m; }
    if (g1 || g2) return m;
    const double lo = std::max(la, lb), hi = std::min(ha, hb);
    if (hi - lo < -t2) { m.state = 0; return m; }
    if (hi - lo < 10 * t2) return m;
    m.state = 1; m.length = hi - lo; m.p = p0 + lo * d; m.q = p0 + hi * d;
    m.onA[0] = la >= lb; m.onB[0] = lb >= la; m.onA[1] = ha <= hb; m.onB[1] = hb <= ha;
    return m;
}
} // namespace wl
#endif
