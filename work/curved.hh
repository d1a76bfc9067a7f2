// The lateral surface of a cylinder against planar convex shapes: independent description of the
// intersection curves and three-valued decisions on the constraints.
#ifndef VERIF_CURVED_HH
#define VERIF_CURVED_HH
#include "constraintmodel.hh"
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/occ/breputilities.hh>
namespace wl {
struct Lateral {
    V3 c, u, v, w; double r = 1, h = 1; bool asFace = false;
    Frackit::CylinderSurface<double> surface() const { return Frackit::CylinderSurface<double>(Frackit::Circle<double, 3>(fp(c), fd(w), r), h); }
    TopoDS_Face face() const { return Frackit::OCCUtilities::getShape(surface()); }
    double height(V3 p) const { return dot(p - c, w); }
    V3 radial(V3 p) const { const V3 d = p - c; return d - dot(d, w) * w; }
    double dist(V3 p) const { const double z = height(p); return std::hypot(norm(radial(p)) - r, std::max(0.0, std::max(-z, z - h))); }
    double rimDist(V3 p) const { const double z = height(p), d = norm(radial(p)) - r; return std::min(std::hypot(d, z), std::hypot(d, z - h)); }
    double scale() const { return r + h; }
    std::string describe() const { char t[256]; snprintf(t, sizeof t, "cylinder surface c=(%.4g %.4g %.4g) axis=(%.4g %.4g %.4g) r=%.4g h=%.4g%s", c.x, c.y, c.z, w.x, w.y, w.z, r, h, asFace ? " (face shape)" : ""); return t; }
};
inline Lateral randomLateral(V3 center, double size)
{
    Lateral l; l.w = randUnit(); l.u = anyOrtho(l.w); l.v = cross(l.w, l.u); l.r = size * sim::real(0.4, 1.2); l.h = size * sim::real(0.5, 3);
    l.c = center - (0.5 * l.h) * l.w + V3{ size * sim::real(-0.2, 0.2), 0, 0 }; return l;
}

struct Curve {
    bool closed = false; double length = 0, minAngle = 0, endAngle = 0; V3 end[2]; bool onS[2] = { false, false }, onC[2] = { false, false };
    std::vector<double> angles; // along the curve
    // largest part of the curve over which the angle stays below the limit
    double below(double limit) const { const int n = (int)angles.size() - 1; int run = 0, best = 0; for (int i = 0; i < (closed ? 2 * n : n + 1); ++i) { run = angles[i % (closed ? n : n + 1)] < limit ? run + 1 : 0; best = std::max(best, run); } return std::min(1.0, (double)best / n); }
    double minS = 0, minC = 0; // closest distance to the boundaries along the curve
};
struct CMeet { int state = -1; std::vector<Curve> curves; };

inline CMeet meet(const Lateral& C, const Shape& S)
{
    CMeet m; const double scale = C.scale() + S.R, tol = 1e-4 * scale, nw = dot(S.n, C.w); const int N = 1440;
    auto angle = [&](V3 p) { return std::acos(std::min(1.0, std::abs(dot(S.n, unit(C.radial(p)))))); };
    auto gS = [&](V3 p) { return S.signedDist(S.in(p)); };
    auto gC = [&](V3 p) { const double z = C.height(p); return std::max(-z, z - C.h); };
    auto add = [&](const std::function<V3(double)>& at, double a, double b, bool closed) {
        Curve k; k.closed = closed; const int n = 400; V3 prev = at(a); k.minAngle = 9; k.minS = k.minC = 1e300;
        for (int i = 0; i <= n; ++i) { const V3 p = at(a + (b - a) * i / n); k.length += norm(p - prev); prev = p; k.angles.push_back(angle(p)); k.minAngle = std::min(k.minAngle, k.angles.back()); k.minS = std::min(k.minS, S.boundaryDist(S.in(p))); k.minC = std::min(k.minC, C.rimDist(p)); }
        k.end[0] = at(a); k.end[1] = at(b); k.endAngle = std::min(angle(k.end[0]), angle(k.end[1]));
        if (!closed) for (int e = 0; e < 2; ++e) { k.onS[e] = gS(k.end[e]) >= gC(k.end[e]); k.onC[e] = !k.onS[e]; if (std::abs(gS(k.end[e]) - gC(k.end[e])) < 10 * tol) return false; }
        m.curves.push_back(k); return k.length > 100 * tol;
    };
    if (std::abs(nw) > 0.12) {
        const auto at = [&](double ph) { const V3 e = C.c + C.r * (std::cos(ph) * C.u + std::sin(ph) * C.v); return e + (dot(S.n, S.c - e) / nw) * C.w; };
        std::vector<double> g(N); for (int i = 0; i < N; ++i) { const V3 p = at(2 * M_PI * i / N); g[i] = std::max(gS(p), gC(p)); }
        const double slack = tol / std::abs(nw);
        // extrema near zero are undecided
        int in = 0; for (int i = 0; i < N; ++i) { const double a = g[(i + N - 1) % N], b = g[i], c = g[(i + 1) % N]; in += b < 0; if (((b <= a && b <= c) || (b >= a && b >= c)) && std::abs(b) < 5 * slack) return m; }
        if (!in) { m.state = 0; return m; }
        if (in == N) { if (!add(at, 0, 2 * M_PI, true)) return m; m.state = 1; return m; }
        auto cut = [&](double a, double b) { const bool ina = std::max(gS(at(a)), gC(at(a))) < 0; for (int i = 0; i < 60; ++i) { const double x = 0.5 * (a + b); const V3 p = at(x); if ((std::max(gS(p), gC(p)) < 0) == ina) a = x; else b = x; } return 0.5 * (a + b); };
        for (int i = 0; i < N; ++i) if (g[(i + N - 1) % N] >= 0 && g[i] < 0) {
            int j = i; while (g[j % N] < 0) ++j;
            const double a = cut(2 * M_PI * (i - 1) / N, 2 * M_PI * i / N), b = cut(2 * M_PI * (j - 1) / N, 2 * M_PI * j / N);
            if (!add(at, a, b, false)) { m.curves.clear(); return m; }
        }
        m.state = 1; return m;
    }
    if (std::abs(nw) < 1e-9) { // the plane is parallel to the axis: two lines or none
        const double d = dot(S.n, S.c - C.c); if (std::abs(d) > C.r + tol) { m.state = 0; return m; } if (std::abs(d) > C.r - 50 * tol) return m;
        const V3 t = cross(C.w, S.n); const double x = std::sqrt(C.r * C.r - d * d); m.state = 1;
        for (int s = -1; s <= 1; s += 2) {
            const V3 o = C.c + d * S.n + (s * x) * t; double lo, hi; bool graze; const V2 dd{ dot(C.w, S.e1), dot(C.w, S.e2) };
            const bool is = S.clip(S.in(o), dd, lo, hi, tol, graze); if (graze) { m.state = -1; return m; } if (!is) continue;
            const double a = std::max(lo, 0.0), b = std::min(hi, C.h); if (b - a < -tol) continue;
            if (b - a < 100 * tol || !add([&](double q) { return o + q * C.w; }, a, b, false)) { m.state = -1; m.curves.clear(); return m; }
        }
        if (m.curves.empty()) m.state = 0; return m;
    }
    return m; // steep planes: only decided when clearly apart
}

// is the distance of the shape from the surface at least d? 1, 0 or -1
inline int farEnough(const Lateral& C, const Shape& S, double d, double tol)
{
    struct Cell { double x, y, s; }; std::vector<Cell> todo{ { 0, 0, S.R } }; long n = 0; bool vague = false;
    while (!todo.empty()) {
        const Cell k = todo.back(); todo.pop_back(); if (++n > 40000) return -1;
        V2 p{ k.x, k.y }; const double diag = k.s * std::sqrt(2.0);
        if (S.signedDist(p) > diag) continue;
        if (C.dist(S.at(p)) - diag > d + tol) continue;
        if (!S.inside(p)) p = S.boundary(p);
        if (C.dist(S.at(p)) < d - tol) return 0;
        if (diag < 0.2 * tol) { vague = true; continue; }
        for (int i = 0; i < 4; ++i) todo.push_back({ k.x + (i & 1 ? 0.5 : -0.5) * k.s, k.y + (i & 2 ? 0.5 : -0.5) * k.s, 0.5 * k.s });
    }
    return vague ? -1 : 1;
}

inline int decide(const CModel& M, const Lateral& C, const Shape& S, CMeet& m, bool faces)
{
    if (!M.minDist && !M.minAngle && !M.minMag && !M.minIsDist) return 1;
    m = meet(C, S); const double scale = C.scale() + S.R, tol = 1e-4 * scale; auto both = &CModel::both; auto cmp = &CModel::cmp;
    if (m.state == 1) {
        int r = 1;
        for (auto& k : m.curves) {
            if (M.minMag) { int x = cmp(k.length, *M.minMag, 2e-4 * scale); if (faces && x == 1) x = -1; r = both(r, x); } // face shapes may divide a curve at the seam
            if (M.minAngle) r = both(r, k.minAngle >= *M.minAngle + 1e-4 ? 1 : k.below(*M.minAngle - 1e-3) > (faces ? 0.4 : k.closed ? 0.2 : 0.3) ? 0 : (k.closed ? k.minAngle : k.endAngle) <= *M.minAngle - (k.closed && faces ? 9 : k.closed ? 0.4 : 1e-4) ? 0 : -1);
            if (M.minIsDist) for (int e = 0; e < 2; ++e) { // e: 0 the shape, 1 the surface
                const double near = e ? k.minC : k.minS; const bool o0 = e ? k.onC[0] : k.onS[0], o1 = e ? k.onC[1] : k.onS[1];
                auto at = [&](int i) { const double d = e ? C.rimDist(k.end[i]) : S.boundaryDist(S.in(k.end[i])); return d < tol ? -1 : cmp(d, *M.minIsDist, 2e-5 * scale); };
                int x;
                if (k.closed) { x = cmp(near, *M.minIsDist, 1e-3 * scale); if (faces && (x == 0 || e == 1)) x = -1; }
                else if (o0 || o1) x = both(o0 ? 1 : at(0), o1 ? 1 : at(1));
                else { x = both(at(0), at(1)); if (x == 1 && near < *M.minIsDist + 1e-3 * scale) x = -1; }
                if (faces && e == 1 && x == 1) x = -1; // the seam belongs to the boundary of the face shape
                r = both(r, x);
            }
        }
        return r;
    }
    if (m.state < 0) {
        const int apart = farEnough(C, S, tol, 0.5 * tol); if (apart != 1) return -1;
        m.state = 0;
    }
    return M.minDist ? farEnough(C, S, *M.minDist, 1e-4 * scale) : 1;
}
} // namespace wl
#endif
