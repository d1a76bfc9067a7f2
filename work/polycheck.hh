// Independent checks of sampled polygons and quadrilaterals.
#ifndef VERIF_POLYCHECK_HH
#define VERIF_POLYCHECK_HH
#include "common.hh"
namespace wl {
// what was drawn for a polygon: strike and dip angle, admissible strike and dip length, center
struct Drawn { double strike, dip, L, D; V3 c; };

inline void frame(const Drawn& s, V3& sd, V3& dd, V3& n)
{
    const double a = s.strike, d = s.dip;
    sd = { -std::sin(a), std::cos(a), 0 };
    dd = rot({ std::cos(a), std::sin(a), 0 }, sd, d);
    n = cross(dd, sd);
}

inline void checkConvexLoop(const std::vector<V3>& v, V3 n, double scale, const char* what)
{
    const size_t m = v.size(); double turning = 0; int sgn = 0;
    // orientation from the area vector
    V3 A{ 0, 0, 0 }; for (size_t i = 1; i + 1 < m; ++i) A = A + 0.5 * cross(v[i] - v[0], v[i + 1] - v[0]);
    const double area = norm(A);
    if (!(area > 0)) sim::violation("degenerate", "%s has zero area", what);
    sgn = dot(A, n) > 0 ? 1 : -1;
    if (std::abs(std::abs(dot(unit(A), n)) - 1) > 1e-6) sim::violation("orientation", "%s is not perpendicular to the sampled normal: deviation %.3g", what, std::abs(dot(unit(A), n)));
    for (size_t i = 0; i < m; ++i) {
        const V3 e = v[(i + 1) % m] - v[i], f = v[(i + 2) % m] - v[(i + 1) % m];
        const double cr = sgn * dot(cross(e, f), n), dt = dot(e, f);
        // a corner may be flat up to rounding of the edge sorting
        if (cr < -1e-5 * scale * std::max(norm(e), norm(f))) sim::violation("not-convex", "%s is not convex at corner %zu of %zu: turn %.3g", what, i, m, cr);
        if (norm(e) > 1e-9 * scale && norm(f) > 1e-9 * scale) turning += std::atan2(cr, dt);
    }
    if (std::abs(turning - 2 * M_PI) > 1e-2) sim::violation("self-intersecting", "%s with %zu corners turns by %.6g instead of 2 pi", what, m, turning);
}

inline void checkPlaced(const Drawn& s, const std::vector<V3>& v, bool isQuad)
{
    for (auto& p : v) { if (!finite(p)) sim::violation("non-finite", "corner with non-finite coordinates"); hashV(p); }
    V3 sd, dd, n; frame(s, sd, dd, n);
    const double L = s.L, D = s.D, sc = std::max(L, D), tol = 1e-9 * (sc + norm(s.c) + 1);
    const V3 c = s.c;
    V3 lo = v[0], hi = v[0]; double s0 = 1e300, s1 = -1e300, d0 = 1e300, d1 = -1e300;
    for (auto& p : v) {
        lo = { std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z) }; hi = { std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z) };
        const V3 q = p - v[0]; s0 = std::min(s0, dot(q, sd)); s1 = std::max(s1, dot(q, sd)); d0 = std::min(d0, dot(q, dd)); d1 = std::max(d1, dot(q, dd));
        if (std::abs(dot(q, n)) > 1e-8 * (sc + 1e-3)) sim::violation("not-planar", "corner is %.3g off the plane given by strike %.6g and dip %.6g", dot(q, n), s.strike, s.dip);
    }
    const V3 bc = 0.5 * (lo + hi);
    if (norm(bc - c) > tol * 10) sim::violation("center", "bounding box centre (%g %g %g) is not the sampled point (%g %g %g)", bc.x, bc.y, bc.z, c.x, c.y, c.z);
    const double es = s1 - s0, ed = d1 - d0;
    if (es > L * (1 + 1e-9) || ed > D * (1 + 1e-9)) sim::violation("too-large", "extent %.9g (strike) x %.9g (dip) exceeds the sampled size %.9g x %.9g", es, ed, L, D);
    if (es < 0.8 * L * (1 - 1e-9) || ed < 0.8 * D * (1 - 1e-9)) sim::violation("too-small", "extent %.9g (strike) x %.9g (dip) is below 80%% of the sampled size %.9g x %.9g", es, ed, L, D);
    checkConvexLoop(v, n, sc, isQuad ? "quadrilateral" : "polygon");
}
} // namespace wl
#endif
