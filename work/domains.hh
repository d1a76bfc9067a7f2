// Random sampling domains with an independent description.
#ifndef VERIF_DOMAINS_HH
#define VERIF_DOMAINS_HH
namespace wl {
struct Domain {
    int kind = 0; int orient = 0;        // 0 box, 1 cylinder, 2 hollow cylinder
    V3 lo, hi;                           // box
    V3 c, n, b1, b2; double r0 = 0, r1 = 1, h = 1; // (hollow) cylinder
    double scale() const { return kind == 0 ? norm(lo) + norm(hi) : norm(c) + r1 + h; }
    // how far outside the closed domain a point lies (<= 0 inside)
    double outside(V3 p) const
    {
        if (!finite(p)) return std::numeric_limits<double>::infinity();
        if (kind == 0) return std::max({ lo.x - p.x, p.x - hi.x, lo.y - p.y, p.y - hi.y, lo.z - p.z, p.z - hi.z });
        const V3 d = p - c; const double t = dot(d, n); const double r = norm(d - t * n);
        return std::max({ -t, t - h, r - r1, r0 - r });
    }
    // fraction coordinates in [0,1)^3 in which the uniform distribution is the product of uniforms
    std::array<double, 3> unitCoords(V3 p) const
    {
        if (kind == 0) return { (p.x - lo.x) / (hi.x - lo.x), (p.y - lo.y) / (hi.y - lo.y), (p.z - lo.z) / (hi.z - lo.z) };
        const V3 d = p - c; const double t = dot(d, n); const V3 q = d - t * n; const double r2 = dot(q, q);
        double a = std::atan2(dot(q, b2), dot(q, b1)) / (2 * M_PI); if (a < 0) a += 1;
        return { (r2 - r0 * r0) / (r1 * r1 - r0 * r0), a, t / h };
    }
    std::string describe() const
    {
        char b[300];
        if (kind == 0) snprintf(b, sizeof b, "box (%g %g %g)-(%g %g %g)", lo.x, lo.y, lo.z, hi.x, hi.y, hi.z);
        else snprintf(b, sizeof b, "%s center (%g %g %g) axis (%g %g %g) r0 %g r1 %g h %g", kind == 1 ? "cylinder" : "hollow cylinder", c.x, c.y, c.z, n.x, n.y, n.z, r0, r1, h);
        return b;
    }
};

inline Domain randomDomain()
{
    Domain d; d.kind = (int)sim::choose(3);
    const double s = scalePick();
    V3 off{ 0, 0, 0 };
    if (sim::chance(60)) off = { sim::real(-5, 5) * s, sim::real(-5, 5) * s, sim::real(-5, 5) * s };
    if (d.kind == 0) {
        d.lo = off; d.hi = off + V3{ s * sim::real(0.01, 3), s * sim::real(0.01, 3), s * sim::real(0.01, 3) };
        d.orient = 0;
    } else {
        d.orient = (int)sim::choose(3);
        d.c = off; d.n = { 0, 0, 1 }; d.b1 = { 1, 0, 0 };
        if (d.orient == 0) d.c = { 0, 0, 0 };            // canonical: at the origin along z
        else if (d.orient == 1) { d.n = randUnit(); d.b1 = anyOrtho(d.n); } // from a base circle
        else { d.n = randUnit(); d.b1 = rot(anyOrtho(d.n), d.n, sim::real(0, 2 * M_PI)); }
        d.b2 = cross(d.n, d.b1);
        d.r1 = s * sim::real(0.02, 2); d.h = s * sim::real(0.02, 4);
        d.r0 = d.kind == 2 ? d.r1 * sim::real(0.05, 0.95) : 0;
    }
    return d;
}

inline std::unique_ptr<Frackit::PointSampler<FPoint>> makeSampler(const Domain& d)
{
    using namespace Frackit;
    auto wrap = [](auto s) -> std::unique_ptr<PointSampler<FPoint>> { return std::make_unique<decltype(s)>(s); };
    if (d.kind == 0) return wrap(makeUniformPointSampler(Box<double>(d.lo.x, d.lo.y, d.lo.z, d.hi.x, d.hi.y, d.hi.z)));
    if (d.kind == 1) {
        if (d.orient == 0) return wrap(makeUniformPointSampler(Cylinder<double>(d.r1, d.h)));
        return wrap(makeUniformPointSampler(Cylinder<double>(Circle<double, 3>(fp(d.c), fd(d.n), d.r1), d.h)));
    }
    if (d.orient == 0) return wrap(makeUniformPointSampler(HollowCylinder<double>(d.r0, d.r1, d.h)));
    return wrap(makeUniformPointSampler(HollowCylinder<double>(fp(d.c), fd(d.n), d.r0, d.r1, d.h)));
}
// counts over equally likely cells
inline void chi2(const std::vector<long>& c, const char* what, const Domain& d)
{
    double n = 0; for (long x : c) n += x;
    const double e = n / c.size(); double x2 = 0;
    for (long x : c) x2 += (x - e) * (x - e) / e;
    const double dof = c.size() - 1.0;
    // bound: Laurent-Massart tail, P < exp(-60)
    const double t = 60, bound = dof + 2 * std::sqrt(dof * t) + 2 * t;
    sim::hashDouble(x2);
    if (!(x2 <= bound)) {
        std::string s; for (size_t i = 0; i < c.size() && i < 16; ++i) s += " " + std::to_string(c[i]);
        sim::violation("not-uniform", "%s of %g points in %s: chi-square %.1f with %g degrees of freedom exceeds %.1f; counts%s", what, n, d.describe().c_str(), x2, dof, bound, s.c_str());
    }
}
} // namespace wl
#endif
