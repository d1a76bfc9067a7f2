// Independent checks of sampled disks.
#ifndef VERIF_DISKCHECK_HH
#define VERIF_DISKCHECK_HH
#include "common.hh"
namespace wl {
template<class D> void checkDisk(const D& k, double scale)
{
    const V3 c = v3(k.center()), a = v3(k.majorAxis()), b = v3(k.minorAxis()), n = v3(k.normal());
    const double ra = k.majorAxisLength(), rb = k.minorAxisLength();
    hashV(c); hashV(a); hashV(b); sim::hashDouble(ra); sim::hashDouble(rb);
    if (!finite(c) || !finite(a) || !finite(b) || !finite(n) || !std::isfinite(ra) || !std::isfinite(rb)) sim::violation("non-finite", "disk with non-finite parameters");
    if (!(ra > 0) || !(rb > 0)) sim::violation("axis-length", "axis lengths %.17g / %.17g are not positive", ra, rb);
    if (rb > ra) sim::violation("axis-order", "minor axis length %.17g exceeds major axis length %.17g", rb, ra);
    if (std::abs(norm(a) - 1) > 1e-9 || std::abs(norm(b) - 1) > 1e-9 || std::abs(norm(n) - 1) > 1e-9 || std::abs(dot(a, b)) > 1e-9)
        sim::violation("axes-not-orthonormal", "major (%g %g %g) minor (%g %g %g), product %.3g", a.x, a.y, a.z, b.x, b.y, b.z, dot(a, b));
    if (norm(cross(a, b) - n) > 1e-8) sim::violation("normal", "normal is not the cross product of the axes");
}
// the axes must be the standard basis rotated successively around x, y and z
template<class D> void checkOrientation(const D& k, double ax, double ay, double az)
{
    auto R = [&](V3 v) { return rot(rot(rot(v, { 1, 0, 0 }, ax), { 0, 1, 0 }, ay), { 0, 0, 1 }, az); };
    const V3 ea = R({ 1, 0, 0 }), eb = R({ 0, 1, 0 }), ma = v3(k.majorAxis()), mi = v3(k.minorAxis());
    if (norm(ea - ma) > 1e-8 || norm(eb - mi) > 1e-8)
        sim::violation("orientation", "angles (%g %g %g): major (%g %g %g) expected (%g %g %g); minor (%g %g %g) expected (%g %g %g)", ax, ay, az, ma.x, ma.y, ma.z, ea.x, ea.y, ea.z, mi.x, mi.y, mi.z, eb.x, eb.y, eb.z);
}
} // namespace wl
#endif
