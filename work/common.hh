// Shared parts of the workloads: independent vector arithmetic, simulator-controlled
// distributions and point samplers, exception classification.
#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH
#include "../sim/sim.hh"
#include <cassert>
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <limits>
#include <Standard_Failure.hxx>
#include <frackit/geometry/point.hh>
#include <frackit/geometry/vector.hh>
#include <frackit/geometry/direction.hh>
#include <frackit/sampling/pointsampler.hh>

namespace wl {

struct V3 { double x = 0, y = 0, z = 0; };
inline V3 operator+(V3 a, V3 b) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
inline V3 operator-(V3 a, V3 b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
inline V3 operator*(double s, V3 a) { return { s * a.x, s * a.y, s * a.z }; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
inline double norm(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { return (1.0 / norm(a)) * a; }
inline bool finite(V3 a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }
inline V3 rot(V3 v, V3 axis, double a) // right-handed rotation about a unit axis
{
    return std::cos(a) * v + std::sin(a) * cross(axis, v) + (dot(axis, v) * (1 - std::cos(a))) * axis;
}

using FPoint = Frackit::Point<double, 3>;
using FVector = Frackit::Vector<double, 3>;
using FDir = Frackit::Direction<double, 3>;
template<class P> V3 v3(const P& p) { return { p.x(), p.y(), p.z() }; }
inline FPoint fp(V3 a) { return FPoint(a.x, a.y, a.z); }
inline FVector fv(V3 a) { return FVector(a.x, a.y, a.z); }
inline FDir fd(V3 a) { return FDir(fv(a)); }
inline void hashV(V3 a) { sim::hashDouble(a.x); sim::hashDouble(a.y); sim::hashDouble(a.z); }

inline V3 randUnit()
{
    // simple choices are the coordinate directions
    switch (sim::choose(8)) {
        case 0: return { 0, 0, 1 };
        case 1: return { 1, 0, 0 };
        case 2: return { 0, 1, 0 };
        case 3: return { 0, 0, -1 };
        default: break;
    }
    const double ph = sim::real(0, 2 * M_PI), c = sim::real(-1, 1), s = std::sqrt(std::max(0.0, 1 - c * c));
    return { s * std::cos(ph), s * std::sin(ph), c };
}
inline V3 anyOrtho(V3 n)
{
    V3 h = std::abs(n.x) < 0.6 ? V3{ 1, 0, 0 } : V3{ 0, 1, 0 };
    return unit(cross(n, h));
}

// n different ids: consecutive, scattered, at the upper end, or equal in their lower bits
inline std::vector<std::size_t> distinctIds(int n, int maxBits = 63)
{
    std::vector<std::size_t> r; const int family = (int)sim::choose(6); const std::size_t base = 1 + sim::choose(9); const int shifts[] = { 8, 16, 20, 31, 32, 48 };
    int sh = shifts[sim::choose(6)]; while (sh > maxBits - 4) sh = shifts[sim::choose(3)];
    for (int i = 0; i < n; ++i) r.push_back(family < 2 ? i + 1 : family < 4 ? 9 * i + sim::choose(9) : family == 4 ? base + ((std::size_t)i << sh) : maxBits >= 63 ? ~(std::size_t)0 - i : ((std::size_t)1 << maxBits) - 1 - i);
    return r;
}

// runs f; any exception is described in err
template<class F>
bool throws(F&& f, std::string& err)
{
    // the harness itself must not run into an armed allocation failure
    struct Off { ~Off() { sim::allocationFaultsOff(); } };
    try { Off off; f(); return false; }
    catch (const std::bad_alloc& e) { err = "bad_alloc"; }
    catch (const std::exception& e) { err = std::string("std: ") + e.what(); }
    catch (const Standard_Failure& e) { err = std::string("occ: ") + e.DynamicType()->Name() + ": " + (e.GetMessageString() ? e.GetMessageString() : ""); }
    return true;
}

// must not throw
template<class F>
void mustNotThrow(const char* cls, const char* what, F&& f)
{
    std::string err;
    if (throws(f, err)) sim::violation(cls, "%s threw: %s", what, err.c_str());
}

// -------- distributions decided by the simulator
template<class R>
struct DistState {
    R lo{}, hi{};
    long badLeft = 0;          // this many inadmissible values come first
    std::function<R()> bad;    // produces an inadmissible value
    R last{};                  // last value handed out
    R lastGood{};              // last admissible value handed out
    long calls = 0, badGiven = 0;
};
template<class R>
struct Dist {
    using result_type = R;
    std::shared_ptr<DistState<R>> st;
    Dist() : st(std::make_shared<DistState<R>>()) {}
    explicit Dist(R lo, R hi = R{}) : st(std::make_shared<DistState<R>>()) { st->lo = lo; st->hi = hi; }
    template<class G> R operator()(G&)
    {
        sim::draw(); st->calls++;
        if (st->badLeft > 0) { st->badLeft--; st->badGiven++; return st->last = st->bad(); }
        R v;
        if constexpr (std::is_integral_v<R>) v = (R)sim::range(st->lo, st->hi);
        else switch (sim::choose(12)) {
            case 1: v = st->lo; break;
            case 2: v = st->hi; break;
            default: v = (R)sim::real(st->lo, st->hi); break;
        }
        return st->last = st->lastGood = v;
    }
    template<class G, class P> R operator()(G& g, const P&) { return (*this)(g); }
    void reset() {}
};
inline double badLength()
{
    switch (sim::choose(6)) {
        case 0: return -1.0;
        case 1: return 0.0;
        case 2: return -0.0;
        case 3: return -1e-12;
        case 4: return -1e6;
        default: return -sim::real(1e-6, 10);
    }
}

// point sampler handing out simulator-chosen points
struct PointState { V3 last; long calls = 0; V3 lo{ -10, -10, -10 }, hi{ 10, 10, 10 }; };
struct SimPoints : public Frackit::PointSampler<FPoint> {
    std::shared_ptr<PointState> st = std::make_shared<PointState>();
    FPoint operator()() override
    {
        sim::draw(); st->calls++;
        V3 p{ 0, 0, 0 };
        if (sim::choose(5)) p = { sim::real(st->lo.x, st->hi.x), sim::real(st->lo.y, st->hi.y), sim::real(st->lo.z, st->hi.z) };
        st->last = p; return fp(p);
    }
};

inline double scalePick()
{
    switch (sim::choose(8)) { case 0: case 1: return 1.0; case 6: return 1e-3; case 7: return 1e-4; case 2: return 100.0; case 3: return 0.05; case 4: return 1e4; default: return 3.7; }
}

} // namespace wl
#endif
