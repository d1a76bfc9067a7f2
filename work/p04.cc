// P04: sampled polygons and quadrilaterals are convex, planar and placed/sized/oriented as drawn.
#include "polycheck.hh"
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/geometry/box.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
const char* simRealComponents = "PolygonSampler, QuadrilateralSampler (current and deprecated form), Polygon, Quadrilateral, rotate(), default_random_engine";
const char* simStubComponents = "strike/dip angle, strike/dip length and corner count distributions and the centre sampler (simulator-controlled through the traits seam), hardware entropy, heap";
const char* simRule = "a run interleaves polygon and quadrilateral samplers whose distributions deliver any admissible value plus bursts of inadmissible ones (corner counts below 3, lengths not above 0), under simulated entropy for the inner engine; every sampled geometry is checked; non-trivial: at least one geometry was produced";
void simWarmup() {}
using namespace wl;
struct Traits {
    using StrikeAngleDistribution = Dist<double>; using DipAngleDistribution = Dist<double>;
    using StrikeLengthDistribution = Dist<double>; using DipLengthDistribution = Dist<double>;
    using NumCornersDistribution = Dist<int>;
};
using PolyS = Frackit::PolygonSampler<3, double, Traits>;
using QuadS = Frackit::QuadrilateralSampler<3, double, Traits>;

struct Session {
    Dist<double> SA, DA, SL, DL; Dist<int> N; SimPoints P; double scale = 1;
    std::unique_ptr<PolyS> poly; std::unique_ptr<QuadS> quad;
    int depr = 0; double minEdge = 0, edgeMean = 0;
};

static Drawn drawn(const Session& s)
{
    if (s.SL.st->badLeft || s.DL.st->badLeft || s.N.st->badLeft) sim::violation("inadmissible-accepted", "an inadmissible draw was accepted");
    if (s.SL.st->last != s.SL.st->lastGood || s.DL.st->last != s.DL.st->lastGood) sim::violation("inadmissible-accepted", "an inadmissible length was accepted");
    return { s.SA.st->last, s.DA.st->last, s.SL.st->lastGood, s.DL.st->lastGood, s.P.st->last };
}

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    std::vector<Session> ss;
    const int ops = 4 + (int)sim::choose(80);
    for (int i = 0; i < ops; ++i) {
        sim::op();
        if (ss.empty() || (sim::chance(6) && ss.size() < 5)) {
            Session s; s.scale = scalePick();
            s.SL.st->lo = s.scale * 0.2; s.SL.st->hi = s.scale * 2; s.DL.st->lo = s.scale * 0.2; s.DL.st->hi = s.scale * 2;
            s.SL.st->bad = s.DL.st->bad = badLength;
            s.N.st->lo = 3; s.N.st->hi = sim::chance(20) ? 30 : 8; s.N.st->bad = [] { return 2 - (int)sim::choose(6); };
            for (auto* a : { &s.SA, &s.DA }) if (sim::chance(85)) { a->st->lo = -M_PI; a->st->hi = 2 * M_PI; }
            if (sim::chance(20)) { s.DA.st->lo = s.DA.st->hi = (double)sim::choose(5) * M_PI / 4; } // vertical, horizontal, ...
            const auto kind = sim::choose(5);
            mustNotThrow("construction", "constructing a sampler", [&] {
                if (kind <= 1) s.poly = std::make_unique<PolyS>(s.P, s.SA, s.DA, s.SL, s.DL, s.N);
                else if (kind <= 3) s.quad = std::make_unique<QuadS>(s.P, s.SA, s.DA, s.SL, s.DL);
                else {
                    s.depr = 1; s.minEdge = sim::real(0.05, 0.5); s.edgeMean = s.minEdge + sim::real(0.0, 0.6);
                    s.quad = std::make_unique<QuadS>(s.P, s.SA, s.DA, std::normal_distribution<double>(s.edgeMean, sim::real(0.01, 0.5)), s.minEdge);
                }
            });
            sim::log("session %zu: %s scale %g", ss.size(), s.poly ? "polygons" : s.depr ? "quadrilaterals (edge length form)" : "quadrilaterals", s.scale);
            ss.push_back(std::move(s)); continue;
        }
        auto& s = ss[sim::choose(ss.size())];
        if (sim::chance(3)) { mustNotThrow("copy", "copying a sampler", [&] { if (s.poly) s.poly = std::make_unique<PolyS>(*s.poly); else s.quad = std::make_unique<QuadS>(*s.quad); }); sim::probe("copied-sampler"); }
        long burst = 0; const long nl = s.SL.st->calls + s.DL.st->calls, nn = s.N.st->calls;
        if (!s.depr) {
            if (sim::chance(30)) { s.SL.st->badLeft = 1 + (long)sim::choose(sim::chance(20) ? 95 : 4); burst += s.SL.st->badLeft; sim::fault("inadmissible-strike-length"); }
            if (sim::chance(30)) { s.DL.st->badLeft = 1 + (long)sim::choose(sim::chance(20) ? 95 : 4); burst += s.DL.st->badLeft; sim::fault("inadmissible-dip-length"); }
            if (s.poly && sim::chance(30)) { s.N.st->badLeft = 1 + (long)sim::choose(sim::chance(20) ? 95 : 4); burst += s.N.st->badLeft; sim::fault("inadmissible-corner-count"); }
        }
        sim::drawBudget(burst + 500);
        if (s.poly) {
            std::vector<V3> v;
            mustNotThrow("sampling-throws", "sampling a polygon", [&] {
                if (sim::chance(50)) { for (auto& p : s.poly->sampleCorners()) v.push_back(v3(p)); }
                else { auto g = (*s.poly)(); for (std::size_t k = 0; k < g.numCorners(); ++k) v.push_back(v3(g.corner(k))); }
            });
            if ((int)v.size() != s.N.st->lastGood) sim::violation("corner-count", "polygon has %zu corners, sampled number is %d", v.size(), s.N.st->lastGood);
            checkPlaced(drawn(s), v, false);
            sim::probe("polygon"); sim::log("polygon %zu corners L %g D %g strike %g dip %g burst %ld", v.size(), s.SL.st->lastGood, s.DL.st->lastGood, s.SA.st->last, s.DA.st->last, burst);
            sim::state(sim::mix(v.size(), burst > 0));
        } else {
            std::vector<V3> q;
            mustNotThrow("sampling-throws", "sampling a quadrilateral", [&] { auto g = (*s.quad)(); q = { v3(g.corner(0)), v3(g.corner(1)), v3(g.corner(3)), v3(g.corner(2)) }; });
            if (!s.depr) { checkPlaced(drawn(s), q, true); sim::probe("quadrilateral"); }
            else {
                V3 sd, dd, n; frame({ s.SA.st->last, s.DA.st->last, 1, 1, s.P.st->last }, sd, dd, n);
                const V3 c = s.P.st->last; double m[4]; 
                for (auto& p : q) { if (!finite(p)) sim::violation("non-finite", "corner with non-finite coordinates"); hashV(p); if (std::abs(dot(p - c, n)) > 1e-9 * (20 + norm(c))) sim::violation("not-planar", "corner is %.3g off the plane through the sampled centre", dot(p - c, n)); }
                // edge lengths in strike direction and half widths in dip direction
                m[0] = norm(q[1] - q[2]); m[1] = norm(q[3] - q[0]);
                m[2] = -2 * dot(q[0] - c, dd); m[3] = 2 * dot(q[1] - c, dd);
                for (double x : m) if (!(x >= s.minEdge * (1 - 1e-9))) sim::violation("edge-too-short", "quadrilateral dimension %.9g is below the minimum edge length %.9g", x, s.minEdge);
                for (auto e : { q[1] - q[2], q[3] - q[0] }) if (norm(cross(unit(e), sd)) > 1e-6) sim::violation("strike", "edge is not along the sampled strike direction");
                for (double t : { dot(q[1] + q[2] - c - c, sd), dot(q[0] + q[3] - c - c, sd) }) if (std::abs(t) > 1e-8 * (20 + norm(c))) sim::violation("center", "edges are not centred at the sampled point: %.3g", t);
                checkConvexLoop(q, n, 2, "quadrilateral"); sim::probe("quadrilateral-edge-length-form");
            }
            sim::log("quadrilateral strike %g dip %g burst %ld", s.SA.st->last, s.DA.st->last, burst);
            sim::state(sim::mix(1000 + s.depr, burst > 0));
        }
        sim::drawBudget(0);
        if (!s.depr && !burst && (s.SL.st->calls + s.DL.st->calls != nl + 2 || (s.poly && s.N.st->calls != nn + 1))) sim::violation("redrawn", "every value was admissible, still %ld lengths and %ld corner counts were drawn for one %s", s.SL.st->calls + s.DL.st->calls - nl, s.N.st->calls - nn, s.poly ? "polygon" : "quadrilateral");
    }
}
