// P19: the samplers of the Python package keep the guarantees of the library.
#include "pyhost.hh"
#include "polycheck.hh"
#include "diskcheck.hh"
#include <frackit/geometry/box.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include "domains.hh"
const char* simRealComponents = "python/frackit/sampling (point samplers, makePointSampler, DiskSampler, PolygonSampler, QuadrilateralSampler in both forms), the compiled bindings and geometry classes behind them, CPython";
const char* simStubComponents = "the values and failures of the samplers handed to the package, the random module's source of randomness, heap placement";
const char* simRule = "a run drives samplers of the Python package with simulator-decided draws, including bursts of inadmissible values, failing samplers (also during construction) and extreme random numbers; every geometry is checked against what was drawn, errors must be the documented ones, point sets must follow the uniform law; non-trivial: at least one geometry or point set was judged";
using namespace wl;
void simWarmup() { startPython({ "frackit.common", "frackit.precision", "frackit.geometry", "frackit.sampling" }); }

static py::object pyDomain(const Domain& d)
{
    auto g = mod("frackit.geometry"); auto P = [&](V3 p) { return g.attr("Point_3")(p.x, p.y, p.z); }; auto D = [&](V3 p) { return g.attr("Direction_3")(g.attr("Vector_3")(p.x, p.y, p.z)); };
    if (d.kind == 0) return g.attr("Box")(d.lo.x, d.lo.y, d.lo.z, d.hi.x, d.hi.y, d.hi.z);
    if (d.kind == 1) return d.orient == 0 ? g.attr("Cylinder")(d.r1, d.h) : g.attr("Cylinder")(g.attr("Circle_3")(P(d.c), D(d.n), d.r1), d.h);
    return d.orient == 0 ? g.attr("HollowCylinder")(d.r0, d.r1, d.h) : g.attr("HollowCylinder")(P(d.c), D(d.n), d.r0, d.r1, d.h);
}
static void points()
{
    const Domain d = randomDomain(); py::object geo, s; const int how = (int)sim::choose(3); // 0 default creators, 1 own creators, 2 uniform sampler of the library
    std::vector<double> lastU(3, 0); bool stats = how != 1 && sim::chance(30);
    auto creator = [&](int k) { return py::cpp_function([k, &lastU](double lo, double hi) { return py::cpp_function([k, lo, hi, &lastU] { sim::draw(); lastU[k] = sim::choose(4) == 1 ? 0 : sim::real(0, 1); return lo + lastU[k] * (hi - lo); }); }); };
    pyMust("construction", "making a point sampler", [&] { geo = pyDomain(d); auto m = mod("frackit.sampling"); s = how == 2 ? m.attr("makeUniformPointSampler")(geo) : how == 0 ? m.attr("makePointSampler")(geo) : m.attr("makePointSampler")(geo, creator(0), creator(1), creator(2)); });
    sim::log("%s, %s", d.describe().c_str(), how == 0 ? "default creators" : how == 1 ? "own creators" : "library sampler");
    if (stats) mod("random").attr("seed")((uint64_t)sim::choose(1ull << 32)); else if (how == 0) pythonEntropy();
    const int n = stats ? 4000 : 10 + (int)sim::choose(60);
    std::array<std::vector<long>, 3> marg; for (auto& m : marg) m.assign(10, 0); std::vector<long> joint(27, 0);
    for (int i = 0; i < n; ++i) {
        sim::op(); V3 p; pyMust("sampling-throws", "sampling a point", [&] { p = pv(s()); }); if (!stats) hashV(p);
        if (!(d.outside(p) <= 1e-9 * d.scale())) sim::violation("outside-domain", "point (%g %g %g) is %.3g outside of %s", p.x, p.y, p.z, d.outside(p), d.describe().c_str());
        const auto u = d.unitCoords(p);
        if (how == 1) for (int k = 0; k < 3; ++k) { double e = std::abs(u[k] - lastU[k]); if (k == 1) { e = std::min(e, std::abs(1 - e)); if (d.kind && d.r0 == 0 && lastU[0] < 1e-6) e = 0; if (d.orient) e = 0; } if (e > 1e-6 * (1 + d.scale() / (d.r1 + d.h))) sim::violation("not-as-drawn", "coordinate %d of a point in %s is at %.9g of its range, drawn was %.9g", k, d.describe().c_str(), u[k], lastU[k]); }
        if (stats) { int c = 0; for (int k = 0; k < 3; ++k) { const double v = std::min(std::max(u[k], 0.0), 1 - 1e-12); marg[k][(int)(10 * v)]++; c = 3 * c + (int)(3 * v); } joint[c]++; }
    }
    if (stats) { chi2(joint, "joint cell counts", d); for (int k = 0; k < 3; ++k) chi2(marg[k], "a coordinate", d); sim::probe("distribution"); }
    // sampling does not change the domain
    const Domain& q = d; if (q.kind == 1) { V3 c; pyMust("domain", "querying the cylinder", [&] { c = pv(geo.attr("bottomFace")().attr("center")()); }); if (norm(c - q.c) > 1e-9 * q.scale()) sim::violation("domain-changed", "sampling moved the cylinder to (%g %g %g)", c.x, c.y, c.z); }
    sim::probe("points"); sim::state(sim::mix(d.kind * 8 + d.orient, how * 2 + stats));
}

struct Session {
    int kind = 0; // 0 disk 1 polygon 2 quadrilateral 3 quadrilateral from edge lengths
    PyDist<double> A, B, X, Y, Z; PyDist<int> N; PyPoints P; std::shared_ptr<Bomb> bomb = std::make_shared<Bomb>(); py::object s; double scale = 1, minEdge = 0; std::vector<double> edges;
};
static double badAngleLength() { return badLength(); }
static void build(Session& s)
{
    auto m = mod("frackit.sampling"); for (auto* d : { &s.A, &s.B, &s.X, &s.Y, &s.Z }) d->b = s.bomb; s.N.b = s.bomb; s.P.b = s.bomb;
    for (auto* d : { &s.A, &s.B }) { (*d)->lo = 0.2 * s.scale; (*d)->hi = 2 * s.scale; (*d)->bad = badAngleLength; }
    for (auto* d : { &s.X, &s.Y, &s.Z }) if (sim::chance(85)) { (*d)->lo = -M_PI; (*d)->hi = 2 * M_PI; }
    s.N->lo = 3; s.N->hi = sim::chance(20) ? 30 : 8; s.N->bad = [] { return 2 - (int)sim::choose(6); };
    if (s.kind == 0) s.s = m.attr("DiskSampler")(s.P.fn(), s.A.fn(), s.B.fn(), s.X.fn(), s.Y.fn(), s.Z.fn());
    else if (s.kind == 1) s.s = m.attr("PolygonSampler")(s.P.fn(), s.X.fn(), s.Y.fn(), s.A.fn(), s.B.fn(), s.N.fn());
    else if (s.kind == 2) s.s = m.attr("QuadrilateralSampler")(s.P.fn(), s.X.fn(), s.Y.fn(), s.A.fn(), s.B.fn());
    else { s.A->lo = -0.2 * s.scale; if (sim::chance(70)) { s.minEdge = sim::real(0.05, 0.5) * s.scale; s.s = m.attr("QuadrilateralSampler")(s.P.fn(), s.X.fn(), s.Y.fn(), s.A.fn(), s.minEdge); } else { s.minEdge = 1e-7; s.s = m.attr("QuadrilateralSampler")(s.P.fn(), s.X.fn(), s.Y.fn(), s.A.fn()); } }
}
static void sampleAndCheck(Session& s)
{
    const V3 before{ (double)s.P.p.st->calls, 0, 0 };
    if (s.kind == 0) {
        const auto k = s.s().cast<Frackit::Disk<double>>(); checkDisk(k, s.scale);
        const double a = s.A->lastGood, b = s.B->lastGood;
        if (s.A->last != a || s.B->last != b) sim::violation("inadmissible-accepted", "the disk sampler accepted an inadmissible axis length");
        if (k.majorAxisLength() != a || k.minorAxisLength() != std::min(a, b)) sim::violation("axis-length", "axis lengths %.17g / %.17g, drawn were %.17g / %.17g", k.majorAxisLength(), k.minorAxisLength(), a, b);
        checkOrientation(k, s.X->last, s.Y->last, s.Z->last);
        if (norm(v3(k.center()) - s.P.p.st->last) > 1e-9 * (1 + norm(s.P.p.st->last))) sim::violation("center", "the center is not the sampled point");
        sim::probe("disk"); return;
    }
    const Drawn dummy{}; (void)dummy; std::vector<V3> v; bool asCorners = s.kind == 1 && sim::chance(40);
    py::object g = asCorners ? s.s.attr("sampleCorners")() : s.s();
    if (asCorners) for (auto h : g.cast<py::list>()) v.push_back(pv(py::reinterpret_borrow<py::object>(h)));
    else if (s.kind == 1) { const auto p = g.cast<Frackit::Polygon<double, 3>>(); for (std::size_t i = 0; i < p.numCorners(); ++i) v.push_back(v3(p.corner(i))); }
    else { const auto q = g.cast<Frackit::Quadrilateral<double, 3>>(); v = { v3(q.corner(0)), v3(q.corner(1)), v3(q.corner(3)), v3(q.corner(2)) }; }
    const Drawn dr{ s.X->last, s.Y->last, s.A->last, s.B->last, s.P.p.st->last };
    if (s.kind == 3) {
        V3 sd, dd, n; frame(dr, sd, dd, n); const V3 c = dr.c; const double sc = 4 * s.scale + 1e-3;
        // axes[0] is the dip direction, axes[1] the strike direction of the frame
        for (auto& p : v) { if (!finite(p)) sim::violation("non-finite", "corner with non-finite coordinates"); hashV(p); if (std::abs(dot(p - c, n)) > 1e-8 * (sc + norm(c))) sim::violation("not-planar", "corner is %.3g off the plane through the sampled center", dot(p - c, n)); }
        double m[4] = { norm(v[1] - v[2]), norm(v[3] - v[0]), -2 * dot(v[0] - c, dd), 2 * dot(v[1] - c, dd) };
        for (double x : m) if (!(x >= s.minEdge * (1 - 1e-9) - 1e-12 * norm(c))) sim::violation("edge-too-short", "quadrilateral dimension %.9g is below the minimum edge length %.9g", x, s.minEdge);
        for (double t : { dot(v[1] + v[2] - c - c, sd), dot(v[0] + v[3] - c - c, sd) }) if (std::abs(t) > 1e-8 * (sc + norm(c))) sim::violation("center", "edges are not centered at the sampled point: %.3g", t);
        if (s.minEdge > 1e-3 * s.scale) checkConvexLoop(v, n, s.scale * 2, "quadrilateral"); sim::probe("quadrilateral-edge-length-form"); return;
    }
    if (s.A->badLeft || s.B->badLeft || s.N->badLeft || s.A->last != s.A->lastGood || s.B->last != s.B->lastGood) sim::violation("inadmissible-accepted", "an inadmissible draw was accepted");
    if ((int)v.size() != (s.kind == 1 ? s.N->lastGood : 4)) sim::violation("corner-count", "%zu corners, sampled were %d", v.size(), s.N->lastGood);
    checkPlaced(dr, v, s.kind == 2); sim::probe(s.kind == 1 ? "polygon" : "quadrilateral");
}
static void shapes()
{
    std::vector<Session> ss; pythonEntropy(); const int ops = 4 + (int)sim::choose(40);
    for (int i = 0; i < ops; ++i) {
        sim::op(); std::string err;
        if (ss.empty() || (sim::chance(10) && ss.size() < 6)) {
            Session s; s.kind = (int)sim::choose(4); s.scale = scalePick(); if (s.kind == 3 && s.scale < 1e-2) s.scale = 1;
            const bool bomb = sim::chance(15); if (bomb) s.bomb->n = 1;
            const bool threw = pyThrows([&] { build(s); }, err);
            // a construction may try a sampler; if that fails, the failure must surface
            if (threw && !s.bomb->fired) sim::violation("construction", "constructing a sampler raised %s", err.c_str());
            if (threw && err != "py: RuntimeError: boom") sim::violation("failure-changed", "a failing sampler surfaced as %s during construction", err.c_str());
            if (!threw && s.bomb->fired) { sim::fault("failure-during-construction"); sim::violation("failure-swallowed", "a sampler that failed during construction went unnoticed"); }
            s.bomb->n = 0; s.bomb->fired = false; sim::log("session of kind %d, scale %g", s.kind, s.scale);
            if (!threw) ss.push_back(std::move(s)); continue;
        }
        auto& s = ss[sim::choose(ss.size())]; const bool bounded = s.kind == 1 || s.kind == 2; bool expectError = false, bomb = false; long burst = 0;
        auto inject = [&](DistState<double>& d, const char* name) {
            if (!sim::chance(25) || s.kind == 3) return; long n = 1 + (long)sim::choose(5);
            switch (sim::choose(4)) { case 0: n = 1 + (long)sim::choose(95); break; case 1: if (bounded) { n = 102 + (long)sim::choose(100); expectError = true; } else n = 1 + (long)sim::choose(1000); break; case 2: if (bounded) { n = 1000000000; expectError = true; sim::fault("unbounded-inadmissible"); } break; default: break; }
            d.badLeft = n; burst += std::min(n, 5000l); sim::fault(name);
        };
        inject(*s.A.d.st, "inadmissible-size-a"); inject(*s.B.d.st, "inadmissible-size-b");
        if (s.kind == 1 && sim::chance(25)) { long n = sim::chance(50) ? 1 + (long)sim::choose(95) : 102 + (long)sim::choose(3) * 100000000; if (n > 100) expectError = true; s.N->badLeft = n; burst += std::min(n, 5000l); sim::fault("inadmissible-corner-count"); }
        if (sim::chance(12)) { s.bomb->n = 1 + (long)sim::choose(10); bomb = true; }
        sim::drawBudget(bounded ? 1000 : burst + 400);
        const bool threw = pyThrows([&] { sampleAndCheck(s); }, err); sim::drawBudget(0);
        const bool fired = s.bomb->fired; if (fired) sim::fault("sampler-failure");
        if (!threw && expectError && !fired) sim::violation("error-missing", "a geometry was returned although a parameter never became admissible within 100 tries");
        if (!threw && fired) sim::violation("failure-swallowed", "a failing sampler went unnoticed");
        if (threw && fired) { if (err != "py: RuntimeError: boom") sim::violation("failure-changed", "a failing sampler surfaced as %s", err.c_str()); }
        else if (threw && !expectError) sim::violation("sampling-throws", "sampling raised %s", err.c_str());
        else if (threw && err.rfind("py: RuntimeError: ", 0) != 0) sim::violation("error-kind", "the documented error surfaced as %s", err.c_str());
        sim::log("kind %d burst %ld -> %s", s.kind, burst, threw ? err.c_str() : "sample"); sim::state(sim::mix(s.kind * 64 + threw + 2 * expectError + 4 * fired, burst > 100));
        s.A->badLeft = s.B->badLeft = 0; s.N->badLeft = 0; s.bomb->n = 0; s.bomb->fired = false; (void)bomb;
        if (threw) { sim::drawBudget(400); pyMust("no-recovery", "sampling after the faults stopped", [&] { sampleAndCheck(s); }); sim::drawBudget(0); sim::probe("recovered"); }
    }
}
void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    if (sim::choose(3) == 0) points(); else shapes();
}
