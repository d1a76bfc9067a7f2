// P05: sampling makes progress: returns as soon as admissible values appear, or reports a documented error; failures leave the sampler usable.
#include "polycheck.hh"
#include "diskcheck.hh"
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/geometry/box.hh>
const char* simRealComponents = "DiskSampler, PolygonSampler, QuadrilateralSampler (both forms), MultiGeometrySampler, default_random_engine";
const char* simStubComponents = "size/angle/corner distributions and centre samplers (simulator-controlled through the traits seam), hardware entropy, heap and its failures";
const char* simRule = "a run drives a population of samplers; bursts of inadmissible draws (up to several thousand, or unbounded), distributions and centre samplers that fail, unavailable entropy and failing allocations are injected; afterwards faults stop and every sampler must deliver within a bounded number of draws; non-trivial: at least one sample or documented error was produced";
void simWarmup() {}
using namespace wl;

struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
// throws on the nth call from now on (0: never); shared by all distributions of one sampler
struct Bomb { long n = 0; bool fired = false; void tick() { if (n > 0 && --n == 0) { fired = true; throw Boom(); } } };
template<class R> struct BDist {
    using result_type = R; Dist<R> d; std::shared_ptr<Bomb> b = std::make_shared<Bomb>();
    template<class G> R operator()(G& g) { b->tick(); return d(g); }
    template<class G, class P> R operator()(G& g, const P&) { return (*this)(g); }
    void reset() {}
};
struct BPoints : public Frackit::PointSampler<FPoint> {
    SimPoints p; std::shared_ptr<Bomb> b;
    FPoint operator()() override { b->tick(); return p(); }
};
struct PT {
    using StrikeAngleDistribution = BDist<double>; using DipAngleDistribution = BDist<double>;
    using StrikeLengthDistribution = BDist<double>; using DipLengthDistribution = BDist<double>; using NumCornersDistribution = BDist<int>;
};
struct DT {
    using MajorAxisLengthDistribution = BDist<double>; using MinorAxisLengthDistribution = BDist<double>;
    using XAngleDistribution = BDist<double>; using YAngleDistribution = BDist<double>; using ZAngleDistribution = BDist<double>;
};
using PolyS = Frackit::PolygonSampler<3, double, PT>;
using QuadS = Frackit::QuadrilateralSampler<3, double, PT>;
using DiskS = Frackit::DiskSampler<double, DT>;

struct Sess {
    int kind = 0; // 0 disk 1 polygon 2 quad 3 deprecated quad
    BDist<double> A, B, X, Y, Z; BDist<int> N; BPoints P; std::shared_ptr<Bomb> bomb = std::make_shared<Bomb>();
    std::unique_ptr<PolyS> poly; std::unique_ptr<QuadS> quad; std::unique_ptr<DiskS> disk; double minEdge = 0;
    long samples = 0;
};

static void build(Sess& s)
{
    s.P.b = s.bomb; s.A.b = s.B.b = s.X.b = s.Y.b = s.Z.b = s.bomb; s.N.b = s.bomb;
    for (auto* d : { &s.A, &s.B }) { d->d.st->lo = 0.1; d->d.st->hi = 2; d->d.st->bad = badLength; }
    for (auto* d : { &s.X, &s.Y, &s.Z }) { d->d.st->lo = -M_PI; d->d.st->hi = M_PI; }
    s.N.d.st->lo = 3; s.N.d.st->hi = 9; s.N.d.st->bad = [] { return 2 - (int)sim::choose(5); };
    if (s.kind == 0) s.disk = std::make_unique<DiskS>(s.P, s.A, s.B, s.X, s.Y, s.Z);
    else if (s.kind == 1) s.poly = std::make_unique<PolyS>(s.P, s.X, s.Y, s.A, s.B, s.N);
    else if (s.kind == 2) s.quad = std::make_unique<QuadS>(s.P, s.X, s.Y, s.A, s.B);
    else {
        s.minEdge = sim::chance(50) ? sim::real(0.05, 0.5) : 1e-7;
        const double mean = s.minEdge + sim::real(0, 0.3), sd = sim::real(0.01, 1.0);
        s.quad = std::make_unique<QuadS>(s.P, s.X, s.Y, std::normal_distribution<double>(mean, sd), s.minEdge);
    }
}

// one sample; checks that what comes back is a proper geometry made from the admissible draws
static void sampleOnce(Sess& s)
{
    std::vector<V3> v; std::string bad;
    // the checks come after the armed failures are off
    if (s.disk) {
        auto g = (*s.disk)(); sim::allocationFaultsOff();
        checkDisk(g, 1); const double a = s.A.d.st->lastGood, b = s.B.d.st->lastGood;
        if (g.majorAxisLength() != a || g.minorAxisLength() != std::min(a, b)) sim::violation("not-as-drawn", "disk axes %g %g do not follow the admissible draws %g %g", g.majorAxisLength(), g.minorAxisLength(), a, b);
        checkOrientation(g, s.X.d.st->last, s.Y.d.st->last, s.Z.d.st->last); return;
    }
    if (s.poly) { auto c = s.poly->sampleCorners(); sim::allocationFaultsOff(); for (auto& p : c) v.push_back(v3(p)); if ((int)v.size() != s.N.d.st->lastGood) sim::violation("not-as-drawn", "polygon with %zu corners, %d were drawn", v.size(), s.N.d.st->lastGood); }
    else { auto g = (*s.quad)(); sim::allocationFaultsOff(); for (int i : { 0, 1, 3, 2 }) { v.push_back(v3(g.corner(i))); if (!finite(v.back())) sim::violation("bad-geometry", "non-finite corner"); hashV(v.back()); } }
    if (s.kind != 3) checkPlaced({ s.X.d.st->last, s.Y.d.st->last, s.A.d.st->lastGood, s.B.d.st->lastGood, s.P.p.st->last }, v, s.kind == 2);
    else { V3 sd, dd, n; frame({ s.X.d.st->last, s.Y.d.st->last, 1, 1, s.P.p.st->last }, sd, dd, n); checkConvexLoop(v, n, 2, "quadrilateral"); for (int i = 0; i < 4; i += 2) if (norm(v[(i + 2) % 4] - v[i + 1]) < s.minEdge * (1 - 1e-9)) sim::violation("not-as-drawn", "an edge is shorter than the minimum edge length %g", s.minEdge); }
}

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    if (sim::chance(15)) { sim::entropyMode(sim::Entropy::stuck, (uint32_t)sim::choose(1ull << 32)); }
    std::vector<Sess> ss; const int ops = 4 + (int)sim::choose(50);
    for (int i = 0; i < ops; ++i) {
        sim::op();
        if (ss.empty() || (sim::chance(10) && ss.size() < 6)) {
            Sess s; s.kind = (int)sim::choose(4);
            if (sim::chance(8)) {
                // the entropy source is unavailable while the sampler is constructed
                sim::entropyUnavailable(0); std::string err;
                if (!throws([&] { build(s); }, err)) sim::violation("entropy-failure-swallowed", "sampler was constructed without entropy");
                sim::entropyUnavailable(-1); sim::probe("construction-failed"); sim::log("construction without entropy: %s", err.c_str());
            }
            Sess t; t.kind = s.kind;
            mustNotThrow("construction", "constructing a sampler", [&] { build(t); });
            ss.push_back(std::move(t)); continue;
        }
        auto& s = ss[sim::choose(ss.size())];
        bool expectError = false; const bool bounded = s.kind == 1 || s.kind == 2; long burst = 0; bool errorAllowed = false;
        auto inject = [&](auto& d, const char* name, const char* inf) {
            if (!sim::chance(25) || s.kind == 3) return;
            long n = 1 + (long)sim::choose(5);
            switch (sim::choose(4)) {
                case 0: n = 1 + (long)sim::choose(95); break;
                case 1: if (bounded) { n = 102 + (long)sim::choose(100); expectError = true; } else n = 1 + (long)sim::choose(4000); break;
                case 2: if (bounded) { n = 1000000000; expectError = true; sim::fault(inf); } break;
                default: break;
            }
            d.d.st->badLeft = n; burst += std::min(n, 5000L); sim::fault(name);
        };
        inject(s.A, "inadmissible-size-a", "unbounded-size-a"); inject(s.B, "inadmissible-size-b", "unbounded-size-b");
        if (s.kind == 1) inject(s.N, "inadmissible-corner-count", "unbounded-corner-count");
        if (sim::chance(15)) { s.bomb->n = 1 + (long)sim::choose(12); s.bomb->fired = false; errorAllowed = true; }
        bool alloc = false;
        if (!errorAllowed && sim::chance(15)) { sim::failAllocation(1 + sim::choose(30), 1); alloc = true; }
        // progress: at most 100 retries per inadmissible parameter plus the draws a sample needs
        sim::drawBudget(bounded ? 1000 : burst + 200);
        std::string err; const bool threw = throws([&] { sampleOnce(s); }, err);
        sim::drawBudget(0);
        const bool allocFired = alloc && sim::allocationFailed(); sim::failAllocation(0, 0);
        if (allocFired) sim::fault("allocation-failure");
        if (s.bomb->fired) sim::fault("collaborator-failure");
        if (!threw) {
            if (expectError && !(s.bomb->fired)) sim::violation("error-missing", "a sample was returned although a parameter never became admissible within 100 tries");
            if (s.bomb->fired) sim::violation("failure-swallowed", "a failing distribution or centre sampler went unnoticed");
            if (allocFired) sim::probe("alloc-failure-masked");
            s.samples++; sim::probe("sampled");
        } else {
            if (s.bomb->fired) { if (err != "std: boom") sim::violation("failure-changed", "the failure of a distribution surfaced as: %s", err.c_str()); sim::probe("collaborator-failed"); }
            else if (allocFired) { if (err != "bad_alloc") sim::violation("failure-changed", "an allocation failure surfaced as: %s", err.c_str()); sim::probe("allocation-failed"); }
            else if (!expectError) sim::violation("unexpected-error", "sampling threw although admissible values were available: %s", err.c_str());
            else sim::probe("documented-error");
        }
        sim::log("kind %d burst %ld -> %s", s.kind, burst, threw ? err.c_str() : "sample");
        sim::state(sim::mix(s.kind * 64 + (threw ? 1 : 0) + 2 * expectError + 4 * allocFired + 8 * s.bomb->fired, burst > 100));
        // faults stop
        s.A.d.st->badLeft = s.B.d.st->badLeft = 0; s.N.d.st->badLeft = 0; s.bomb->n = 0; s.bomb->fired = false;
        if (threw) {
            sim::drawBudget(200);
            mustNotThrow("no-recovery", "sampling after the faults stopped", [&] { sampleOnce(s); });
            sim::drawBudget(0); sim::probe("recovered");
        }
    }
}
