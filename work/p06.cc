// P06: sampling sessions are reproducible from their entropy and isolated from each other.
#include "common.hh"
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include "domains.hh"
const char* simRealComponents = "all samplers with their standard distributions and engines: uniform point samplers on boxes, cylinders and hollow cylinders, DiskSampler, PolygonSampler, QuadrilateralSampler (both forms), MultiGeometrySampler";
const char* simStubComponents = "hardware entropy (per-session streams), heap placement";
const char* simRule = "a run executes 2-6 sampling sessions under a seeded interleaving, then repeats every session alone with the same entropy stream under another heap layout and another interleaving, and once with other entropy; outputs are compared bit by bit; non-trivial: at least two sessions produced values";
void simWarmup() {}
using namespace wl;
using namespace Frackit;

using Poly = Polygon<double, 3>; using Quad = Quadrilateral<double, 3>;
struct Spec { int kind; Domain dom; uint64_t entropy; double p[6]; int n; int flip = -1; };
struct Session {
    Spec sp; std::vector<double> out; uint64_t position = 0; // in its entropy stream
    std::unique_ptr<PointSampler<FPoint>> pts; std::unique_ptr<PointSampler<FPoint>> original;
    std::unique_ptr<DiskSampler<double>> disk; std::unique_ptr<PolygonSampler<3, double>> poly; std::unique_ptr<QuadrilateralSampler<3, double>> quad;
    std::unique_ptr<MultiGeometrySampler<Disk<double>, Poly, Quad>> multi;

    void put(V3 v) { out.push_back(v.x); out.push_back(v.y); out.push_back(v.z); }
    template<class PS> void makeOn(const PS& ps)
    {
        using ND = std::normal_distribution<double>; using UD = std::uniform_real_distribution<double>; using UI = std::uniform_int_distribution<int>;
        const double* p = sp.p; original = std::make_unique<PS>(ps); // the caller goes on using its point sampler
        auto mkDisk = [&] { return DiskSampler<double>(ps, ND(p[0], p[1]), ND(p[2], p[1]), ND(p[3], p[4]), ND(p[4], p[3]), ND(p[5], p[1])); };
        auto mkPoly = [&] { return PolygonSampler<3, double>(ps, ND(p[3], p[4]), ND(p[5], p[4]), UD(p[0], p[0] + p[1]), UD(p[2], p[2] + p[1]), UI(3, sp.n)); };
        auto mkQuad = [&] { return QuadrilateralSampler<3, double>(ps, ND(p[3], p[4]), ND(p[5], p[4]), UD(p[0], p[0] + p[1]), UD(p[2], p[2] + p[1])); };
        switch (sp.kind) {
            case 1: disk = std::make_unique<DiskSampler<double>>(mkDisk()); break;
            case 2: poly = std::make_unique<PolygonSampler<3, double>>(mkPoly()); break;
            case 3: quad = std::make_unique<QuadrilateralSampler<3, double>>(mkQuad()); break;
            case 4: quad = std::make_unique<QuadrilateralSampler<3, double>>(ps, ND(p[3], p[4]), ND(p[5], p[4]), ND(p[0], p[1]), 0.01); break;
            default:
                multi = std::make_unique<MultiGeometrySampler<Disk<double>, Poly, Quad>>();
                multi->addGeometrySampler(mkDisk(), Id(1)); multi->addGeometrySampler(mkPoly(), Id(7)); multi->addGeometrySampler(mkQuad(), Id(3));
        }
    }
    void build(const Spec& s) { sp = s; resume(); construct(); position = sim::entropyPosition(); }
    void resume() { sim::entropyStream(sp.entropy, position); sim::entropyFlip(sp.flip); }
    void step() { resume(); sample(); position = sim::entropyPosition(); }
    void construct()
    {
        const Domain& d = sp.dom;
        if (sp.kind == 0) { pts = makeSampler(d); return; }
        if (d.kind == 0) makeOn(makeUniformPointSampler(Box<double>(d.lo.x, d.lo.y, d.lo.z, d.hi.x, d.hi.y, d.hi.z)));
        else if (d.kind == 1) makeOn(makeUniformPointSampler(Cylinder<double>(Circle<double, 3>(fp(d.c), fd(d.n), d.r1), d.h)));
        else makeOn(makeUniformPointSampler(HollowCylinder<double>(fp(d.c), fd(d.n), d.r0, d.r1, d.h)));
    }
    void put(const Disk<double>& g) { put(v3(g.center())); put(v3(g.majorAxis())); put(v3(g.minorAxis())); out.push_back(g.majorAxisLength()); out.push_back(g.minorAxisLength()); }
    void put(const Poly& g) { for (std::size_t i = 0; i < g.numCorners(); ++i) put(v3(g.corner(i))); }
    void put(const Quad& g) { for (int i = 0; i < 4; ++i) put(v3(g.corner(i))); }
    void sample()
    {
        if (pts) put(v3((*pts)()));
        else if (disk) put((*disk)());
        else if (poly) put((*poly)());
        else if (quad) put((*quad)());
        else {
            Id id; auto g = (*multi)(id); out.push_back((double)id.get());
            if (auto p = dynamic_cast<Disk<double>*>(g.get())) put(*p);
            else if (auto p = dynamic_cast<Poly*>(g.get())) put(*p);
            else if (auto p = dynamic_cast<Quad*>(g.get())) put(*p);
            else sim::violation("type", "unknown geometry type returned");
        }
    }
};

static void same(const std::vector<double>& a, const std::vector<double>& b, const char* cls, const char* what, int s)
{
    if (a.size() != b.size()) sim::violation(cls, "session %d: %zu values %s, %zu values alone", s, a.size(), what, b.size());
    for (size_t i = 0; i < a.size(); ++i) if (memcmp(&a[i], &b[i], 8)) sim::violation(cls, "session %d: value %zu is %.17g %s and %.17g alone", s, i, a[i], what, b[i]);
}

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    const int n = 2 + (int)sim::choose(5);
    std::vector<Spec> sp;
    for (int i = 0; i < n; ++i) {
        Spec s; s.kind = (int)sim::choose(6); s.dom = randomDomain(); s.entropy = sim::choose(1ull << 62) + 1; s.n = 3 + (int)sim::choose(8);
        for (auto& p : s.p) p = sim::real(0.2, 2);
        if (i && sim::chance(30)) { const auto e = s.entropy; s = sp[sim::choose(sp.size())]; if (sim::chance(50)) { s.entropy = e; sim::probe("twin-other-entropy"); } else sim::probe("twin-same-entropy"); }
        sp.push_back(s);
    }
    if (sim::chance(10)) { const auto e = sp[0].entropy; for (auto& s : sp) s.entropy = e; sim::fault("entropy-repeats"); }
    std::vector<std::unique_ptr<Session>> S(n); std::vector<long> steps(n, 0);
    const int ops = 10 + (int)sim::choose(80); uint64_t order = 0;
    for (int i = 0; i < ops; ++i) {
        sim::op(); const int k = (int)sim::choose(n); order = sim::mix(order, k);
        if (!S[k]) { S[k] = std::make_unique<Session>(); mustNotThrow("construction", "constructing a session", [&] { S[k]->build(sp[k]); }); sim::log("session %d created: kind %d in %s", k, sp[k].kind, sp[k].dom.describe().c_str()); continue; }
        mustNotThrow("sampling", "sampling", [&] { S[k]->step(); }); steps[k]++;
        if (sim::chance(4)) { // unrelated activity: a bystander is created, used and destroyed
            Session b; Spec o = sp[sim::choose(n)]; o.entropy ^= 0x1234567; mustNotThrow("sampling", "sampling", [&] { b.build(o); b.step(); b.step(); }); sim::probe("bystander");
        }
        if (S[k]->original && sim::chance(15)) { mustNotThrow("sampling", "sampling points", [&] { (*S[k]->original)(); }); sim::probe("point-sampler-used-elsewhere"); }
        if (sim::chance(10)) sim::heapLayout(sim::choose(1ull << 32));
        if (sim::chance(8)) { sim::clockJump((int64_t)sim::choose(1ull << 55) - (1ll << 54)); sim::fault("clock-jump"); }
    }
    sim::state(order);
    int live = 0;
    for (int k = 0; k < n; ++k) if (S[k] && steps[k]) {
        ++live;
        sim::log("session %d: %ld samples", k, steps[k]); for (double d : S[k]->out) sim::hashDouble(d);
        sim::heapLayout(sim::choose(1ull << 32)); sim::clockJump((int64_t)sim::choose(1ull << 55) + 1); sim::processId(2 + (int)sim::choose(30000));
        Session r; mustNotThrow("sampling", "re-execution", [&] { r.build(sp[k]); for (long i = 0; i < steps[k]; ++i) r.step(); });
        same(S[k]->out, r.out, "not-reproducible", "interleaved with other sessions", k);
        Session d; Spec o = sp[k]; o.entropy = o.entropy * 3 + 0x9e3779b9;
        mustNotThrow("sampling", "re-execution", [&] { d.build(o); for (long i = 0; i < steps[k]; ++i) d.step(); });
        if (d.out == r.out) sim::violation("entropy-ignored", "session %d: other entropy produces the identical sequence", k);
        if (sim::chance(50)) { // entropy that differs in single bits only
            Session f; o = sp[k]; o.flip = (int)sim::choose(32); mustNotThrow("sampling", "re-execution", [&] { f.build(o); for (long i = 0; i < steps[k]; ++i) f.step(); });
            if (f.out == r.out) sim::violation("entropy-ignored", "session %d: entropy with bit %d flipped produces the identical sequence", k, o.flip); sim::probe("entropy-bit-flipped");
        }
    }
    if (live >= 2) sim::probe("interleaved");
    // sessions with equal specification and entropy agree on their common prefix; with different entropy they differ
    for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) if (S[a] && S[b] && steps[a] && steps[b] && !memcmp(sp[a].p, sp[b].p, sizeof sp[a].p) && sp[a].kind == sp[b].kind) {
        const size_t m = std::min(S[a]->out.size(), S[b]->out.size()); bool eq = std::equal(S[a]->out.begin(), S[a]->out.begin() + m, S[b]->out.begin());
        if (sp[a].entropy == sp[b].entropy && !eq) sim::violation("not-reproducible", "equal sessions %d and %d with equal entropy differ", a, b);
        if (sp[a].entropy != sp[b].entropy && eq) sim::violation("entropy-ignored", "sessions %d and %d repeat each other although their entropy differs", a, b);
    }
}
