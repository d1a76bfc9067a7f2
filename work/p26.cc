// P26: point samplers with given distributions place points exactly where the draws say.
#include "common.hh"
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/sampling/makepointsampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include "domains.hh"
const char* simRealComponents = "BoxPointSampler, CylinderPointSampler, makePointSampler (boxes, cylinders, hollow cylinders), Box/Cylinder/HollowCylinder/Disk/Circle, std::default_random_engine";
const char* simStubComponents = "the coordinate distributions (stateful, simulator-controlled, may throw; through the traits seam), hardware entropy (may be unavailable), heap";
const char* simRule = "a run builds up to 6 point samplers with user-defined stateful distributions, directly or with makePointSampler, on random domains, copies and assigns them, and draws points in a seeded interleaving in which distributions throw; each point is recomputed from the recorded draws; non-trivial: a point was placed";
void simWarmup() {}
using namespace wl;

struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
struct Rec { int type; long family; double lo, hi, value; long pos; };
static std::vector<Rec> recs;
static long throwAt = 0, nextFamily = 1;

// a stateful distribution: every copy continues at its own position
template<int K>
struct D {
    using result_type = double;
    double lo, hi; long family, pos = 0; int mode = 0;
    D(double l, double h) : lo(l), hi(h), family(nextFamily++) {}
    D() : D(0, 1) {}
    template<class G> double operator()(G&)
    {
        sim::draw();
        if (throwAt > 0 && --throwAt == 0) throw Boom();
        double v;
        switch (sim::choose(10)) {
            case 1: v = lo; break;
            case 2: v = hi; break;
            default: v = sim::real(lo, hi); break;
        }
        recs.push_back({ K, family, lo, hi, v, pos++ });
        return v;
    }
    void reset() {}
};
template<int A, int B, int C> struct Traits { using DistributionBase1 = D<A>; using DistributionBase2 = D<B>; using DistributionBase3 = D<C>; };
using Mixed = Traits<1, 2, 3>; using Same = Traits<0, 0, 0>;
using Pts = Frackit::PointSampler<FPoint>;

struct Session {
    int kind = 0; bool made = false; V3 c, a, b, n; double r0 = 0, r1 = 0, h = 0; double lo[3], hi[3];
    long fam[3] = { -1, -1, -1 }, pos[3] = { 0, 0, 0 };
    std::shared_ptr<Pts> s; std::function<std::shared_ptr<Pts>(const Pts&)> copy; std::function<void(Pts&, const Pts&)> assign; int type = 0;
};

template<class S> void own(Session& s, S&& sampler, int type)
{
    using T = std::decay_t<S>;
    s.s = std::make_shared<T>(sampler); s.type = type;
    s.copy = [](const Pts& p) -> std::shared_ptr<Pts> { return std::make_shared<T>(static_cast<const T&>(p)); };
    s.assign = [](Pts& a, const Pts& b) { static_cast<T&>(a) = static_cast<const T&>(b); };
}

static Session makeSession()
{
    using namespace Frackit;
    Session s; const Domain d = randomDomain(); s.kind = d.kind;
    auto cylinder = [&]() -> Cylinder<double> {
        switch (d.orient) {
            case 0: { const double z = sim::chance(50) ? sim::real(-3, 3) * d.r1 : 0; s.c = { 0, 0, z }; s.n = { 0, 0, 1 }; s.a = { 1, 0, 0 }; return Cylinder<double>(d.r1, d.h, z); }
            case 1: { Circle<double, 3> k(fp(d.c), fd(d.n), d.r1); s.c = d.c; s.n = d.n; s.a = v3(k.base1()); return Cylinder<double>(k, d.h); }
            default: { s.c = d.c; s.n = d.n; s.a = d.b1; return Cylinder<double>(Disk<double>(fp(d.c), fd(d.b1), fd(d.b2), d.r1, d.r1), d.h); }
        }
    };
    s.made = sim::chance(50); s.r0 = d.r0; s.r1 = d.r1; s.h = d.h;
    if (d.kind == 0) { for (int k = 0; k < 3; ++k) { s.lo[k] = k == 0 ? d.lo.x : k == 1 ? d.lo.y : d.lo.z; s.hi[k] = k == 0 ? d.hi.x : k == 1 ? d.hi.y : d.hi.z; } }
    else { s.lo[0] = d.r0 * d.r0; s.hi[0] = d.r1 * d.r1; s.lo[1] = 0; s.hi[1] = 2 * M_PI; s.lo[2] = 0; s.hi[2] = d.h; }
    if (s.made) {
        if (d.kind == 0) own(s, makePointSampler<Mixed>(Box<double>(d.lo.x, d.lo.y, d.lo.z, d.hi.x, d.hi.y, d.hi.z)), 0);
        else if (d.kind == 1) own(s, makePointSampler<Mixed>(cylinder()), 1);
        else {
            auto go = [&](const HollowCylinder<double>& hc) { s.c = d.c; s.n = d.n; s.a = v3(hc.base1()); own(s, makePointSampler<Mixed>(hc), 1); };
            if (d.orient == 0) go(HollowCylinder<double>(d.r0, d.r1, d.h)); else go(HollowCylinder<double>(fp(d.c), fd(d.n), d.r0, d.r1, d.h));
        }
    } else {
        // the user's own distributions reach beyond the domain as well
        if (sim::chance(40)) {
            if (d.kind == 0) { for (int k = 0; k < 3; ++k) { const double w = s.hi[k] - s.lo[k]; s.lo[k] -= w; s.hi[k] += w; } }
            else { s.hi[0] *= 4; s.lo[1] = -9; s.hi[1] = 20; s.lo[2] = -d.h; s.hi[2] = 2 * d.h; }
        }
        if (sim::chance(15)) { const int k = (int)sim::choose(3); s.lo[k] = s.hi[k]; }
        if (sim::chance(50)) {
            D<0> x(s.lo[0], s.hi[0]), y(s.lo[1], s.hi[1]), z(s.lo[2], s.hi[2]); s.fam[0] = x.family; s.fam[1] = y.family; s.fam[2] = z.family;
            // the user may have drawn from a distribution before handing it over
            if (sim::chance(30)) { y.pos = s.pos[1] = 7; z.pos = s.pos[2] = 3; }
            if (d.kind == 0) own(s, BoxPointSampler<double, Same>(x, y, z), 2);
            else own(s, CylinderPointSampler<double, Same>(cylinder(), x, y, z), 3);
        } else {
            D<1> x(s.lo[0], s.hi[0]); D<2> y(s.lo[1], s.hi[1]); D<3> z(s.lo[2], s.hi[2]); s.fam[0] = x.family; s.fam[1] = y.family; s.fam[2] = z.family;
            if (d.kind == 0) own(s, BoxPointSampler<double, Mixed>(x, y, z), 0);
            else own(s, CylinderPointSampler<double, Mixed>(cylinder(), x, y, z), 1);
        }
    }
    s.b = cross(s.n, s.a);
    sim::log("%s sampler on %s, coordinates [%g %g] [%g %g] [%g %g]", s.made ? "made" : "direct", d.describe().c_str(), s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2]);
    return s;
}

static void account(Session& s)
{
    for (auto& r : recs) {
        int k = -1;
        if (r.type) { k = r.type - 1; if (s.fam[k] < 0) s.fam[k] = r.family; }
        else for (int j = 0; j < 3; ++j) if (s.fam[j] == r.family) k = j;
        if (k < 0 || s.fam[k] != r.family) sim::violation("foreign-distribution", "a point was drawn from another sampler's distribution");
        if (r.pos != s.pos[k]) sim::violation("distribution-state", "distribution %d was drawn from at its position %ld, but this sampler has drawn %ld values", k + 1, r.pos, s.pos[k]);
        s.pos[k]++;
        // a distribution made by makePointSampler() covers the domain
        const double tol = 1e-12 * (std::abs(s.lo[k]) + std::abs(s.hi[k]));
        if (!(std::abs(r.lo - s.lo[k]) <= tol && std::abs(r.hi - s.hi[k]) <= tol)) sim::violation("interval", "distribution %d was set up for [%.17g, %.17g] instead of [%.17g, %.17g]", k + 1, r.lo, r.hi, s.lo[k], s.hi[k]);
    }
}

static V3 place(const Session& s, const double* q)
{
    if (s.kind == 0) return { q[0], q[1], q[2] };
    const double r = std::sqrt(q[0]);
    return s.c + (r * std::cos(q[1])) * s.a + (r * std::sin(q[1])) * s.b + q[2] * s.n;
}

static void drawPoint(Session& s)
{
    recs.clear(); FPoint p; bool boom = false; std::string err;
    if (sim::chance(12)) throwAt = 1 + (long)sim::choose(3);
    sim::drawBudget(64);
    try { p = (*s.s)(); } catch (const Boom&) { boom = true; } catch (const std::exception& e) { sim::violation("throws", "drawing a point threw: %s", e.what()); } catch (...) { sim::violation("throws", "drawing a point threw"); }
    sim::drawBudget(0);
    throwAt = 0;
    account(s);
    if (boom) { sim::fault("distribution-throws"); sim::probe("failed-draw"); return; }
    double q[3]; bool have[3] = { false, false, false };
    for (auto& r : recs) for (int k = 0; k < 3; ++k) if (s.fam[k] == r.family) { q[k] = r.value; have[k] = true; }
    for (int k = 0; k < 3; ++k) if (!have[k]) sim::violation("no-draw", "a point was made without a draw of coordinate %d", k + 1);
    const V3 want = place(s, q), got = v3(p); hashV(got);
    const double size = s.kind == 0 ? norm(want) : norm(s.c) + std::sqrt(q[0]) + std::abs(q[2]);
    if (!(norm(got - want) <= 1e-10 * (size + 1e-12))) sim::violation("point", "the draws (%.17g, %.17g, %.17g) place the point at (%.17g, %.17g, %.17g), the sampler says (%.17g, %.17g, %.17g)", q[0], q[1], q[2], want.x, want.y, want.z, got.x, got.y, got.z);
    sim::probe(s.kind == 0 ? "box-point" : s.kind == 1 ? "cylinder-point" : "hollow-cylinder-point");
}

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32)); throwAt = 0; nextFamily = 1; recs.clear();
    std::vector<Session> ss; const int ops = 4 + (int)sim::choose(80);
    for (int i = 0; i < ops; ++i) {
        sim::op(); const auto w = sim::choose(16);
        if (ss.empty() || (w == 15 && ss.size() < 6)) {
            sim::entropyMode(sim::chance(15) ? sim::Entropy::stuck : sim::Entropy::tape, 0);
            recs.clear(); Session s; mustNotThrow("construction", "making a point sampler", [&] { s = makeSession(); });
            account(s); // values drawn ahead are counted with the sampler
            ss.push_back(std::move(s)); continue;
        }
        auto& s = ss[sim::choose(ss.size())];
        if (w == 14 && ss.size() < 6) { // a copy goes its own way
            Session t = s; mustNotThrow("copy", "copying a point sampler", [&] { t.s = s.copy(*s.s); }); ss.push_back(std::move(t)); sim::probe("copied-sampler"); sim::log("copy"); continue;
        }
        if (w == 13) {
            for (auto& t : ss) if (&t != &s && t.type == s.type) {
                mustNotThrow("copy", "assigning a point sampler", [&] { s.assign(*s.s, *t.s); });
                auto keep = s.s; s = t; s.s = keep; sim::probe("assigned-sampler"); sim::log("assign"); break;
            }
        }
        const int n = 1 + (int)sim::choose(8);
        for (int j = 0; j < n; ++j) drawPoint(s);
        sim::state(sim::mix(s.kind * 2 + s.made, sim::mix(s.type, (uint64_t)(std::log2(s.kind ? s.r1 + s.h : s.hi[0] - s.lo[0] + 1e-9) + 40))));
    }
}
