// P02: uniform point samplers are uniform with respect to volume.
#include "common.hh"
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include "domains.hh"
const char* simRealComponents = "Box/Cylinder/HollowCylinder geometries, makeUniformPointSampler, Box/CylinderPointSampler, std::uniform_real_distribution, std::default_random_engine";
const char* simStubComponents = "hardware entropy (std::random_device), heap";
const char* simRule = "a run draws 20000 points from one sampler (possibly copied or interleaved with draws of a second sampler) under one simulated entropy stream and compares the joint counts over equal-volume cells, the marginals and consecutive-point pairs with the uniform law; the acceptance bound is far beyond sampling noise (about 11 standard deviations); non-trivial: all points were counted";
void simWarmup() {}

void simRun()
{
    using namespace wl;
    sim::heapLayout(sim::choose(1ull << 32));
    const Domain d = randomDomain();
    const Domain d2 = randomDomain();
    std::unique_ptr<Frackit::PointSampler<FPoint>> s, s2;
    mustNotThrow("sampler-construction", "making a uniform point sampler", [&] { s = makeSampler(d); s2 = makeSampler(d2); });
    sim::log("%s (interleaved with %s)", d.describe().c_str(), d2.describe().c_str());
    const int n = 20000; const bool inter = sim::chance(30);
    std::array<std::vector<long>, 3> marg; for (auto& m : marg) m.assign(20, 0);
    std::vector<long> joint(4 * 6 * 4, 0), serial(5 * 5 * 3, 0); std::vector<long> octPair(64, 0);
    std::array<double, 3> prev{}; int prevOct = 0;
    for (int i = 0; i < n; ++i) {
        if (inter && i % 7 == 3) (void)(*s2)();
        const auto u = d.unitCoords(v3((*s)())); sim::draw();
        std::array<int, 3> q; 
        for (int k = 0; k < 3; ++k) {
            if (!(u[k] > -1e-6 && u[k] < 1 + 1e-6)) sim::violation("outside-domain", "coordinate %d of a sampled point is %.9g of the range of %s", k, u[k], d.describe().c_str());
            const double c = std::min(std::max(u[k], 0.0), 1.0 - 1e-12);
            marg[k][(int)(c * 20)]++; q[k] = (int)(c * (k == 1 ? 6 : 4));
        }
        joint[(q[0] * 6 + q[1]) * 4 + q[2]]++;
        const int oct = (u[0] > .5) + 2 * (u[1] > .5) + 4 * (u[2] > .5);
        if (i) { if (i % 2) octPair[oct * 8 + prevOct]++; }
        prev = u; prevOct = oct;
    }
    chi2(joint, "joint cell counts", d);
    for (int k = 0; k < 3; ++k) chi2(marg[k], k == 0 ? "first coordinate" : k == 1 ? "second coordinate" : "third coordinate", d);
    chi2(octPair, "consecutive octants", d);
    sim::probe(d.kind == 0 ? "box" : d.kind == 1 ? "cylinder" : "hollow-cylinder");
    sim::state(sim::mix(d.kind * 16 + d.orient, (uint64_t)(std::log2(d.scale()) + 40)));
}
