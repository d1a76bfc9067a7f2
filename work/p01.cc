// P01: uniform point samplers never leave the domain they were made for.
#include "common.hh"
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include "domains.hh"
const char* simRealComponents = "Box/Cylinder/HollowCylinder geometries, makeUniformPointSampler, Box/CylinderPointSampler, std::uniform_real_distribution, std::default_random_engine";
const char* simStubComponents = "hardware entropy (std::random_device), heap";
const char* simRule = "a run builds up to 6 samplers on random domains (all shapes, placements, orientations, scales) with simulated entropy (random, zero, all-ones, stuck), draws points in a seeded interleaving, including copies of samplers taken mid-stream, and checks each point against an independent membership formula; non-trivial: at least one point was drawn";
void simWarmup() {}

void simRun()
{
    using namespace wl;
    sim::heapLayout(sim::choose(1ull << 32));
    struct Session { Domain d; std::unique_ptr<Frackit::PointSampler<FPoint>> s; };
    std::vector<Session> ss;
    const int ops = 3 + (int)sim::choose(60);
    for (int i = 0; i < ops; ++i) {
        sim::op();
        const auto k = sim::choose(10);
        if (ss.empty() || (k == 9 && ss.size() < 6)) {
            Session s; s.d = randomDomain();
            switch (sim::choose(6)) {
                case 1: sim::entropyMode(sim::Entropy::stuck, 0); break;
                case 2: sim::entropyMode(sim::Entropy::stuck, 0xffffffffu); break;
                case 3: sim::entropyMode(sim::Entropy::stuck, 2147483647u); break;
                default: sim::entropyMode(sim::Entropy::tape); break;
            }
            mustNotThrow("sampler-construction", "making a uniform point sampler", [&] { s.s = makeSampler(s.d); });
            sim::log("session %zu: %s", ss.size(), s.d.describe().c_str());
            ss.push_back(std::move(s));
        }
        auto& s = ss[sim::choose(ss.size())];
        const int n = 1 + (int)sim::choose(sim::chance(5) ? 5000 : 50);
        for (int j = 0; j < n; ++j) {
            V3 p; sim::draw();
            mustNotThrow("sampling-throws", "drawing a point", [&] { p = v3((*s.s)()); });
            hashV(p);
            const double out = s.d.outside(p);
            if (!(out <= 1e-9 * s.d.scale())) sim::violation("outside-domain", "point (%.17g, %.17g, %.17g) lies %.3g outside %s", p.x, p.y, p.z, out, s.d.describe().c_str());
        }
        sim::state(sim::mix(s.d.kind * 16 + s.d.orient, (uint64_t)(std::log2(s.d.scale()) + 40)));
        sim::probe(s.d.kind == 0 ? "box-points" : s.d.kind == 1 ? "cylinder-points" : "hollow-cylinder-points");
    }
}
