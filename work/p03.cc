// P03: sampled disks are well formed and follow the draws, for every sequence of draws.
#include "diskcheck.hh"
#include <frackit/sampling/disksampler.hh>
#include <frackit/geometry/box.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
const char* simRealComponents = "DiskSampler (custom and default traits), Disk/EllipticalGeometry, rotate(), uniform point sampler of a box";
const char* simStubComponents = "the five parameter distributions and the centre sampler (simulator-controlled through the traits seam), hardware entropy, heap";
const char* simRule = "a run interleaves several disk samplers (and copies), each with simulator-decided distributions that deliver bursts of inadmissible axis lengths (zero, negative, tiny), ties, minor larger than major and any rotation angle, or with the default traits; each disk is checked; non-trivial: a disk was produced after at least one inadmissible, tied or swapped draw";
void simWarmup() {}
using namespace wl;
struct Traits {
    using MajorAxisLengthDistribution = Dist<double>; using MinorAxisLengthDistribution = Dist<double>;
    using XAngleDistribution = Dist<double>; using YAngleDistribution = Dist<double>; using ZAngleDistribution = Dist<double>;
};
void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    struct Session { Dist<double> A, B, X, Y, Z; SimPoints P; std::unique_ptr<Frackit::DiskSampler<double, Traits>> s; double scale; };
    std::vector<Session> ss;
    std::vector<std::unique_ptr<Frackit::DiskSampler<double>>> real; std::vector<double> meanOf;
    const int ops = 4 + (int)sim::choose(120);
    for (int i = 0; i < ops; ++i) {
        sim::op();
        const auto w = sim::choose(20);
        if (ss.empty() || (w == 19 && ss.size() < 4)) {
            Session s; s.scale = scalePick();
            s.A.st->lo = s.scale * 0.1; s.A.st->hi = s.scale * 2; s.B.st->lo = s.scale * 0.05; s.B.st->hi = s.scale * 3;
            s.A.st->bad = s.B.st->bad = badLength;
            for (auto* a : { &s.X, &s.Y, &s.Z }) { if (sim::chance(80)) { a->st->lo = -2 * M_PI; a->st->hi = 2 * M_PI; } }
            mustNotThrow("construction", "constructing a disk sampler", [&] { s.s = std::make_unique<Frackit::DiskSampler<double, Traits>>(s.P, s.A, s.B, s.X, s.Y, s.Z); });
            ss.push_back(std::move(s)); continue;
        }
        if (w == 18 && real.size() < 3) {
            using PS = decltype(Frackit::makeUniformPointSampler(Frackit::Box<double>(0, 0, 0, 1, 1, 1)));
            auto ps = Frackit::makeUniformPointSampler(Frackit::Box<double>(-1, -1, -1, 1, 1, 1));
            const double m = sim::real(-0.2, 1), sd = sim::real(0.05, 1);
            std::normal_distribution<double> A(m, sd), B(sim::real(-0.2, 1), sd), an(sim::real(-3, 3), sim::real(0.01, 2));
            (void)sizeof(PS);
            real.push_back(std::make_unique<Frackit::DiskSampler<double>>(ps, A, B, an, an, an)); continue;
        }
        if (w >= 15 && !real.empty()) {
            auto& s = real[sim::choose(real.size())];
            Frackit::Disk<double> k; sim::draw();
            mustNotThrow("sampling-throws", "sampling a disk", [&] { k = (*s)(); });
            checkDisk(k, 1);
            if (std::abs(k.center().x()) > 1 || std::abs(k.center().y()) > 1 || std::abs(k.center().z()) > 1) sim::violation("center", "center outside the sampled box");
            sim::probe("default-traits"); continue;
        }
        auto& s = ss[sim::choose(ss.size())];
        if (w == 14) { mustNotThrow("copy", "copying a disk sampler", [&] { s.s = std::make_unique<Frackit::DiskSampler<double, Traits>>(*s.s); }); sim::probe("copied-sampler"); }
        long burst = 0;
        if (sim::chance(35)) { s.A.st->badLeft = 1 + (long)sim::choose(sim::chance(5) ? 3000 : 5); burst += s.A.st->badLeft; sim::fault("inadmissible-major"); }
        if (sim::chance(35)) { s.B.st->badLeft = 1 + (long)sim::choose(sim::chance(5) ? 3000 : 5); burst += s.B.st->badLeft; sim::fault("inadmissible-minor"); }
        if (sim::chance(10)) { s.B.st->lo = s.B.st->hi = s.A.st->hi; s.A.st->lo = s.A.st->hi; sim::fault("tied-axes"); }
        Frackit::Disk<double> k;
        sim::drawBudget(burst + 2000);
        const long calls = s.P.st->calls, good = s.A.st->calls + s.B.st->calls - s.A.st->badGiven - s.B.st->badGiven;
        mustNotThrow("sampling-throws", "sampling a disk", [&] { k = (*s.s)(); });
        sim::drawBudget(0);
        checkDisk(k, s.scale);
        const double a = s.A.st->lastGood, b = s.B.st->lastGood;
        if (s.A.st->badLeft || s.B.st->badLeft) sim::violation("inadmissible-accepted", "the sampler accepted an inadmissible axis length");
        if (k.majorAxisLength() != a) sim::violation("major-length", "major axis length %.17g is not the admissible draw %.17g", k.majorAxisLength(), a);
        if (k.minorAxisLength() != std::min(a, b)) sim::violation("minor-length", "minor axis length %.17g is not min(draws %.17g, %.17g)", k.minorAxisLength(), a, b);
        if (const long g = s.A.st->calls + s.B.st->calls - s.A.st->badGiven - s.B.st->badGiven - good; g != 2) sim::violation("redrawn", "%ld admissible axis lengths were drawn for one disk", g);
        if (b > a) sim::probe("minor-draw-exceeds-major");
        if (s.P.st->calls == calls) sim::violation("center", "no center was sampled");
        const V3 c = v3(k.center());
        if (norm(c - s.P.st->last) > 1e-9 * (1 + norm(c))) sim::violation("center", "center (%g %g %g) is not the sampled point (%g %g %g)", c.x, c.y, c.z, s.P.st->last.x, s.P.st->last.y, s.P.st->last.z);
        checkOrientation(k, s.X.st->last, s.Y.st->last, s.Z.st->last);
        sim::log("disk a %g b %g center (%g %g %g) burst %ld", a, b, c.x, c.y, c.z, burst);
        sim::state(sim::mix(burst > 0, (b > a) * 2 + (s.X.st->last > 0) * 4 + (s.Y.st->last > 0) * 8 + (s.Z.st->last > 0) * 16 + ss.size() * 32));
        if (burst) sim::probe("disk-after-burst");
    }
}
