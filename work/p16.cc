// P16: the written files describe exactly the network.
#include "gmshfile.hh"
const char* simRealComponents = "GmshWriter, BRepWriter, both network builders and classes, OpenCASCADE boolean operations, shape maps and .brep format, C++ file streams";
const char* simStubComponents = "sub-domains and entities (chosen by the simulator), heap placement (decides the iteration order of the shape maps), the mesh generator (its import numbering is modelled)";
const char* simRule = "a run builds a network and writes it, also repeatedly and under several names; the files are read back, numbered the way the mesh generator does it, and every physical group, mesh size and shape is compared with independent geometry; non-trivial: files were judged";
void simWarmup() {}
using namespace wl;

template<class Net> void writeAndCheck(const Net& net, const Scene& s, bool contained)
{
    std::string base = sim::scratch() + "/" + (sim::chance(30) ? "a name.with dots" : "net");
    if (sim::chance(35)) { base = std::filesystem::relative(base).string(); sim::probe("relative-name"); }
    const double e = sim::real(0.01, 2), b = sim::real(0.01, 2);
    if (sim::chance(20)) { mustNotThrow("write-throws", "BRepWriter", [&] { Frackit::BRepWriter w(net); w.write(base); }); checkFiles(slurp(base + ".brep"), nullptr, base, 0, 0, s, contained); sim::probe("brep-only"); return; }
    mustNotThrow("write-throws", "GmshWriter", [&] {
        Frackit::GmshWriter w(net); const int times = 1 + (int)sim::choose(2);
        std::string first[2];
        for (int i = 0; i < times; ++i) {
            const std::string name = base + (sim::chance(30) ? "2" : "");
            const bool one = sim::chance(30); if (one) w.write(name, e); else w.write(name, e, b);
            const std::string brep = slurp(name + ".brep"), geo = slurp(name + ".geo"); checkFiles(brep, &geo, name, e, one ? e : b, s, contained);
            sim::log("wrote %zu domains and %zu entities (%s)", s.doms.size(), s.prims.size(), contained ? "contained" : "plain");
            if (i && brep != first[0]) sim::violation("rewrite", "writing again gives another .brep file"); first[0] = brep;
        }
    });
}
void simRun()
{
    idBits = 24;
    sim::heapLayout(sim::choose(1ull << 32));
    const bool contained = sim::chance(60); Scene s = randomScene(contained ? 3 : sim::chance(50) ? 0 : 2, 6); if (s.prims.empty()) sim::discard("no entities"); describe(s);
    std::size_t vis = 0; for (auto& p : s.prims) if (!contained || s.dom(p.sd) >= 0) ++vis;
    sim::state(sim::mix(s.doms.size() * 2 + contained, vis)); sim::op();
    if (contained) { Frackit::ContainedEntityNetworkBuilder<double> b; fill(b, s); mustNotThrow("build-throws", "build()", [&] { b.build(); }); writeAndCheck(b.network(), s, true); }
    else { Frackit::EntityNetworkBuilder<double> b; fill(b, s); mustNotThrow("build-throws", "build()", [&] { b.build(); }); writeAndCheck(b.network(), s, false); }
}
