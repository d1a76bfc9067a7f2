// P21: a whole generation run - sampling, constraints, sets, status, builder, writer - keeps its promises end to end.
#include "constraintmodel.hh"
#include "gmshfile.hh"
#include "entityshape.hh"
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/status.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/entitynetwork/constraintsmatrix.hh>
#include <frackit/magnitude/containedmagnitude.hh>
const char* simRealComponents = "the complete pipeline: point, disk, polygon, quadrilateral and multi-geometry samplers with their engines and standard distributions, constraints, constraints matrix, entity sets, contained magnitudes, sampling status, both builders, GmshWriter, OpenCASCADE";
const char* simStubComponents = "hardware entropy, heap placement and failures of operator new, the user's program (the generation loop of the examples with retries)";
const char* simRule = "a run generates a network as in the examples: candidates are sampled, filtered by contained area and by constraints among each other and with the domain's boundary, accepted, counted, exported, built and written, with memory failures at any step that the loop survives; every decision and the final network are compared with independent models, undisturbed runs are repeated bit by bit under another heap layout; non-trivial: a network was judged";
void simWarmup() {}
using namespace wl; using namespace Frackit;

struct Params {
    double S; V3 O; std::vector<wl::Domain> doms; int main = 0; uint64_t entropy; int sets; std::vector<std::size_t> ids; std::vector<int> kind, target; std::vector<std::array<double, 8>> p;
    std::vector<std::pair<int, int>> rel; std::vector<int> relOf; std::vector<CModel> con; CModel onDomain; bool useDomain = false; double minArea = 0; int maxCand = 40; bool faults = false; int slabs = 0, slabAxis = 0;
};
struct Accepted { Shape s; int set; };
struct Outcome { std::vector<double> bits; std::vector<Accepted> acc; long rejected = 0, failures = 0, candidates = 0; bool finished = false; };

static void configure(EntityNetworkConstraints<double>& c, const CModel& m) { if (m.minDist) c.setMinDistance(*m.minDist); if (m.minAngle) c.setMinIntersectingAngle(*m.minAngle); if (m.minMag) c.setMinIntersectionMagnitude(*m.minMag); if (m.minIsDist) c.setMinIntersectionDistance(*m.minIsDist); }
template<class G2> struct Pipeline {
    using Sets = MultiGeometryEntitySet<FDisk, G2>; using C = EntityNetworkConstraints<double>;
    const Params& P; Sets sets; SamplingStatus status; Outcome out; Arrangement arr;
    explicit Pipeline(const Params& p) : P(p) { arr.S = p.S; }
    static Shape toShape(const std::shared_ptr<Geometry>& g, int& kind) { if (auto d = dynamic_cast<FDisk*>(g.get())) { kind = 0; return shapeOf(*d); } if (auto q = dynamic_cast<G2*>(g.get())) { kind = 1; return shapeOf(*q); } sim::violation("type", "a sampled geometry is neither of the types that were registered"); }
    // hands the geometry over as pointer, or as value (polygons are not supported behind pointers)
    template<class F> static void as(const std::shared_ptr<Geometry>& g, F&& f) { if constexpr (std::is_same_v<G2, FQuad>) f(g); else if (auto d = dynamic_cast<FDisk*>(g.get())) f(*d); else f(*dynamic_cast<G2*>(g.get())); }
    // runs f with an armed allocation failure, retrying without; returns true if the failure hit
    template<class F> bool survive(const char* what, F&& f, bool retry)
    {
        const bool fail = P.faults && sim::chance(12); if (fail) sim::failAllocation(1 + sim::choose(120), 1);
        std::string err; const bool threw = throws(f, err); const bool hit = fail && sim::allocationFailed(); sim::failAllocation(0, 0);
        if (!threw) return false;
        if (!hit) sim::violation("pipeline-throws", "%s threw: %s", what, err.c_str());
        sim::fault("allocation-failure"); out.failures++; if (retry) mustNotThrow("no-recovery", what, f); return true;
    }
    // the same for a domain of several solids
    std::vector<wl::Domain> slabs; TopoDS_Compound slabShape;
    template<class B> void makeSlabs(const B& b)
    {
        if (!P.slabs) return; BRep_Builder bb; bb.MakeCompound(slabShape);
        for (int i = 0; i < P.slabs; ++i) {
            wl::Domain d; d.kind = 0; d.lo = { b.xMin(), b.yMin(), b.zMin() }; d.hi = { b.xMax(), b.yMax(), b.zMax() }; double& l = P.slabAxis == 0 ? d.lo.x : P.slabAxis == 1 ? d.lo.y : d.lo.z; double& h = P.slabAxis == 0 ? d.hi.x : P.slabAxis == 1 ? d.hi.y : d.hi.z;
            const double a = l, w = (h - l) / (2 * P.slabs - 1); l = a + 2 * i * w; h = l + w; slabs.push_back(d); bb.Add(slabShape, d.shape());
        }
    }
    void judgeSlabs(const std::shared_ptr<Geometry>& g, const Shape& s)
    {
        for (auto& d : slabs) if (!d.generic(s, 2e-3 * P.S)) return;
        double area = 0; mustNotThrow("pipeline-throws", "computing the contained area in several solids", [&] { as(g, [&](const auto& x) { area = computeContainedMagnitude(x, slabShape); }); });
        Region r; r.everywhere = false; r.in = slabs; judgeContainedArea(s, slabs, area, areaIn(s, r)); sim::probe("area-in-several-solids");
    }
    void run()
    {
        sim::entropyStream(P.entropy); const auto& D = P.doms[P.main]; const TopoDS_Shape solid = D.shape();
        const double vol = computeMagnitude(TopoDS::Solid(solid)); if (std::abs(vol - D.volume()) > 1e-3 * D.volume()) sim::violation("domain-volume", "the volume of the domain (kind %d) is computed as %.6g instead of %.6g", D.kind, vol, D.volume());
        const auto bbox = OCCUtilities::getBoundingBox(TopoDS::Solid(solid)); const auto faces = OCCUtilities::getFaces(solid); makeSlabs(bbox);
        using ND = std::normal_distribution<double>; using UD = std::uniform_real_distribution<double>;
        MultiGeometrySampler<FDisk, G2> multi;
        for (int k = 0; k < P.sets; ++k) {
            auto& p = P.p[k];
            survive("registering a sampler", [&] {
                if (P.kind[k] == 0) multi.addGeometrySampler(DiskSampler<double>(makeUniformPointSampler(bbox), ND(p[0], p[1]), ND(p[2], p[1]), ND(p[3], p[6]), ND(p[4], p[6]), ND(p[5], p[6])), Id(P.ids[k]));
                else if constexpr (std::is_same_v<G2, FQuad>) multi.addGeometrySampler(QuadrilateralSampler<3>(makeUniformPointSampler(bbox), ND(p[3], p[6]), ND(p[4], p[6]), UD(p[0], p[0] + p[1]), UD(p[2], p[2] + p[1])), Id(P.ids[k]));
                else multi.addGeometrySampler(PolygonSampler<3>(makeUniformPointSampler(bbox), ND(p[3], p[6]), ND(p[4], p[6]), UD(p[0], p[0] + p[1]), UD(p[2], p[2] + p[1]), std::uniform_int_distribution<int>(3, 4 + (int)p[7])), Id(P.ids[k]));
            }, true);
            status.setTargetCount(Id(P.ids[k]), P.target[k]);
        }
        EntityNetworkConstraintsMatrix<C> matrix; std::vector<C> cs(P.con.size()); for (std::size_t i = 0; i < cs.size(); ++i) configure(cs[i], P.con[i]);
        for (std::size_t i = 0; i < P.rel.size(); ++i) matrix.addConstraints(cs[P.relOf[i]], IdPair(Id(P.ids[P.rel[i].first]), Id(P.ids[P.rel[i].second])));
        C onDomain; configure(onDomain, P.onDomain); const auto bf = D.kind == 0 ? boxFaces(D) : std::vector<Shape>();
        std::vector<long> count(P.sets, 0);
        const bool ownChoices = P.faults; (void)ownChoices;
        while (!status.finished() && out.candidates < P.maxCand) {
            sim::op(); ++out.candidates; Id id; std::shared_ptr<Geometry> g;
            if (survive("sampling", [&] { g = multi(id); }, false)) continue;
            int set = -1, kind; for (int k = 0; k < P.sets; ++k) if (P.ids[k] == id.get()) set = k;
            if (set < 0) sim::violation("unknown-set", "a candidate was sampled for set %zu which was never registered", id.get());
            const Shape s = toShape(g, kind); if (kind != P.kind[set]) sim::violation("type", "a candidate for set %zu has the wrong type", id.get());
            hashV(s.c); for (double d : { s.c.x, s.c.y, s.c.z, s.n.x, s.n.y, s.n.z, s.R }) out.bits.push_back(d);
            const bool done = status.finished(id); if (done != (count[set] >= P.target[set])) sim::violation("status", "set %zu is reported %s at %ld of %d", id.get(), done ? "finished" : "unfinished", count[set], P.target[set]);
            auto reject = [&] { status.increaseRejectedCounter(); out.rejected++; };
            if (done) { reject(); continue; }
            const bool generic = D.generic(s, 2e-3 * P.S); double area = 0;
            if (survive("computing the contained area", [&] { as(g, [&](const auto& x) { area = computeContainedMagnitude(x, TopoDS::Solid(solid)); }); }, false)) { reject(); continue; }
            Region r; r.everywhere = false; r.in = { D }; const double want = areaIn(s, r);
            if (generic) judgeContainedArea(s, { D }, area, want);
            if (slabs.size()) judgeSlabs(g, s);
            if (area < P.minArea) { reject(); sim::probe("too-small"); continue; }
            // constraints among the entities
            int model = 1; bool coplanar = false; for (std::size_t i = 0; i < P.rel.size(); ++i) if (P.rel[i].first == set) for (auto& a : out.acc) if (a.set == P.rel[i].second) { const int w = P.con[P.relOf[i]].pair(a.s, s); model = CModel::both(model, w); if (onePlane(a.s, s, w)) coplanar = true; }
            bool ok = false; std::string err; bool hit = false, hasRel = false; for (auto& r : P.rel) hasRel = hasRel || r.first == set;
            if (!hasRel) ok = true; else { const bool fail = P.faults && sim::chance(12); if (fail) sim::failAllocation(1 + sim::choose(150), 1); const bool threw = throws([&] { as(g, [&](const auto& x) { ok = matrix.evaluate(sets, x, id); }); }, err); hit = fail && sim::allocationFailed(); sim::failAllocation(0, 0);
              if (threw) { if (hit) { sim::fault("allocation-failure"); out.failures++; } else if (!coplanar) sim::violation("pipeline-throws", "evaluating the constraints threw: %s", err.c_str()); reject(); continue; } }
            if (model >= 0 && ok != (model == 1)) sim::violation("decision", "candidate %s for set %zu is %s against %zu entities, the constraints say %s", s.describe().c_str(), id.get(), ok ? "accepted" : "rejected", out.acc.size(), model ? "accept" : "reject");
            if (!ok) { reject(); sim::probe("constraint-rejection"); continue; }
            if (P.useDomain && D.kind == 0) {
                int dm = 1; bool par = false; for (auto& f : bf) { const int w = P.onDomain.pair(f, s); dm = CModel::both(dm, w); if (onePlane(f, s, w)) par = true; }
                bool dok = false; const bool threw = throws([&] { as(g, [&](const auto& x) { dok = onDomain.evaluate(faces, x); }); }, err);
                if (threw) { if (!par) sim::violation("pipeline-throws", "evaluating the constraints with the domain's boundary threw: %s", err.c_str()); reject(); continue; }
                if (dm >= 0 && dok != (dm == 1)) sim::violation("boundary-decision", "candidate %s is %s against the domain's boundary, the constraints%s say %s", s.describe().c_str(), dok ? "accepted" : "rejected", P.onDomain.describe().c_str(), dm ? "accept" : "reject");
                if (dm >= 0) sim::probe(dok ? "boundary-accepted" : "boundary-rejected"); if (!dok) { reject(); continue; }
            }
            if (!generic || !arr.tryAdd(s, P.doms)) { reject(); continue; }
            survive("accepting an entity", [&] { sets.addEntity(g, id); }, true);
            survive("counting", [&] { status.increaseCounter(id); }, false); // counts or throws
            if (status.getCount(id) == (std::size_t)count[set]) mustNotThrow("status", "counting", [&] { status.increaseCounter(id); });
            count[set]++; out.acc.push_back({ s, set }); out.bits.push_back((double)id.get());
            if (status.getCount(id) != (std::size_t)count[set]) sim::violation("status", "the count of set %zu is %zu after %ld accepted entities", id.get(), (std::size_t)status.getCount(id), count[set]);
        }
        std::ostringstream sink; struct Redirect { std::streambuf* b; ~Redirect() { std::cout.rdbuf(b); } } rd{ std::cout.rdbuf(sink.rdbuf()) }; mustNotThrow("status", "printing the status", [&] { status.print(); });
        out.finished = status.finished(); bool all = true; for (int k = 0; k < P.sets; ++k) { all = all && count[k] >= P.target[k]; if (sets.numEntities(Id(P.ids[k])) != (std::size_t)count[k]) sim::violation("sets", "set %zu holds %zu entities, %ld were accepted", P.ids[k], (std::size_t)sets.numEntities(Id(P.ids[k])), count[k]); }
        if (all != out.finished) sim::violation("status", "finished() is %d, the targets are %s", out.finished, all ? "reached" : "not reached");
    }
    // scene of what was accepted: the sets are exported one after the other or all at once
    template<class B> void build(bool contained)
    {
        B b; Scene s; s.S = P.S; s.O = P.O; s.doms = P.doms; for (std::size_t i = 0; i < s.doms.size(); ++i) { s.domId.push_back(i + 1); s.confining.push_back(sim::chance(60)); } s.toUnion = sim::chance(70);
        const bool noDoms = !contained && sim::chance(40); if (noDoms) { s.doms.clear(); s.domId.clear(); s.confining.clear(); }
        const bool perSet = sim::chance(50); const std::size_t home = P.main + 1; const bool failing = P.faults && sim::chance(50); std::vector<std::size_t> sdOf(P.sets, noDoms && sim::chance(50) ? 0 : home);
        if (perSet && !noDoms && s.doms.size() > 1 && sim::chance(40)) for (auto& x : sdOf) x = 1 + sim::choose(s.doms.size());
        auto fillAll = [&] {
            b.setConfineToSubDomainUnion(s.toUnion); for (std::size_t i = 0; i < s.doms.size(); ++i) s.doms[i].addTo(b, s.confining[i], s.domId[i]);
            if (perSet) for (int k = 0; k < P.sets; ++k) sets.exportEntitySets({ Id(P.ids[k]) }, b, Id(sdOf[k]));
            else if constexpr (!std::is_same_v<B, ContainedEntityNetworkBuilder<double>>) { if (sdOf[0] == 0) sets.exportEntitySets(b); else sets.exportEntitySets(b, Id(sdOf[0])); }
            else sets.exportEntitySets(b, Id(sdOf[0]));
        };
        if (failing) {
            std::string err; sim::failAllocation(1 + sim::choose(800), 1); const bool threw = throws([&] { fillAll(); b.build(); }, err); const bool hit = sim::allocationFailed(); sim::failAllocation(0, 0);
            if (threw) { if (!hit) sim::violation("pipeline-throws", "filling the builder threw: %s", err.c_str()); sim::fault("allocation-failure"); out.failures++; }
            b.clear(); sim::probe("cleared-and-refilled");
        }
        mustNotThrow("pipeline-throws", "exporting and building", [&] { fillAll(); b.build(); });
        for (auto& a : out.acc) { Prim p{ a.s, sdOf[a.set], 0, {} }; s.prims.push_back(p); }
        if (contained) checkPositions(s, true); else checkPositions(s, false);
        auto judge = [&](const auto& net) {
            if constexpr (std::is_same_v<B, ContainedEntityNetworkBuilder<double>>) checkContained(net, s);
            else { auto frags = fragsOf(net.entityFragments(), net.entityFragmentsIndexMap(), ~(std::size_t)0, "network"); NetOracle o{ s.prims, [&](const Prim& p) { return s.region(p); }, [](const Prim&) { return 0; }, s.S }; o.check(frags, "network"); }
        };
        judge(b.network()); sim::probe("judged"); sim::log("%s network of %zu entities in %zu domains", contained ? "contained" : "plain", s.prims.size(), s.doms.size()); sim::state(sim::mix(sim::mix(s.prims.size(), s.doms.size() * 4 + contained * 2 + perSet), out.finished));
        if (sim::chance(30)) { const std::string base = sim::scratch() + "/net"; const double e = sim::real(0.01, 1), bd = sim::real(0.01, 1); mustNotThrow("pipeline-throws", "writing", [&] { GmshWriter w(b.network()); w.write(base, e, bd); }); for (auto& p : s.prims) p.pos = 0; const std::string br = slurp(base + ".brep"), ge = slurp(base + ".geo"); checkFiles(br, &ge, base, e, bd, s, contained); sim::probe("written"); }
    }
    // the order in which sets of different types are exported is not specified: only a consistent numbering is demanded (position 0)
    void checkPositions(Scene& s, bool) { for (auto& p : s.prims) p.pos = 0; }
};

template<class G2> void pipeline(const Params& P)
{
    Pipeline<G2> a(P); a.run();
    sim::log("%ld candidates, %zu accepted, %ld rejected, %ld failures, finished %d", a.out.candidates, a.out.acc.size(), a.out.rejected, a.out.failures, a.out.finished);
    if (!P.faults && sim::chance(35)) {
        sim::heapLayout(sim::choose(1ull << 32)); sim::clockJump((int64_t)sim::choose(1ull << 55) + 1); sim::processId(2 + (int)sim::choose(30000)); Pipeline<G2> b(P); b.run();
        if (a.out.bits.size() != b.out.bits.size() || memcmp(a.out.bits.data(), b.out.bits.data(), 8 * a.out.bits.size())) sim::violation("not-reproducible", "the same run with the same entropy gives another network (%zu and %zu accepted)", a.out.acc.size(), b.out.acc.size());
        sim::probe("repeated");
    }
    if (a.out.acc.empty()) return;
    if (sim::chance(50)) a.template build<ContainedEntityNetworkBuilder<double>>(true); else a.template build<EntityNetworkBuilder<double>>(false);
}
void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    Params P; P.S = sim::chance(60) ? 1.0 : sim::chance(50) ? 100.0 : 0.05; P.O = sim::chance(60) ? V3{ 0, 0, 0 } : V3{ 9 * P.S, -5 * P.S, 17 * P.S };
    P.doms = randomDomains(P.O, P.S, 1 + (int)sim::choose(2)); P.main = (int)sim::choose(P.doms.size()); P.entropy = sim::choose(1ull << 62) + 1; P.sets = 1 + (int)sim::choose(3); P.faults = sim::chance(50);
    P.ids = distinctIds(P.sets, 60);
    for (int k = 0; k < P.sets; ++k) {
        P.kind.push_back((int)sim::choose(2)); P.target.push_back(1 + (int)sim::choose(3));
        const double L = P.S * sim::real(0.2, 0.7); P.p.push_back({ L, L * sim::real(0.05, 0.5), L * sim::real(0.5, 1), sim::real(0, 3), sim::real(0, 3), sim::real(0, 3), sim::real(0.05, 0.6), sim::real(0, 5) });
    }
    const int nc = 1 + (int)sim::choose(3); for (int i = 0; i < nc; ++i) { CModel m; if (sim::chance(70)) m.minDist = P.S * sim::real(0.01, 0.2); if (sim::chance(60)) m.minAngle = sim::real(0.1, 0.9); if (sim::chance(50)) m.minMag = P.S * sim::real(0.01, 0.2); if (sim::chance(40)) m.minIsDist = P.S * sim::real(0.005, 0.08); P.con.push_back(m); }
    for (int i = 0; i < P.sets; ++i) for (int j = 0; j < P.sets; ++j) if (sim::chance(75)) { P.rel.push_back({ i, j }); P.relOf.push_back((int)sim::choose(nc)); }
    P.useDomain = sim::chance(50); if (sim::chance(50)) P.onDomain.minDist = P.S * sim::real(0.005, 0.1); if (sim::chance(50)) P.onDomain.minAngle = sim::real(0.1, 0.6); if (sim::chance(40)) P.onDomain.minMag = P.S * sim::real(0.01, 0.1);
    if (sim::chance(50)) P.minArea = P.S * P.S * sim::real(0.001, 0.05); if (sim::chance(40)) P.slabs = 2 + (int)sim::choose(4), P.slabAxis = (int)sim::choose(3); P.maxCand = 10 + (int)sim::choose(40);
    sim::log("scale %.3g, %zu domains (main kind %d), %d sets, %zu relations", P.S, P.doms.size(), P.doms[P.main].kind, P.sets, P.rel.size());
    if (sim::chance(50)) pipeline<FQuad>(P); else pipeline<FPoly>(P);
}
