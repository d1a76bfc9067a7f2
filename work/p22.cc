// P22: generation loops written in Python - domain from a file, samplers, constraints, status, builders, writer - end to end.
#include "pyhost.hh"
#include "gmshfile.hh"
#include "entityshape.hh"
#include <frackit/python/geometry/brepwrapper.hh>
#include <pybind11/eval.h>
const char* simRealComponents = "the Python package as the examples use it: readShape/getSolids/getShells/getFaces/getBoundingBox, computeMagnitude/computeContainedMagnitude, makeUniformPointSampler, DiskSampler, QuadrilateralSampler, PolygonSampler, EntityNetworkConstraints(-Matrix), SamplingStatus, both builders, GmshWriter, CPython and its random module, the compiled bindings, the library and OpenCASCADE behind them";
const char* simStubComponents = "the user's script (the loop of the examples with retries), seeds of the random module, samplers of parameters that raise, heap placement and failures of operator new while building, disk faults while the domain is read and the network is written";
const char* simRule = "a run generates a network as example3.py does: the domain is taken from a file or a primitive, candidates are sampled, filtered by contained area, by constraints among each other and with the domain's boundary, counted, and the result is built and written in several forms; samplers raise, builds run out of memory, the disk fails, and the script goes on; every decision, count, network and file is compared with independent models, undisturbed loops are repeated bit by bit; non-trivial: a network was judged";
using namespace wl; using namespace Frackit;
using FaceW = Frackit::Python::FaceWrapper; using SolidW = Frackit::Python::SolidWrapper;
static py::object *gUniform, *gNormal, *gChoice;
void simWarmup()
{
    wl::startPython({ "frackit.common", "frackit.precision", "frackit.geometry", "frackit.occutilities", "frackit.entitynetwork", "frackit.io", "frackit.sampling" });
    py::exec("import random\n"
             "def uniformSampler(a, b, tick):\n    def sample():\n        tick()\n        return random.uniform(a, b)\n    return sample\n"
             "def normalSampler(m, s, tick):\n    def sample():\n        tick()\n        return random.gauss(m, s)\n    return sample\n"
             "def choiceSampler(a, b, tick):\n    def sample():\n        tick()\n        return random.randint(a, b)\n    return sample\n");
    auto g = py::globals(); gUniform = new py::object(g["uniformSampler"]); gNormal = new py::object(g["normalSampler"]); gChoice = new py::object(g["choiceSampler"]);
}
static py::object pyId(std::size_t i) { return mod("frackit.common").attr("Id")(i); }
struct Params {
    double S; V3 O; std::vector<wl::Domain> doms; int main = 0; bool fromFile = false, wrapped = false, prim = false; uint64_t seed; int sets; bool poly; std::vector<std::size_t> ids; std::vector<int> kind, target; std::vector<std::array<double, 8>> p;
    std::vector<std::pair<int, int>> rel; std::vector<int> relOf; std::vector<CModel> con; CModel onDomain; bool useDomain = false, lazySets = false, alternate = true; double minArea = 0; int maxCand = 40; bool faults = false;
};
struct Accepted { Shape s; int set; };
static py::object makeConstraints(const CModel& m)
{
    py::object c = mod("frackit.entitynetwork").attr("EntityNetworkConstraints")();
    if (m.minDist) c.attr("setMinDistance")(*m.minDist); if (m.minAngle) c.attr("setMinIntersectingAngle")(*m.minAngle); if (m.minMag) c.attr("setMinIntersectionMagnitude")(*m.minMag); if (m.minIsDist) c.attr("setMinIntersectionDistance")(*m.minIsDist);
    return c;
}
static Shape modelOf(const py::object& o, int& kind)
{
    const std::string n = o.attr("name")().cast<std::string>();
    if (py::isinstance<FDisk>(o)) { kind = 0; return shapeOf(o.cast<const FDisk&>()); }
    if (py::isinstance<FQuad>(o)) { kind = 1; return shapeOf(o.cast<const FQuad&>()); }
    if (py::isinstance<FPoly>(o)) { kind = 2; return shapeOf(o.cast<const FPoly&>()); }
    sim::violation("type", "a sampled geometry is a %s", n.c_str());
}
struct Loop {
    const Params& P; std::vector<double> bits; std::vector<Accepted> acc; long rejected = 0, raised = 0, candidates = 0; bool finished = false;
    Arrangement arr; py::dict sets; py::list solids; py::object domain; std::vector<py::object> domObj; std::vector<std::vector<int>> listed; // listed: what is in the list of each set
    std::shared_ptr<Bomb> bomb = std::make_shared<Bomb>();
    explicit Loop(const Params& p) : P(p), listed(p.sets) { arr.S = p.S; }
    template<class F> bool survive(const char* what, F&& f)
    {
        const bool fail = P.faults && sim::chance(12); bomb->fired = false; bomb->n = fail ? 1 + (long)sim::choose(8) : 0; std::string err; const bool threw = pyThrows(f, err); bomb->n = 0;
        if (!threw) { if (bomb->fired) sim::violation("failure-lost", "%s: an exception of a user-supplied sampler went unnoticed", what); return false; }
        if (!bomb->fired) sim::violation("script-raises", "%s raised %s", what, err.c_str());
        if (err.find("boom") == err.npos) sim::violation("failure-changed", "%s: the exception of a user-supplied sampler surfaced as %s", what, err.c_str());
        sim::fault("sampler-raises"); raised++; return true;
    }
    void readDomain()
    {
        auto occ = mod("frackit.occutilities"); const std::string file = sim::scratch() + "/layers.brep";
        TopoDS_Compound c; BRep_Builder bb; bb.MakeCompound(c); for (auto& d : P.doms) bb.Add(c, d.shape()); BRepTools::Write(c, file.c_str());
        auto read = [&] { return occ.attr("getSolids")(occ.attr("readShape")(file)); }; py::object l;
        if (P.faults && sim::chance(30)) {
            sim::DiskPlan p; const int k = (int)sim::choose(3); if (k == 0) p.openErrno = EACCES; else { p.readBudget = (long)sim::choose(400); p.readErrno = k == 1 ? EIO : 0; } std::string err; sim::disk(p); const bool threw = pyThrows([&] { l = read(); }, err); const bool fired = sim::diskFaultFired(); sim::diskOff();
            if (fired && !threw) sim::violation("silent-failure", "reading the domain with a failing disk returned"); if (threw && !fired) sim::violation("script-raises", "reading the domain raised %s", err.c_str()); sim::fault("domain-unreadable");
        }
        pyMust("script-raises", "reading the domain", [&] { l = read(); }); solids = l;
        if (solids.size() != P.doms.size()) sim::violation("domain", "%zu solids were stored, %zu were read", P.doms.size(), (std::size_t)solids.size());
        if (sim::chance(30)) spitOver(file); // what was read does not depend on the file any more
        for (std::size_t i = 0; i < P.doms.size(); ++i) domObj.push_back(solids[i]);
    }
    static void spitOver(const std::string& f) { std::ofstream o(f, std::ios::binary); o << "overwritten"; }
    void makeDomains()
    {
        if (P.fromFile) { readDomain(); }
        else for (auto& d : P.doms) {
            if (d.kind == 0 && !P.wrapped) domObj.push_back(py::cast(d.box())); else if (d.kind == 1 && !P.wrapped) domObj.push_back(py::cast(d.cylinder())); else domObj.push_back(py::cast(SolidW(TopoDS::Solid(d.shape()))));
        }
        domain = domObj[P.main];
    }
    void run()
    {
        mod("random").attr("seed")(P.seed); sim::entropyStream(P.seed + 1); makeDomains();
        auto geo = mod("frackit.geometry"); auto occ = mod("frackit.occutilities"); auto smp = mod("frackit.sampling"); const auto& D = P.doms[P.main];
        double vol = 0; pyMust("script-raises", "computing the domain's volume", [&] { vol = geo.attr("computeMagnitude")(domain).cast<double>(); }); if (std::abs(vol - D.volume()) > 1e-3 * D.volume()) sim::violation("domain-volume", "the volume of the domain (kind %d) is computed as %.6g instead of %.6g", D.kind, vol, D.volume());
        py::object bbox; const bool prim = !P.fromFile && !P.wrapped && D.kind < 2 && P.prim;
        pyMust("script-raises", "computing the bounding box", [&] { bbox = prim ? domain : (P.seed & 1) ? occ.attr("getBoundingBox")(domain) : geo.attr("getBoundingBox")(py::isinstance<SolidW>(domain) ? geo.attr("OCCShapeWrapper")(domain) : domain); });
        py::object points; pyMust("script-raises", "makeUniformPointSampler()", [&] { points = smp.attr("makeUniformPointSampler")(bbox); });
        py::object tick = py::cpp_function([b = bomb] { b->tick(); }); std::vector<py::object> samplers;
        auto N = [&](double m, double s) { return (*gNormal)(m, s, tick); }; auto U = [&](double a, double b) { return (*gUniform)(a, b, tick); };
        for (int k = 0; k < P.sets; ++k) { auto& p = P.p[k]; pyMust("script-raises", "making a sampler", [&] {
            if (P.kind[k] == 0) samplers.push_back(smp.attr("DiskSampler")(points, N(p[0], p[1]), N(p[2], p[1]), N(p[3], p[6]), N(p[4], p[6]), N(p[5], p[6])));
            else if (!P.poly) samplers.push_back(smp.attr("QuadrilateralSampler")(points, N(p[3], p[6]), N(p[4], p[6]), U(p[0], p[0] + p[1]), U(p[2], p[2] + p[1])));
            else samplers.push_back(smp.attr("PolygonSampler")(points, N(p[3], p[6]), N(p[4], p[6]), U(p[0], p[0] + p[1]), U(p[2], p[2] + p[1]), (*gChoice)(3, 4 + (int)p[7], tick))); }); }
        auto en = mod("frackit.entitynetwork"); py::object matrix = en.attr("EntityNetworkConstraintsMatrix")(); std::vector<py::object> cs; for (auto& m : P.con) cs.push_back(makeConstraints(m));
        for (int c = 0; c < (int)P.con.size(); ++c) { // relations of one constraints object at once
            py::list l; std::vector<std::pair<int, int>> mine; for (std::size_t i = 0; i < P.rel.size(); ++i) if (P.relOf[i] == c) { py::list q; q.append(pyId(P.ids[P.rel[i].first])); q.append(pyId(P.ids[P.rel[i].second])); l.append(q); }
            if (l.size() == 0) continue; pyMust("script-raises", "addConstraints()", [&] { if (l.size() == 1) matrix.attr("addConstraints")(cs[c], l[0]); else matrix.attr("addConstraints")(cs[c], l); });
        }
        py::object onDomain = makeConstraints(P.onDomain); const bool boxDomain = D.kind == 0; py::object faces = py::list(); const auto bf = boxDomain ? boxFaces(D) : std::vector<Shape>();
        if (boxDomain && P.useDomain) {
            py::object sh; pyMust("script-raises", "getting the boundary", [&] { sh = occ.attr("getShells")(occ.attr("getShape")(domain)); }); if (py::len(sh) != 1) sim::violation("boundary", "a box has %zu shells", (std::size_t)py::len(sh));
            pyMust("script-raises", "getting the boundary", [&] { faces = occ.attr("getFaces")(sh[py::int_(0)]); }); if (py::len(faces) != 6) sim::violation("boundary", "a box has %zu faces", (std::size_t)py::len(faces));
        }
        py::object status = smp.attr("SamplingStatus")(); std::vector<long> count(P.sets, 0); long total = 0;
        for (int k = 0; k < P.sets; ++k) { status.attr("setTargetCount")(pyId(P.ids[k]), P.target[k]); if (!P.lazySets) sets[pyId(P.ids[k])] = py::list(); }
        auto isFinished = [&] { return status.attr("finished")().cast<bool>(); };
        auto allDone = [&] { for (int k = 0; k < P.sets; ++k) if (count[k] < P.target[k]) return false; return true; };
        int turn = 0; std::ostringstream sink; struct Redirect { std::streambuf* b; ~Redirect() { std::cout.rdbuf(b); } } rd{ std::cout.rdbuf(sink.rdbuf()) };
        while (candidates < P.maxCand) {
            const bool fin = isFinished(); if (fin != allDone()) sim::violation("status", "finished() is %d, the targets are %s", fin, allDone() ? "reached" : "not reached"); if (fin) break;
            sim::op(); ++candidates; const int set = P.alternate ? turn : (int)(mod("random").attr("randrange")(P.sets).cast<int>()); py::object id = pyId(P.ids[set]), g;
            if (survive("sampling", [&] { g = samplers[set](); })) continue;
            int kind; const Shape s = modelOf(g, kind); if (kind != (P.kind[set] == 0 ? 0 : P.poly ? 2 : 1)) sim::violation("type", "a candidate for set %zu has the wrong type", P.ids[set]);
            for (double d : { s.c.x, s.c.y, s.c.z, s.n.x, s.n.y, s.n.z, s.R }) bits.push_back(d), sim::hashDouble(d);
            const bool done = status.attr("finished")(id).cast<bool>(); if (done != (count[set] >= P.target[set])) sim::violation("status", "set %zu is reported %s at %ld of %d", P.ids[set], done ? "finished" : "unfinished", count[set], P.target[set]);
            auto reject = [&] { status.attr("increaseRejectedCounter")(); rejected++; };
            if (done) { turn = (turn + 1) % P.sets; reject(); continue; }
            const bool generic = D.generic(s, 2e-3 * P.S);
            if (kind != 2) {
                double area = 0; pyMust("script-raises", "computeContainedMagnitude()", [&] { area = geo.attr("computeContainedMagnitude")(g, domain).cast<double>(); }); Region r; r.everywhere = false; r.in = { D }; const double want = areaIn(s, r);
                if (generic) judgeContainedArea(s, { D }, area, want);
                if (area < P.minArea) { reject(); sim::probe("too-small"); continue; }
            }
            int model = 1; bool coplanar = false; for (std::size_t i = 0; i < P.rel.size(); ++i) if (P.rel[i].first == set) for (auto& a : acc) if (a.set == P.rel[i].second) { const int w = P.con[P.relOf[i]].pair(a.s, s); model = CModel::both(model, w); if (onePlane(a.s, s, w)) coplanar = true; }
            bool ok = false; std::string err;
            if (pyThrows([&] { ok = matrix.attr("evaluate")(sets, g, id).cast<bool>(); }, err)) { if (!coplanar) sim::violation("script-raises", "evaluating the constraints raised %s", err.c_str()); reject(); continue; }
            if (model >= 0 && ok != (model == 1)) for (std::size_t i = 0; i < P.rel.size(); ++i) if (P.rel[i].first == set) for (auto& a : acc) if (a.set == P.rel[i].second) sim::log("against %s: constraints%s say %d", a.s.describe().c_str(), P.con[P.relOf[i]].describe().c_str(), P.con[P.relOf[i]].pair(a.s, s));
            if (model >= 0 && ok != (model == 1)) sim::violation("decision", "candidate %s for set %zu is %s against %zu entities, the constraints say %s", s.describe().c_str(), P.ids[set], ok ? "accepted" : "rejected", acc.size(), model ? "accept" : "reject");
            if (!ok) { reject(); sim::probe("constraint-rejection"); continue; }
            if (P.useDomain && boxDomain) {
                int dm = 1; bool par = kind == 2; for (auto& f : bf) { const int w = P.onDomain.pair(f, s); dm = CModel::both(dm, w); if (onePlane(f, s, w)) par = true; }
                bool dok = false; if (pyThrows([&] { dok = onDomain.attr("evaluate")(faces, g).cast<bool>(); }, err)) { if (!par) sim::violation("script-raises", "evaluating the constraints with the domain's boundary raised %s", err.c_str()); reject(); continue; }
                if (dm >= 0 && dok != (dm == 1)) sim::violation("boundary-decision", "candidate %s is %s against the domain's boundary, the constraints%s say %s", s.describe().c_str(), dok ? "accepted" : "rejected", P.onDomain.describe().c_str(), dm ? "accept" : "reject");
                if (dm >= 0) sim::probe(dok ? "boundary-accepted" : "boundary-rejected"); if (!dok) { reject(); continue; }
            }
            if (!generic || !arr.tryAdd(s, P.doms)) { reject(); continue; }
            if (!sets.contains(id)) sets[id] = py::list();
            sets[id].attr("append")(g); status.attr("increaseCounter")(id); count[set]++; ++total; acc.push_back({ s, set }); bits.push_back((double)P.ids[set]); turn = (turn + 1) % P.sets;
            if (status.attr("getCount")(id).cast<long>() != count[set] || status.attr("getCount")().cast<long>() != total) sim::violation("status", "counts %ld of set %zu and %ld in total after %ld and %ld accepted entities", status.attr("getCount")(id).cast<long>(), P.ids[set], status.attr("getCount")().cast<long>(), count[set], total);
            sink.str(""); pyMust("script-raises", "printing the status", [&] { if (sim::chance(30)) status.attr("print")(true); else status.attr("print")(); }); const double r = 100.0 * count[set] / P.target[set]; (void)r;
            const std::string want = std::to_string(total) + " / "; if (sink.str().empty()) sim::violation("status", "print() prints nothing");
        }
        finished = allDone();
        if (sim::chance(15) && P.sets) { status.attr("resetCounters")(); for (int k = 0; k < P.sets; ++k) if (status.attr("getCount")(pyId(P.ids[k])).cast<long>() != 0) sim::violation("status", "a counter survives resetCounters()"); if (isFinished()) sim::violation("status", "finished() holds after the counters were reset"); sim::probe("status-reset"); }
    }
    // the accepted entities as lists per set, in one of the forms of the examples
    void build(bool contained)
    {
        auto en = mod("frackit.entitynetwork"); py::object b = en.attr(contained ? "ContainedEntityNetworkBuilder" : "EntityNetworkBuilder")(); const int forms = 1 + (int)sim::choose(2);
        for (int form = 0; form < forms; ++form) {
            if (form) { b.attr("clear")(); sim::probe("cleared-and-refilled"); }
            Scene s; s.S = P.S; s.O = P.O; s.toUnion = sim::chance(70); const bool noDoms = !contained && sim::chance(35), onlyMain = !contained && !noDoms && sim::chance(40);
            if (!noDoms) for (std::size_t i = 0; i < P.doms.size(); ++i) if (!onlyMain || (int)i == P.main) { s.doms.push_back(P.doms[i]); s.domId.push_back(i + 1); s.confining.push_back(sim::chance(60)); }
            const bool plain = noDoms && sim::chance(50), byLists = sim::chance(70), domsFirst = sim::chance(70); std::vector<std::size_t> sdOf(P.sets, plain ? 0 : P.main + 1);
            auto addDoms = [&] { for (std::size_t i = 0; i < s.doms.size(); ++i) { py::object o = domObj[s.domId[i] - 1]; b.attr(s.confining[i] ? "addConfiningSubDomain" : "addSubDomain")(o, pyId(s.domId[i])); } };
            auto fill = [&] {
                s.prims.clear(); std::map<std::size_t, int> n; b.attr("setConfineToSubDomainUnion")(s.toUnion); if (domsFirst) addDoms();
                for (auto kv : sets) for (int k = 0; k < P.sets; ++k) if (kv.first.equal(pyId(P.ids[k]))) {
                    std::vector<const Accepted*> mine; for (auto& a : acc) if (a.set == k) mine.push_back(&a); py::list l = py::reinterpret_borrow<py::list>(kv.second);
                    if (l.size() != mine.size()) sim::violation("sets", "a list of entities changed");
                    if (byLists) { if (plain) b.attr("addEntities")(l); else b.attr("addSubDomainEntities")(l, pyId(sdOf[k])); } else for (auto e : l) { if (plain) b.attr("addEntity")(e); else b.attr("addSubDomainEntity")(e, pyId(sdOf[k])); }
                    for (auto a : mine) { Prim p{ a->s, sdOf[k], ++n[sdOf[k]], {} }; s.prims.push_back(p); }
                }
                if (!domsFirst) addDoms();
            };
            py::object net; bool failed = false;
            if (P.faults && sim::chance(40)) {
                // the failure is confined to the library: pybind11 itself does not survive it
                std::string err; pyMust("script-raises", "filling the builder", fill); EntityNetworkBuilder<double>* pb = nullptr; ContainedEntityNetworkBuilder<double>* cb = nullptr; try { if (contained) cb = b.cast<ContainedEntityNetworkBuilder<double>*>(); else pb = b.cast<EntityNetworkBuilder<double>*>(); } catch (const py::cast_error&) {}
                sim::failAllocation(1 + sim::choose(900), 1); const bool threw = throws([&] { if (cb) cb->build(); else if (pb) pb->build(); }, err); const bool hit = sim::allocationFailed(); sim::failAllocation(0, 0);
                if (threw) { if (!hit) sim::violation("script-raises", "build() raised %s", err.c_str()); sim::fault("build-out-of-memory"); raised++; failed = true; }
                if (sim::chance(50)) pyMust("script-raises", "building again", [&] { net = b.attr("build")(); }); else b.attr("clear")();
            }
            if (net.ptr() == nullptr || net.is_none()) pyMust("script-raises", "filling and building", [&] { fill(); net = b.attr("build")(); });
            if (contained) checkContained(net.cast<const ContainedEntityNetwork&>(), s);
            else { const auto& n = net.cast<const EntityNetwork&>(); auto frags = fragsOf(n.entityFragments(), n.entityFragmentsIndexMap(), ~(std::size_t)0, "network"); NetOracle o{ s.prims, [&](const Prim& p) { return s.region(p); }, [&](const Prim& p) { return s.prims.empty() ? 0 : p.pos; }, s.S }; o.check(frags, "network"); }
            sim::probe("judged"); sim::log("%s network of %zu entities in %zu domains%s", contained ? "contained" : "plain", s.prims.size(), s.doms.size(), failed ? " (second attempt)" : ""); sim::state(sim::mix(sim::mix(s.prims.size(), s.doms.size() * 4 + contained * 2 + byLists), finished));
            if (sim::chance(35)) {
                const std::string base = sim::scratch() + "/net" + std::to_string(form); const double e = sim::real(0.01, 1), bd = sim::real(0.01, 1); const bool one = !contained && sim::chance(70); py::object w;
                auto write = [&] { if (one) w.attr("write")(base, e); else w.attr("write")(base, e, bd); };
                pyMust("script-raises", "making the writer", [&] { w = mod("frackit.io").attr("GmshWriter")(net); });
                if (P.faults && sim::chance(40)) { sim::DiskPlan p; p.writeBudget = (long)sim::choose(20000); p.writeErrno = ENOSPC; std::string err; sim::disk(p); const bool threw = pyThrows(write, err); const bool fired = sim::diskFaultFired(); sim::diskOff(); if (fired && !threw) sim::violation("silent-loss", "disk full: write() returned"); if (!fired && threw) sim::violation("script-raises", "writing raised %s", err.c_str()); if (fired) sim::fault("disk-full"); }
                pyMust("script-raises", "writing", write); const std::string br = slurp(base + ".brep"), ge = slurp(base + ".geo"); checkFiles(br, &ge, base, e, one ? e : bd, s, contained); sim::probe("written");
            }
        }
    }
};
void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    Params P; P.S = sim::chance(60) ? 1.0 : sim::chance(50) ? 100.0 : 0.05; P.O = sim::chance(60) ? V3{ 0, 0, 0 } : V3{ 9 * P.S, -5 * P.S, 17 * P.S };
    P.doms = randomDomains(P.O, P.S, 1 + (int)sim::choose(2)); P.main = (int)sim::choose(P.doms.size()); P.fromFile = sim::chance(50); P.wrapped = sim::chance(30); P.prim = sim::chance(50); P.seed = sim::choose(1ull << 32); P.sets = 1 + (int)sim::choose(3); P.poly = sim::chance(35); P.faults = sim::chance(50); P.lazySets = sim::chance(30); P.alternate = sim::chance(60);
    P.ids = distinctIds(P.sets, 60);
    for (int k = 0; k < P.sets; ++k) {
        P.kind.push_back((int)sim::choose(2)); P.target.push_back(1 + (int)sim::choose(3));
        const double L = P.S * sim::real(0.2, 0.7); P.p.push_back({ L, L * sim::real(0.05, 0.5), L * sim::real(0.5, 1), sim::real(0, 3), sim::real(0, 3), sim::real(0, 3), sim::real(0.05, 0.6), sim::real(0, 5) });
    }
    const int nc = 1 + (int)sim::choose(3); for (int i = 0; i < nc; ++i) { CModel m; if (sim::chance(70)) m.minDist = P.S * sim::real(0.01, 0.2); if (sim::chance(60)) m.minAngle = sim::real(0.1, 0.9); if (sim::chance(50)) m.minMag = P.S * sim::real(0.01, 0.2); if (sim::chance(40)) m.minIsDist = P.S * sim::real(0.005, 0.08); P.con.push_back(m); }
    for (int i = 0; i < P.sets; ++i) for (int j = 0; j < P.sets; ++j) if (sim::chance(75)) { P.rel.push_back({ i, j }); P.relOf.push_back((int)sim::choose(nc)); }
    P.useDomain = sim::chance(50); if (sim::chance(50)) P.onDomain.minDist = P.S * sim::real(0.005, 0.1); if (sim::chance(50)) P.onDomain.minAngle = sim::real(0.1, 0.6); if (sim::chance(40)) P.onDomain.minMag = P.S * sim::real(0.01, 0.1);
    if (sim::chance(50)) P.minArea = P.S * P.S * sim::real(0.001, 0.05); P.maxCand = 10 + (int)sim::choose(40);
    sim::log("scale %.3g, %zu domains (main kind %d%s), %d sets, %zu relations", P.S, P.doms.size(), P.doms[P.main].kind, P.fromFile ? ", from a file" : "", P.sets, P.rel.size());
    Loop a(P); a.run(); sim::log("%ld candidates, %zu accepted, %ld rejected, %ld failures, finished %d", a.candidates, a.acc.size(), a.rejected, a.raised, a.finished);
    if (!P.faults && sim::chance(35)) {
        sim::heapLayout(sim::choose(1ull << 32)); sim::clockJump((int64_t)sim::choose(1ull << 55) + 1); sim::processId(2 + (int)sim::choose(30000)); Loop b(P); b.run();
        if (a.bits.size() != b.bits.size() || memcmp(a.bits.data(), b.bits.data(), 8 * a.bits.size())) sim::violation("not-reproducible", "the same script with the same seed gives another network (%zu and %zu accepted)", a.acc.size(), b.acc.size());
        sim::probe("repeated");
    }
    if (a.acc.empty()) return;
    a.build(sim::chance(55));
}
