// P20: the network layer of the Python package: constraints on lists, the constraints matrix, builders and the writer.
#include "pyhost.hh"
#include "constraintmodel.hh"
#include "gmshfile.hh"
#include <frackit/python/geometry/brepwrapper.hh>
const char* simRealComponents = "python/frackit/entitynetwork (EntityNetworkConstraints, EntityNetworkConstraintsMatrix, both builders), python/frackit/io (GmshWriter), the compiled bindings, the library and OpenCASCADE behind them, CPython";
const char* simStubComponents = "entities and sub-domains (chosen by the simulator), in part of the matrix histories tagged stub constraints that record every call and may raise, heap placement, allocation failures, disk faults";
const char* simRule = "a run is a history of one of three kinds: evaluations in all single/list forms under changing constraints against an independent pair model; additions of relations (also taken ones, also failing) and evaluations of a constraints matrix against a relation model; filling, building and writing networks through the Python builders (also clearing, refilling, failing writes) against independent geometry; non-trivial: a decided evaluation or a judged network";
void simWarmup() { wl::startPython({ "frackit.common", "frackit.precision", "frackit.geometry", "frackit.occutilities", "frackit.entitynetwork", "frackit.io" }); }
using namespace wl; using namespace Frackit;
using FaceW = Frackit::Python::FaceWrapper; using SolidW = Frackit::Python::SolidWrapper;

static py::object pyEntity(const Shape& s, bool asFace) { if (asFace) return py::cast(FaceW(faceOf(s))); if (s.kind == 0) return py::cast(s.disk()); if (s.kind == 1) return py::cast(s.quad()); return py::cast(s.poly()); }
static py::object pyId(std::size_t i) { return mod("frackit.common").attr("Id")(i); }

// ---------------------------------------------------------------- constraints
static void changeBoth(CModel& m, py::object& c, double size)
{
    switch (sim::choose(9)) {
        case 0: m.minDist = size * sim::real(0.01, 0.6); c.attr("setMinDistance")(*m.minDist); break;
        case 1: m.minAngle = sim::real(0.1, 1.5); c.attr("setMinIntersectingAngle")(*m.minAngle); break;
        case 2: m.minMag = size * sim::real(0.05, 1); c.attr("setMinIntersectionMagnitude")(*m.minMag); break;
        case 3: m.minIsDist = size * sim::real(0.02, 0.4); c.attr("setMinIntersectionDistance")(*m.minIsDist); break;
        case 4: m.minDist.reset(); c.attr("neglectMinDistance")(); break;
        case 5: m.minAngle.reset(); c.attr("neglectMinIntersectionAngle")(); break;
        case 6: m.minMag.reset(); c.attr("neglectMinIntersectionMagnitude")(); break;
        case 7: m.minIsDist.reset(); c.attr("neglectMinIntersectionDistance")(); break;
        default: if (sim::chance(50)) c.attr("setIntersectionEpsilon")(1e-7 * size); else c.attr("setDefaultIntersectionEpsilon")(); break;
    }
}
static void constraints()
{
    const double S = sim::chance(70) ? 1.0 : sim::chance(50) ? 50.0 : 0.1;
    std::vector<Shape> pool; const int n = 3 + (int)sim::choose(6), cornered = 1 + (int)sim::choose(2); std::vector<py::object> obj; std::vector<char> face;
    const bool faces = sim::chance(25);
    for (int i = 0; i < n; ++i) { pool.push_back(randomShape({ 0, 0, 0 }, S * 1.2, 0.3 * S, 1.5 * S, sim::chance(50) ? cornered : 0)); if (i && sim::chance(20)) nudge(pool[i], pool[sim::choose(i)], S); face.push_back(faces && sim::chance(40)); obj.push_back(pyEntity(pool[i], face[i])); }
    py::object c = mod("frackit.entitynetwork").attr("EntityNetworkConstraints")(); CModel m; const int k0 = 1 + (int)sim::choose(4); for (int j = 0; j < k0; ++j) changeBoth(m, c, S);
    std::vector<std::vector<int>> cache(n, std::vector<int>(n, -2));
    auto pairModel = [&](int i, int j) { int& r = cache[i][j]; if (r == -2) r = m.pair(pool[i], pool[j]); return r; };
    const int ops = 4 + (int)sim::choose(16);
    for (int i = 0; i < ops; ++i) {
        sim::op();
        if (sim::chance(12)) { changeBoth(m, c, S); for (auto& r : cache) std::fill(r.begin(), r.end(), -2); sim::log("constraints:%s", m.describe().c_str()); continue; }
        struct Side { std::vector<int> idx; bool list; py::object o; };
        auto side = [&] { Side s; s.list = sim::chance(60); const int cnt = s.list ? (int)sim::choose(5) : 1; for (int t = 0; t < cnt; ++t) s.idx.push_back((int)sim::choose(n)); if (s.list) { py::list l; for (int j : s.idx) l.append(obj[j]); s.o = l; } else s.o = obj[s.idx[0]]; return s; };
        Side a = side(), b = side(); int want = 1; bool coplanar = false;
        for (int p : a.idx) for (int q : b.idx) { const int w = pairModel(p, q); want = CModel::both(want, w); if (onePlane(pool[p], pool[q], w)) coplanar = true; }
        bool got = false; std::string err; const bool threw = pyThrows([&] { got = c.attr("evaluate")(a.o, b.o).cast<bool>(); }, err);
        if (threw) { if (!coplanar) sim::violation("evaluate-throws", "evaluating %zu x %zu entities (%s/%s) raised %s", a.idx.size(), b.idx.size(), a.list ? "list" : "single", b.list ? "list" : "single", err.c_str()); sim::probe("coplanar-not-implemented"); }
        else if (want >= 0) {
            if (got != (want == 1)) sim::violation("evaluate", "%s of %zu against %s of %zu answers %d, the pairs say %d [%s ] (first: %s / %s)", a.list ? "list" : "single", a.idx.size(), b.list ? "list" : "single", b.idx.size(), got, want, m.describe().c_str(), a.idx.empty() ? "-" : pool[a.idx[0]].describe().c_str(), b.idx.empty() ? "-" : pool[b.idx[0]].describe().c_str());
            if (!a.idx.empty() && !b.idx.empty()) sim::probe(want ? "fulfilled" : "violated");
        } else sim::probe("borderline");
        sim::state(sim::mix(sim::mix(a.list * 2 + b.list, want + 1), threw + 2 * faces)); sim::log("%zu x %zu (%d/%d) -> %s", a.idx.size(), b.idx.size(), a.list, b.list, threw ? "raised" : want < 0 ? "borderline" : got ? "true" : "false");
    }
}

// ---------------------------------------------------------------- constraints matrix
static bool stubPair(int tag, int e, int cand) { return sim::mix(sim::mix(tag, e), cand) % 100 >= 25; }
static void matrix()
{
    auto en = mod("frackit.entitynetwork"); py::object M = en.attr("EntityNetworkConstraintsMatrix")();
    const bool real = sim::chance(35), idObjects = sim::chance(60); const double S = 1; const int nIds = 1 + (int)sim::choose(5);
    std::vector<std::size_t> raw; std::vector<py::object> ids; raw = distinctIds(nIds, 60); for (int i = 0; i < nIds; ++i) { ids.push_back(idObjects ? pyId(raw[i]) : py::object(py::int_(raw[i]))); }
    // ids are values: every use is another object
    auto id = [&](int i) { return idObjects ? pyId(raw[i]) : py::object(py::int_(raw[i])); };
    struct Rel { int tag; }; std::map<std::pair<int, int>, int> rel; std::vector<CModel> models; struct Acc { int num, set; Shape s; }; std::vector<Acc> acc; py::dict sets; int num = 1;
    auto boom = std::make_shared<long>(0); auto calls = std::make_shared<std::set<std::pair<int, int>>>();
    // stub entities are numbers
    py::object stubType = py::none();
    auto makeStub = [&](int tag) {
        py::object o = mod("types").attr("SimpleNamespace")();
        o.attr("evaluate") = py::cpp_function([tag, boom](py::object a, py::object b) {
            if (*boom > 0 && --*boom == 0) throw Boom();
            py::list l; if (py::isinstance<py::list>(a)) l = a; else l.append(a); py::list r; if (py::isinstance<py::list>(b)) r = b; else r.append(b);
            for (auto x : l) for (auto y : r) if (!stubPair(tag, x.cast<int>(), y.cast<int>())) return false; return true; });
        return o;
    };
    const int ops = 5 + (int)sim::choose(real ? 25 : 60);
    for (int i = 0; i < ops; ++i) {
        sim::op();
        if (rel.empty() || sim::chance(20)) {
            std::vector<std::pair<int, int>> ps; const int k = 1 + (int)sim::choose(4); for (int j = 0; j < k; ++j) ps.push_back({ (int)sim::choose(nIds), (int)sim::choose(nIds) });
            bool dup = false; std::set<std::pair<int, int>> seen; for (auto& p : ps) { dup = dup || rel.count(p) || seen.count(p); seen.insert(p); }
            const int tag = (int)models.size(); CModel m; py::object c;
            if (real) { c = en.attr("EntityNetworkConstraints")(); const int q = 1 + (int)sim::choose(3); for (int j = 0; j < q; ++j) changeBoth(m, c, S); } else c = makeStub(tag);
            py::list pairs; for (auto& p : ps) { py::list l; l.append(id(p.first)); l.append(id(p.second)); pairs.append(l); }
            const bool malformed = !dup && sim::chance(10); if (malformed) { py::list l; l.append(id(0)); if (sim::chance(50)) { l.append(id(0)); l.append(id(0)); } pairs.append(l); }
            std::string err; const bool threw = pyThrows([&] { if (ps.size() == 1 && !malformed && sim::chance(60)) M.attr("addConstraints")(c, pairs[0]); else M.attr("addConstraints")(c, pairs); }, err);
            if (dup || malformed) { if (!threw) sim::violation("bad-relation", "a %s id pair was accepted", dup ? "taken" : "malformed"); sim::fault(dup ? "taken-pair" : "malformed-pair"); sim::log("add %zu relations: rejected", ps.size()); continue; }
            if (threw) sim::violation("add-throws", "adding %zu new relations raised %s", ps.size(), err.c_str());
            models.push_back(m); for (auto& p : ps) rel[p] = tag; sim::log("constraint %d for %zu relations", tag, ps.size()); continue;
        }
        if (sim::chance(5)) { const int x = (int)sim::choose(nIds); bool any = false; for (auto& a : acc) any = any || a.set == x; if (!any && !sets.contains(id(x))) { sets[id(x)] = py::list(); sim::probe("empty-set"); } continue; }
        Acc e; e.num = num++; e.set = (int)sim::choose(nIds); py::object cand; if (real) { e.s = randomShape({ 0, 0, 0 }, S, 0.3 * S, 1.4 * S, (int)sim::choose(2)); cand = pyEntity(e.s, false); } else cand = py::int_(e.num);
        int want = 1; std::size_t related = 0; bool coplanar = false, hasRel = false;
        for (auto& [p, tag] : rel) if (p.first == e.set) { hasRel = true; for (auto& a : acc) if (a.set == p.second) { ++related; const int w = real ? models[tag].pair(a.s, e.s) : stubPair(tag, a.num, e.num); want = CModel::both(want, w); if (real && onePlane(a.s, e.s, w)) coplanar = true; } }
        const bool fail = !real && sim::chance(8); *boom = fail ? 1 + (long)sim::choose(3) : 0; const bool armed = fail;
        bool got = false; std::string err; const bool threw = pyThrows([&] { got = M.attr("evaluate")(sets, cand, id(e.set)).cast<bool>(); }, err); const bool fired = armed && *boom == 0; *boom = 0;
        if (threw) { if (fired) { if (err.find("boom") == err.npos) sim::violation("failure-changed", "a failing constraint surfaced as %s", err.c_str()); sim::fault("constraint-failure"); } else if (!coplanar) sim::violation("evaluate-throws", "evaluating the matrix raised %s", err.c_str()); continue; }
        if (fired) sim::violation("failure-lost", "a failing constraint went unnoticed");
        if (want >= 0 && got != (want == 1)) sim::violation("matrix", "a candidate for set %zu is %s, its %zu related entities say %s", raw[e.set], got ? "accepted" : "rejected", related, want ? "accept" : "reject");
        if (related && want >= 0) sim::probe(want ? "accepted" : "rejected");
        if (!hasRel) sim::probe("no-relation");
        sim::state(sim::mix(sim::mix(nIds, want + 1), std::min<std::size_t>(related, 12) * 2 + real)); sim::log("candidate for set %d: %s (%zu related)", e.set, got ? "accepted" : "rejected", related);
        if (got && sim::chance(80)) { if (!sets.contains(id(e.set))) sets[id(e.set)] = py::list(); sets[id(e.set)].attr("append")(cand); acc.push_back(e); }
    }
}

// ---------------------------------------------------------------- builders and writer
static py::object pyDomainShape(const wl::Domain& d) { if (d.kind == 0 && !sim::chance(25)) return py::cast(d.box()); if (d.kind == 1 && !sim::chance(25)) return py::cast(d.cylinder()); if (d.kind == 2 && sim::chance(50)) return mod("frackit.occutilities").attr("getShape")(py::cast(d.sphere())); return py::cast(SolidW(TopoDS::Solid(d.shape()))); }
static void pyFill(py::object b, const Scene& s, bool contained)
{
    // entities of one set and kind may come as a list; positions follow the order of the calls
    b.attr("setConfineToSubDomainUnion")(s.toUnion);
    std::vector<int> pendingDom; for (std::size_t i = 0; i < s.doms.size(); ++i) pendingDom.push_back((int)i);
    auto addDomain = [&] { const int i = pendingDom.back(); pendingDom.pop_back(); sim::op(); b.attr(s.confining[i] ? "addConfiningSubDomain" : "addSubDomain")(pyDomainShape(s.doms[i]), pyId(s.domId[i])); };
    for (std::size_t k = 0; k < s.prims.size();) {
        if (!pendingDom.empty() && sim::chance(50)) { addDomain(); continue; }
        std::size_t e = k + 1; if (sim::chance(60)) while (e < s.prims.size() && s.prims[e].sd == s.prims[k].sd) ++e;
        sim::op(); const std::size_t sd = s.prims[k].sd; const bool list = e > k + 1 || sim::chance(30), plain = sd == 0 && !contained && sim::chance(70);
        if (list) { py::list l; for (std::size_t j = k; j < e; ++j) l.append(pyEntity(s.prims[j].s, s.prims[j].asFace)); py::object o = l; if (sim::chance(30)) o = py::tuple(l); if (plain) b.attr("addEntities")(o); else b.attr("addSubDomainEntities")(o, pyId(sd)); sim::probe("list-form"); }
        else { py::object o = pyEntity(s.prims[k].s, s.prims[k].asFace); if (plain) b.attr("addEntity")(o); else b.attr("addSubDomainEntity")(o, pyId(sd)); }
        k = e;
    }
    while (!pendingDom.empty()) addDomain();
}
static void networks()
{
    idBits = 24; const bool contained = sim::chance(55); auto en = mod("frackit.entitynetwork"); py::object b = en.attr(contained ? "ContainedEntityNetworkBuilder" : "EntityNetworkBuilder")();
    const int phases = 1 + (int)sim::choose(2); bool eps = false;
    for (int ph = 0; ph < phases; ++ph) {
        if (ph) { b.attr("clear")(); sim::probe("cleared"); }
        Scene s = randomScene(contained ? 2 : sim::chance(50) ? 0 : 2, 5); if (s.prims.empty()) sim::discard("no entities");
        describe(s); py::object net;
        pyMust("fill-raises", "filling a builder", [&] { if (eps || sim::chance(15)) { if (eps && sim::chance(50)) { b.attr("setDefaultEpsilon")(); eps = false; } else { b.attr("setEpsilon")(1e-7 * s.S); eps = true; } } pyFill(b, s, contained); });
        pyMust("build-raises", "build()", [&] { net = b.attr("build")(); });
        if (contained) checkContained(net.cast<const ContainedEntityNetwork&>(), s);
        else { const auto& n = net.cast<const EntityNetwork&>(); auto frags = fragsOf(n.entityFragments(), n.entityFragmentsIndexMap(), ~(std::size_t)0, "network"); NetOracle o{ s.prims, [&](const Prim& p) { return s.region(p); }, [&](const Prim& p) { return s.count.size() == 1 ? p.pos : 0; }, s.S }; o.check(frags, "network"); }
        sim::probe("judged"); sim::state(sim::mix(s.doms.size() * 2 + contained, s.prims.size()));
        if (sim::chance(40)) { // the network does not depend on the builder any more
            const bool kill = sim::chance(50); if (kill) { b = en.attr(contained ? "ContainedEntityNetworkBuilder" : "EntityNetworkBuilder")(); eps = false; }
            const std::string base = sim::scratch() + "/net"; const double e = sim::real(0.01, 2), bd = sim::real(0.01, 2); const bool one = sim::chance(30); py::object w;
            auto write = [&] { if (one) w.attr("write")(base, e); else if (sim::chance(30)) w.attr("write")(py::arg("fileName") = base, py::arg("meshSizeAtEntities") = e, py::arg("meshSizeAtBoundary") = bd); else w.attr("write")(base, e, bd); };
            pyMust("write-raises", "GmshWriter", [&] { w = mod("frackit.io").attr("GmshWriter")(net); net = py::none(); write(); });
            const std::string brep = slurp(base + ".brep"), geo = slurp(base + ".geo"); checkFiles(brep, &geo, base, e, one ? e : bd, s, contained); sim::probe("written");
            if (sim::chance(50)) {
                sim::DiskPlan p; p.writeBudget = (long)sim::choose((uint64_t)(brep.size() + geo.size())); p.writeErrno = ENOSPC; std::string err; sim::disk(p); const bool threw = pyThrows(write, err); sim::diskOff();
                if (!threw && (slurp(base + ".brep") != brep || slurp(base + ".geo") != geo)) sim::violation("silent-loss", "disk full: write() returned but the files are incomplete");
                if (threw && err.rfind("py: ", 0)) sim::violation("failure-changed", "disk full surfaced as %s", err.c_str());
                sim::fault("disk-full"); pyMust("retry-raises", "writing again", [&] { write(); }); if (slurp(base + ".brep") != brep || slurp(base + ".geo") != geo) sim::violation("retry-incomplete", "writing again after a full disk leaves other files");
            }
        }
    }
}
void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    switch (sim::choose(3)) { case 0: constraints(); break; case 1: matrix(); break; default: networks(); }
}
