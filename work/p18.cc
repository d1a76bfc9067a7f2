// P18: readShape() delivers the complete shape of the file or reports an error.
#include "gmshfile.hh"
#include <unistd.h>
const char* simRealComponents = "OCCUtilities::readShape(), getSolids()/getShells()/getFaces()/getWires()/getEdges()/getVertices(), BRepWriter, OpenCASCADE .brep input, C++ file streams";
const char* simStubComponents = "the disk (system calls below the streams follow a fault plan decided by the simulator; stored files may be cut off or foreign), sub-domains and entities, heap placement and failures of operator new";
const char* simRule = "a run stores shapes as .brep files and reads them under disk faults (missing or unreadable files, I/O errors and premature end at any byte, short reads, interrupts, cut-off files, foreign content, no memory); whenever readShape() returns, the shape must be the stored one, an undisturbed read must never fail; non-trivial: a read was judged";
void simWarmup() {}
using namespace wl; using namespace Frackit;

struct Sig { int kind; std::size_t so, sh, f, w, e, v; double vol, area, len; V3 lo{}, hi{};
    bool operator==(const Sig& o) const { auto near = [](double a, double b) { return std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b)); }; return kind == o.kind && so == o.so && sh == o.sh && f == o.f && w == o.w && e == o.e && v == o.v && near(vol, o.vol) && near(area, o.area) && near(len, o.len) && norm(lo - o.lo) <= 1e-9 * (1 + norm(lo)) && norm(hi - o.hi) <= 1e-9 * (1 + norm(hi)); } };
static Sig sig(const TopoDS_Shape& s)
{
    Sig g{ (int)s.ShapeType(), OCCUtilities::getSolids(s).size(), OCCUtilities::getShells(s).size(), OCCUtilities::getFaces(s).size(), OCCUtilities::getWires(s).size(), OCCUtilities::getEdges(s).size(), OCCUtilities::getVertices(s).size(), 0, 0, 0 };
    for (auto& x : OCCUtilities::getSolids(s)) g.vol += solidVolume(x); for (auto& x : OCCUtilities::getFaces(s)) g.area += faceArea(x); for (auto& x : OCCUtilities::getEdges(s)) if (!BRep_Tool::Degenerated(x)) g.len += edgeLength(x);
    g.lo = { 1e300, 1e300, 1e300 }; g.hi = { -1e300, -1e300, -1e300 };
    for (auto& x : OCCUtilities::getVertices(s)) { const gp_Pnt p = BRep_Tool::Pnt(x); g.lo = { std::min(g.lo.x, p.X()), std::min(g.lo.y, p.Y()), std::min(g.lo.z, p.Z()) }; g.hi = { std::max(g.hi.x, p.X()), std::max(g.hi.y, p.Y()), std::max(g.hi.z, p.Z()) }; }
    return g;
}
static void spit(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }

void simRun()
{
    idBits = 24;
    sim::heapLayout(sim::choose(1ull << 32));
    Scene s = randomScene(2, 3); if (s.prims.empty()) sim::discard("no entities");
    const std::string name = sim::scratch() + "/shape"; const std::string file = name + ".brep"; Sig ref{}; double wantV = -1;
    auto store = [&] { // what is stored
    wantV = -1;
    const int what = sim::chance(6) ? 4 : (int)sim::choose(5); switch (what == 4 && sim::chance(80) ? 5 : what) {
    case 4: { // large files
        TopoDS_Compound c; BRep_Builder bb; bb.MakeCompound(c); const int k = 20 + (int)sim::choose(sim::chance(20) ? 800 : 150);
        for (int j = 0; j < k; ++j) { auto q = s.prims[j % s.prims.size()].s; q.c = q.c + V3{ 3.3 * s.S * (j + 1), 0.7 * s.S, -s.S * j }; bb.Add(c, faceOf(q)); }
        BRepTools::Write(c, file.c_str()); ref = sig(c); sim::probe(slurp(file).size() > 65536 ? "large-file" : "medium-file"); break; }
    case 0: { const auto sh = s.doms[0].shape(); BRepTools::Write(sh, file.c_str()); ref = sig(sh); wantV = s.doms[0].volume(); break; }
    case 1: { const auto sh = faceOf(s.prims[sim::choose(s.prims.size())].s); BRepTools::Write(sh, file.c_str()); ref = sig(sh); break; }
    case 2: { TopoDS_Compound c; BRep_Builder bb; bb.MakeCompound(c); wantV = 0; for (auto& d : s.doms) bb.Add(c, d.shape()), wantV += d.volume(); BRepTools::Write(c, file.c_str()); ref = sig(c); break; }
    case 3: { // anything side by side: solids, faces, edges, moved and reversed copies, nested compounds
        TopoDS_Compound c, in; BRep_Builder bb; bb.MakeCompound(c); bb.MakeCompound(in); const int k = 1 + (int)sim::choose(4);
        for (int j = 0; j < k; ++j) {
            TopoDS_Shape x = sim::chance(30) ? s.doms[sim::choose(s.doms.size())].shape() : TopoDS_Shape(faceOf(s.prims[sim::choose(s.prims.size())].s));
            if (sim::chance(30)) x = OCCUtilities::getEdges(x)[0];
            if (sim::chance(30)) { gp_Trsf t; t.SetTranslation(gp_Vec(3 * s.S * (j + 1), 0, -s.S * j)); x.Move(TopLoc_Location(t)); }
            if (sim::chance(30)) x.Reverse();
            if (j && sim::chance(25)) bb.Add(in, x); else bb.Add(c, x);
        }
        if (sim::chance(50)) bb.Add(c, in);
        BRepTools::Write(c, file.c_str()); ref = sig(c); sim::probe("mixed-compound"); break; }
    default: { ContainedEntityNetworkBuilder<double> b; fill(b, s); b.build(); BRepWriter(b.network()).write(name); TopoDS_Shape t; std::stringstream in(slurp(file)); BRepTools::Read(t, in, BRep_Builder()); ref = sig(t); wantV = -1; break; }
    } };
    store();
    std::string text = slurp(file); std::size_t last = text.find_last_not_of(" \n\r"); // reading is complete from here on
    auto read = [&](TopoDS_Shape& t) { t = OCCUtilities::readShape(file); };
    auto good = [&](const char* cls, const char* what) { TopoDS_Shape t; mustNotThrow(cls, what, [&] { read(t); }); if (t.IsNull()) sim::violation(cls, "%s gives a null shape", what); if (!(sig(t) == ref)) sim::violation("wrong-shape", "%s gives another shape than stored", what);
        if (wantV >= 0) { double v = 0; for (auto& x : OCCUtilities::getSolids(t)) v += solidVolume(x); if (std::abs(v - wantV) > 2e-3 * wantV) sim::violation("wrong-shape", "%s: solids of volume %.6g instead of %.6g", what, v, wantV); } };
    good("read-throws", "an undisturbed read"); sim::log("stored %zu bytes: %zu solids, %zu faces", text.size(), ref.so, ref.f);
    std::vector<std::pair<TopoDS_Shape, Sig>> kept; const int n = 1 + (int)sim::choose(6);
    for (int i = 0; i < n; ++i) {
        if (sim::chance(15)) { store(); text = slurp(file); last = text.find_last_not_of(" \n\r"); sim::log("stored anew"); if (sim::chance(70)) good("read-throws", "reading a file that was stored anew"); sim::probe("stored-anew"); }
        sim::op(); std::string what, err; TopoDS_Shape t; bool threw = false; int expect = 0; // 1 must throw, 0 must not, 2 either
        const int kind = (int)sim::choose(9); sim::DiskPlan p; bool useDisk = true, restore = false; const std::size_t cutAt = sim::chance(30) ? last - std::min<std::size_t>(last, sim::choose(40)) : sim::chance(20) ? sim::choose(200) : sim::choose(last + 1);
        switch (kind) {
        case 0: p.readBudget = (long)cutAt; p.readErrno = EIO; what = "I/O error"; expect = cutAt <= last ? 1 : 0; break;
        case 1: p.readBudget = (long)cutAt; what = "premature end"; expect = 1; break;
        case 2: p.openErrno = sim::chance(50) ? ENOENT : sim::chance(50) ? EACCES : EMFILE; what = "open fails"; expect = 1; break;
        case 3: p.shortReads = 1; what = "short reads"; break;
        case 4: p.interrupts = 1; what = "interrupts"; break;
        case 5: p.shortReads = p.interrupts = 1; what = "short reads and interrupts"; break;
        case 6: useDisk = false; restore = true; what = "cut-off file"; expect = 1; spit(file, text.substr(0, cutAt)); sim::fault("file-cut-off"); break;
        case 7: useDisk = false; restore = true; what = "foreign file"; expect = 1; { static const char* junk[] = { "", "\n\n\n", "solid ascii\nfacet normal 0 0 1\n", "ISO-10303-21;\nHEADER;\n", "DBRep_DrawableShape\n", "0 1 2 3 4 5 6 7\n" }; spit(file, junk[sim::choose(6)]); } sim::fault("file-foreign"); break;
        default: useDisk = false; what = "out of memory"; expect = 2; sim::failAllocation(1 + sim::choose(6), 1); break;
        }
        if (useDisk) sim::disk(p);
        threw = throws([&] { read(t); }, err);
        if (useDisk) { sim::diskOff(); if (expect == 1 && !sim::diskFaultFired()) expect = 0; } const bool hit = kind == 8 && sim::allocationFailed(); if (kind == 8) { sim::failAllocation(0, 0); if (hit) sim::fault("read-out-of-memory"); if (!hit) expect = 0; }
        // the last token may be shorter and still complete
        if (expect == 1 && kind <= 6 && kind != 2 && !threw && !t.IsNull() && sig(t) == ref) { sim::probe("complete-in-spite"); continue; }
        if (expect == 1 && !threw) sim::violation("silent-failure", "%s (byte %zu of %zu): readShape() returned %s", what.c_str(), cutAt, text.size(), t.IsNull() ? "a null shape" : "normally");
        if (expect == 0 && threw) sim::violation("read-throws", "%s: readShape() threw: %s", what.c_str(), err.c_str());
        if (!threw && !(sig(t) == ref)) sim::violation("wrong-shape", "%s: readShape() returned another shape than stored", what.c_str());
        if (restore) spit(file, text);
        for (auto& k : kept) if (!(sig(k.first) == k.second)) sim::violation("shape-changed", "a shape read earlier changed");
        if (!threw && kept.size() < 3) kept.push_back({ t, ref });
        sim::log("%s: %s", what.c_str(), threw ? "error reported" : "read"); sim::state(sim::mix(kind * 2 + threw, ref.so * 100 + ref.f));
        if (sim::chance(40)) { good("retry-throws", "a read after a disturbed one"); sim::probe("retried-read"); }
    }
}
