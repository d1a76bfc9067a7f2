// P07: a multi-geometry sampler serves its registered samplers in order and reports the right id.
#include "common.hh"
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/sequentialsamplingstrategy.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <set>
const char* simRealComponents = "MultiGeometrySampler, SequentialSamplingStrategy, SamplingStrategy, Id";
const char* simStubComponents = "the registered geometry samplers (tagged stubs behind the GeometrySampler interface, may fail), a custom strategy, heap and its failures";
const char* simRule = "a run is a history of registering samplers (including duplicate ids and registrations that run out of memory), sampling, failing samplers and strategy changes, checked step by step against a small executable model; non-trivial: a geometry was sampled";
void simWarmup() {}
using namespace wl; using namespace Frackit;
using Poly = Polygon<double, 3>; using Quad = Quadrilateral<double, 3>;

struct Ctl { int failNext = 0; };
static Ctl ctl;
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
// every stub produces geometries whose position encodes its tag
static V3 tagPos(int tag) { return { 10.0 * tag, 1.0, -3.0 }; }
struct Base { int tag; void go() const { if (ctl.failNext > 0 && --ctl.failNext == 0) throw Boom(); } };
struct DS : GeometrySampler<Disk<double>>, Base { DS(int t) { tag = t; } Disk<double> operator()() override { go(); return Disk<double>(fp(tagPos(tag)), fd({ 1, 0, 0 }), fd({ 0, 1, 0 }), 2, 1); } };
struct QS : GeometrySampler<Quad>, Base { QS(int t) { tag = t; } Quad operator()() override { go(); V3 c = tagPos(tag); return Quad(fp(c), fp(c + V3{ 1, 0, 0 }), fp(c + V3{ 0, 1, 0 }), fp(c + V3{ 1, 1, 0 })); } };
struct PS : GeometrySampler<Poly>, Base { PS(int t) { tag = t; } Poly operator()() override { go(); V3 c = tagPos(tag); return Poly(std::vector<FPoint>{ fp(c), fp(c + V3{ 1, 0, 0 }), fp(c + V3{ 1, 1, 0 }), fp(c + V3{ 0.2, 1.2, 0 }), fp(c + V3{ 0, 1, 0 }) }); } };

struct SimStrategy : SamplingStrategy { std::shared_ptr<std::vector<std::size_t>> next = std::make_shared<std::vector<std::size_t>>(); Id getNextId() override { auto r = next->back(); next->pop_back(); return Id(r); } };

struct Entry { std::size_t id; int type; int tag; };

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32)); ctl = {};
    MultiGeometrySampler<Disk<double>, Poly, Quad> m; std::vector<Entry> reg; int nextTag = 1;
    bool custom = false; SimStrategy cs;
    if (sim::chance(25)) { custom = true; m.setSamplingStrategy(cs); sim::probe("custom-strategy"); }
    else if (sim::chance(30)) { m.setSamplingStrategy(SequentialSamplingStrategy()); }
    // cyclic position of the previous sample; successors that are admissible now
    std::set<std::size_t> allowed; bool anyAllowed = false;
    const int ops = 5 + (int)sim::choose(80);
    auto add = [&](std::size_t id, int type, int tag) { if (type == 0) m.addGeometrySampler(DS(tag), Id(id)); else if (type == 1) m.addGeometrySampler(PS(tag), Id(id)); else m.addGeometrySampler(QS(tag), Id(id)); };
    auto find = [&](std::size_t id) -> Entry* { for (auto& e : reg) if (e.id == id) return &e; return nullptr; };
    long lastPos = -1; // index in reg of the last returned sampler
    bool grewAtWrap = false, afterFailure = false;
    for (int i = 0; i < ops; ++i) {
        sim::op();
        const auto what = sim::choose(10);
        if (reg.empty() && what < 2 && !custom) {
            Id id(99); std::string err; if (!throws([&] { m(id); }, err)) sim::violation("empty", "sampling without registered samplers succeeded");
            sim::probe("sampled-empty"); continue;
        }
        if (reg.empty() || what < 3) {
            // ids are arbitrary, sometimes large, sometimes taken
            std::size_t id = sim::choose(12); if (sim::chance(10)) id = ~(std::size_t)0 - sim::choose(3); else if (sim::chance(12)) id += (std::size_t)1 << (sim::chance(50) ? 16 : 32);
            const int type = (int)sim::choose(3), tag = nextTag++; Entry* old = find(id); std::string err;
            bool alloc = sim::chance(20); if (alloc) sim::failAllocation(1 + sim::choose(6), 1);
            const bool threw = throws([&] { add(id, type, tag); }, err);
            const bool fired = alloc && sim::allocationFailed(); sim::failAllocation(0, 0); if (fired) sim::fault("allocation-failure");
            if (old) { if (!threw) sim::violation("duplicate-id", "id %zu was registered twice", id); sim::probe("duplicate-rejected"); sim::log("add id %zu type %d: rejected", id, type); continue; }
            if (threw) {
                if (!fired) sim::violation("add-throws", "registering id %zu threw: %s", id, err.c_str());
                // nothing may have changed: the id is still free, and another sampler can take it
                const int type2 = (int)sim::choose(3), tag2 = nextTag++;
                sim::probe("add-failed");
                if (sim::chance(70)) {
                    mustNotThrow("add-after-failure", "registering an id whose earlier registration failed", [&] { add(id, type2, tag2); });
                    reg.push_back({ id, type2, tag2 });
                }
            } else reg.push_back({ id, type, tag });
            if (lastPos >= 0 && lastPos == (long)reg.size() - 2) grewAtWrap = true;
            sim::log("add id %zu type %d -> %zu registered%s", id, type, reg.size(), threw ? " (after a failure)" : "");
            continue;
        }
        // sample
        std::size_t want = ~(std::size_t)0; bool unknown = false;
        if (custom) {
            if (sim::chance(10)) { do want = 100 + sim::choose(50); while (find(want)); unknown = true; } else want = reg[sim::choose(reg.size())].id;
            cs.next->assign(1, want);
        }
        const bool boom = sim::chance(10) && !unknown; if (boom) ctl.failNext = 1;
        Id id(12345); std::shared_ptr<Geometry> g; std::string err;
        const bool threw = throws([&] { g = m(id); }, err); ctl.failNext = 0;
        if (unknown) { if (!threw) sim::violation("unknown-id", "an id without sampler was served"); sim::probe("unknown-id-reported"); continue; }
        if (boom) { sim::fault("sampler-failure"); if (!threw || err != "std: boom") sim::violation("failure-changed", "a failing sampler surfaced as: %s", threw ? err.c_str() : "success"); afterFailure = true; sim::log("sampler failed"); continue; }
        if (threw) sim::violation("sampling-throws", "sampling threw: %s", err.c_str());
        Entry* e = find(id.get()); if (!e) sim::violation("id", "id %zu was returned but never registered", id.get());
        const long pos = e - reg.data(); const long n = (long)reg.size();
        if (custom) { if (id.get() != want) sim::violation("strategy-ignored", "strategy chose id %zu, got %zu", want, id.get()); }
        else if (lastPos < 0 && !afterFailure) { if (pos != 0) sim::violation("order", "the first sample comes from position %ld", pos); }
        else if (!afterFailure) {
            const long succ = (lastPos + 1) % n;
            if (pos != succ && !(grewAtWrap && pos == 0)) sim::violation("order", "position %ld follows position %ld of %ld registered samplers", pos, lastPos, n);
        } // a failed sample may or may not have used up its turn
        else { const long succ = lastPos < 0 ? 0 : (lastPos + 1) % n; bool ok = false; for (long k = 0; k < n; ++k) ok |= pos == (succ + k) % n; if (!ok) sim::violation("order", "unexpected position"); }
        lastPos = pos; grewAtWrap = false; afterFailure = false;
        // the geometry comes from the sampler registered under that id
        const char* tn[] = { "disk", "polygon", "quadrilateral" }; V3 at; int type = -1;
        if (!g) sim::violation("null", "no geometry was returned");
        if (auto p = dynamic_cast<Disk<double>*>(g.get())) { type = 0; at = v3(p->center()); }
        else if (auto p = dynamic_cast<Poly*>(g.get())) { type = 1; at = v3(p->corner(0)); }
        else if (auto p = dynamic_cast<Quad*>(g.get())) { type = 2; at = v3(p->corner(0)); }
        const int tag = (int)std::lround(at.x / 10);
        if (type != e->type || tag != e->tag) sim::violation("wrong-sampler", "id %zu belongs to %s sampler #%d but the geometry comes from %s sampler #%d", id.get(), tn[e->type], e->tag, type < 0 ? "?" : tn[type], tag);
        sim::log("sample -> id %zu position %ld", id.get(), pos); sim::probe("sampled"); sim::state(sim::mix(pos, n));
    }
}
