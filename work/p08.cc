// P08: the sampling status is a set of counters with targets.
#include "common.hh"
#include <frackit/sampling/status.hh>
#include <map>
#include <iostream>
const char* simRealComponents = "SamplingStatus, Id, std::cout formatting";
const char* simStubComponents = "the terminal (captured), heap placement and its failures";
const char* simRule = "a run is a history of target changes, accepted and rejected samples, resets, queries, prints and allocation failures over arbitrary ids, checked after every step against a counter model; non-trivial: a counter was increased";
void simWarmup() {}
using namespace wl; using namespace Frackit;

struct Capture {
    std::ostringstream s; std::streambuf* old;
    Capture() : old(std::cout.rdbuf(s.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
};

void simRun()
{
    sim::heapLayout(sim::choose(1ull << 32));
    SamplingStatus st; std::map<std::size_t, std::size_t> cnt, target; long rej = 0; bool rejKnown = true, header = false;
    std::vector<std::size_t> ids; const int nIds = 1 + (int)sim::choose(6);
    ids = distinctIds(nIds);
    auto total = [&] { std::size_t s = 0; for (auto& p : cnt) s += p.second; return s; };
    auto totalTarget = [&] { std::size_t s = 0; for (auto& p : target) s += p.second; return s; };
    const int ops = 5 + (int)sim::choose(150);
    for (int i = 0; i < ops; ++i) {
        sim::op(); const std::size_t id = ids[sim::choose(ids.size())]; Capture cap; std::string err;
        const auto what = sim::choose(20);
        if (what < 3) {
            std::size_t n = sim::choose(8); if (sim::chance(15)) n = sim::choose(3) ? 0 : 1000000; 
            if (sim::chance(20)) sim::failAllocation(1 + sim::choose(3), 1);
            bool threw = throws([&] { st.setTargetCount(Id(id), n); }, err); const bool fired = sim::allocationFailed(); sim::failAllocation(0, 0);
            if (threw) { if (!fired) sim::violation("throws", "setting a target threw: %s", err.c_str()); sim::fault("allocation-failure"); mustNotThrow("retry", "setting the target again", [&] { st.setTargetCount(Id(id), n); }); sim::probe("retried"); }
            target[id] = n; cnt[id]; sim::log("target %zu = %zu", id, n);
            if (cap.s.str().find("Warning") != std::string::npos ? cnt[id] <= n : cnt[id] > n) sim::violation("warning", "count %zu, target %zu: warning %s", cnt[id], n, cap.s.str().empty() ? "missing" : "given");
        } else if (what < 10) {
            int k = 1; if (sim::chance(10)) k = 20; if (sim::chance(3)) k = 3000;
            for (int j = 0; j < k; ++j) {
                cap.s.str("");
                mustNotThrow("throws", "counting a sample", [&] { st.increaseCounter(Id(id)); }); cnt[id]++;
                if (target.count(id)) { const bool w = cap.s.str().find("Warning") != std::string::npos; if (w != (cnt[id] > target[id])) sim::violation("warning", "count %zu, target %zu: warning %s", cnt[id], target[id], w ? "given" : "missing"); }
            }
            target[id]; sim::probe("accepted"); sim::log("accept %zu x%d", id, k);
        } else if (what < 12) { int k = 1 + (int)sim::choose(40); for (int j = 0; j < k; ++j) st.increaseRejectedCounter(); rej += k; sim::log("reject x%d", k); }
        else if (what == 12) { mustNotThrow("throws", "resetting a counter", [&] { st.resetCounter(Id(id)); }); if (cnt.count(id)) cnt[id] = 0; sim::log("reset counter %zu", id); }
        else if (what == 13 && sim::chance(30)) { mustNotThrow("throws", "resetting the counters", [&] { st.resetCounters(); }); for (auto& p : cnt) p.second = 0; if (rej) rejKnown = false; sim::log("reset counters"); }
        else if (what == 14 && sim::chance(20)) { st.reset(); cnt.clear(); target.clear(); rej = 0; rejKnown = true; header = false; sim::log("reset"); }
        else if (what == 15) { SamplingStatus c(st); st = c; }
        else if (what < 18) {
            const bool force = sim::chance(20);
            mustNotThrow("print-throws", "printing the status", [&] { st.print(force); });
            std::string o = cap.s.str(); const bool h = o.find("Accepted count") != std::string::npos;
            if (h != (force || !header)) sim::violation("header", "header %s", h ? "repeated" : "missing"); header = true;
            if (o.size() > 2000) sim::violation("print-size", "one status line takes %zu characters", o.size());
            auto p = o.rfind('\n', o.size() - 2); std::string line = p == std::string::npos ? o : o.substr(p + 1);
            double a = -1, r = -1, ra = -1, pr = -1; char t3[64] = "", t4[64] = "";
            if (sscanf(line.c_str(), " %lf | %lf | %60s | %60s", &a, &r, t3, t4) != 4) sim::violation("print-format", "unexpected status line: %s", line.c_str());
            if (a != (double)total()) sim::violation("print-count", "printed %g accepted, counted %zu", a, total());
            if (rejKnown && r != (double)rej) sim::violation("print-rejected", "printed %g rejected, counted %ld", r, rej);
            ra = atof(t3); pr = atof(t4); const double all = (double)total() + r;
            if (all > 0 && std::abs(ra - 100.0 * total() / all) > 0.0051) sim::violation("print-ratio", "printed ratio %s for %zu of %g", t3, total(), all);
            if (totalTarget() && std::abs(pr - 100.0 * total() / totalTarget()) > 0.0051) sim::violation("print-progress", "printed progress %s for %zu of %zu", t4, total(), totalTarget());
            sim::probe("printed"); if (!totalTarget()) sim::probe("printed-without-target"); if (all == 0) sim::probe("printed-without-samples");
            sim::log("print %s", line.c_str());
        } else { // queries on any id, known or not
            std::size_t q = 0; mustNotThrow("throws", "querying a count", [&] { q = st.getCount(Id(id)); });
            if (q != (cnt.count(id) ? cnt[id] : 0)) sim::violation("count", "count of id %zu is %zu, model says %zu", id, q, cnt.count(id) ? cnt[id] : 0);
            if (!cnt.count(id)) sim::probe("queried-unknown");
        }
        // invariants after every step
        std::size_t tot = 0; bool fin = false; mustNotThrow("throws", "querying the total count", [&] { tot = st.getCount(); });
        if (tot != total()) sim::violation("total", "total is %zu, model says %zu", tot, total());
        bool want = true; for (auto& p : target) want &= cnt[p.first] >= p.second;
        mustNotThrow("finished-throws", "asking whether sampling is finished", [&] { fin = st.finished(); });
        if (fin != want) sim::violation("finished", "finished() is %d, model says %d", fin, want);
        for (auto& p : target) { bool f = false; mustNotThrow("finished-throws", "asking whether an id is finished", [&] { f = st.finished(Id(p.first)); }); if (f != (cnt[p.first] >= p.second)) sim::violation("finished-id", "finished(%zu) is %d with %zu of %zu", p.first, f, cnt[p.first], p.second); }
        if (!target.count(id)) { bool f; if (!throws([&] { f = st.finished(Id(id)); }, err)) { if (!f) sim::violation("finished-id", "id %zu has no target but counts as unfinished", id); } }
        sim::state(sim::mix(total() > totalTarget() ? 2 : total() == totalTarget(), sim::mix(target.size(), what)));
    }
}
