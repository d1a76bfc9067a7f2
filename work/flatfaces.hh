// Rectilinear face shapes (possibly not convex, with holes) on an integer grid whose intersections
// are known exactly: several areas, edges, runs of one line.
#ifndef VERIF_FLATFACES_HH
#define VERIF_FLATFACES_HH
#include "constraintmodel.hh"
#include <map>
#include <set>
#include <BRepBuilderAPI_MakeFace.hxx>
#include <BRepBuilderAPI_MakePolygon.hxx>
#include <gp_Pln.hxx>
namespace wl {
struct Cells {
    int n = 0, m = 0; std::set<std::pair<int, int>> in;
    bool has(int i, int j) const { return in.count({ i, j }) > 0; }
    bool proper() const // connected, no two cells meeting in a corner only
    {
        if (in.empty()) return false;
        std::set<std::pair<int, int>> seen{ *in.begin() }; std::vector<std::pair<int, int>> todo{ *in.begin() };
        while (!todo.empty()) { const auto [i, j] = todo.back(); todo.pop_back(); const int d[4][2] = { { 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -1 } }; for (auto& e : d) { const std::pair<int, int> k{ i + e[0], j + e[1] }; if (in.count(k) && seen.insert(k).second) todo.push_back(k); } }
        if (seen.size() != in.size()) return false;
        for (int i = -1; i <= n; ++i) for (int j = -1; j <= m; ++j) { const bool a = has(i, j), b = has(i + 1, j), c = has(i, j + 1), d = has(i + 1, j + 1); if ((a && d && !b && !c) || (b && c && !a && !d)) return false; }
        return true;
    }
    // closed loops of corners, the cells on the left
    std::vector<std::vector<std::pair<int, int>>> loops() const
    {
        std::map<std::pair<int, int>, std::pair<int, int>> next; std::vector<std::vector<std::pair<int, int>>> out;
        for (auto& [i, j] : in) { if (!has(i, j - 1)) next[{ i, j }] = { i + 1, j }; if (!has(i + 1, j)) next[{ i + 1, j }] = { i + 1, j + 1 }; if (!has(i, j + 1)) next[{ i + 1, j + 1 }] = { i, j + 1 }; if (!has(i - 1, j)) next[{ i, j + 1 }] = { i, j }; }
        while (!next.empty()) {
            std::vector<std::pair<int, int>> l; auto p = next.begin()->first; while (next.count(p)) { l.push_back(p); const auto q = next[p]; next.erase(p); p = q; }
            std::vector<std::pair<int, int>> c; const size_t k = l.size(); // corners only
            for (size_t a = 0; a < k; ++a) { const auto &u = l[(a + k - 1) % k], &v = l[a], &w = l[(a + 1) % k]; if ((v.first - u.first) * (w.second - v.second) != (v.second - u.second) * (w.first - v.first)) c.push_back(v); }
            out.push_back(c);
        }
        return out;
    }
};
inline Cells randomCells()
{
    static const std::vector<std::vector<std::string>> given = { { "##" , "##" }, { "#.#", "###" }, { "###", "#..", "###" }, { "#.#.#", "#####" }, { "###", "#.#", "###" }, { "###", ".#.", ".#." }, { "#..", "###", "..#" }, { "#.#", "###", "#.#" }, { "#...", "####" }, { "#" }, { "####" } };
    Cells c;
    if (sim::chance(70)) {
        const auto& g = given[sim::choose(given.size())]; const bool fi = sim::chance(50), fj = sim::chance(50), tr = sim::chance(50); const int a = sim::chance(30) ? 2 : 1, h = (int)g.size(), w = (int)g[0].size();
        for (int i = 0; i < w * a; ++i) for (int j = 0; j < h; ++j) if (g[j][i / a] == '#') { int x = fi ? w * a - 1 - i : i, y = fj ? h - 1 - j : j; if (tr) std::swap(x, y); c.in.insert({ x, y }); }
        c.n = tr ? h : w * a; c.m = tr ? w * a : h; return c;
    }
    for (int t = 0; t < 50; ++t) {
        c = Cells(); c.n = 2 + (int)sim::choose(3); c.m = 2 + (int)sim::choose(3); for (int i = 0; i < c.n; ++i) for (int j = 0; j < c.m; ++j) if (sim::chance(65)) c.in.insert({ i, j });
        if (c.proper()) return c;
    }
    c = Cells(); c.n = c.m = 1; c.in.insert({ 0, 0 }); return c;
}
// units: a tenth of the side of a cell; axis: the direction the face is perpendicular to (0 or 2)
struct Flat {
    int axis = 2, off = 0, s0 = 0, s1 = 0; Cells cells;
    struct Box { int lo[3], hi[3]; };
    int dir0() const { return axis == 2 ? 0 : 1; } int dir1() const { return axis == 2 ? 1 : 2; }
    Box box(std::pair<int, int> k) const { Box b; b.lo[axis] = b.hi[axis] = off; b.lo[dir0()] = s0 + 10 * k.first; b.hi[dir0()] = b.lo[dir0()] + 10; b.lo[dir1()] = s1 + 10 * k.second; b.hi[dir1()] = b.lo[dir1()] + 10; return b; }
    std::string describe() const { std::string s = axis == 2 ? "z=" : "x="; s += std::to_string(off) + " from (" + std::to_string(s0) + "," + std::to_string(s1) + ") cells"; for (auto& k : cells.in) s += " " + std::to_string(k.first) + "/" + std::to_string(k.second); return s; }
};
struct Grid {
    V3 o, x, y, z; double S = 1;
    V3 at(const int p[3]) const { return o + 0.1 * S * (double)p[0] * x + 0.1 * S * (double)p[1] * y + 0.1 * S * (double)p[2] * z; }
    TopoDS_Face face(const Flat& f) const
    {
        auto loops = f.cells.loops(); std::vector<TopoDS_Wire> wires; int outer = 0; double best = 0;
        for (size_t k = 0; k < loops.size(); ++k) {
            auto& l = loops[k]; double a = 0; for (size_t i = 0; i < l.size(); ++i) { auto &u = l[i], &v = l[(i + 1) % l.size()]; a += 0.5 * (u.first * v.second - u.second * v.first); }
            if (a > best) { best = a; outer = (int)k; }
            std::rotate(l.begin(), l.begin() + sim::choose(l.size()), l.end());
            BRepBuilderAPI_MakePolygon mp; for (auto& [i, j] : l) { int p[3]; p[f.axis] = f.off; p[f.dir0()] = f.s0 + 10 * i; p[f.dir1()] = f.s1 + 10 * j; const V3 q = at(p); mp.Add(gp_Pnt(q.x, q.y, q.z)); }
            mp.Close(); wires.push_back(mp.Wire());
        }
        const V3 n = f.axis == 2 ? z : x; int p0[3] = { 0, 0, 0 }; p0[f.axis] = f.off; const V3 q = at(p0);
        BRepBuilderAPI_MakeFace mf(gp_Pln(gp_Pnt(q.x, q.y, q.z), gp_Dir(n.x, n.y, n.z)), wires[outer]); for (size_t k = 0; k < wires.size(); ++k) if ((int)k != outer) mf.Add(wires[k]);
        return mf.Face();
    }
};
struct FlatMeet {
    std::vector<double> areas, runs; // of the parts in common
    bool touchEdge = false, touchPoint = false, corner = false, perpendicular = false; double dist = 0; // in cells
    double shortestTouch = 1e9;
};
inline FlatMeet meet(const Flat& a, const Flat& b)
{
    FlatMeet m; m.dist = 1e9;
    for (auto& p : a.cells.in) for (auto& q : b.cells.in) { const auto u = a.box(p), v = b.box(q); double d = 0; for (int k = 0; k < 3; ++k) { const double g = std::max({ 0, v.lo[k] - u.hi[k], u.lo[k] - v.hi[k] }); d += g * g; } m.dist = std::min(m.dist, 0.1 * std::sqrt(d)); }
    m.perpendicular = a.axis != b.axis;
    if (!m.perpendicular) {
        if (a.off != b.off) return m;
        std::set<int> cx, cy; const Flat* fs[2] = { &a, &b }; for (auto* f : fs) { for (int i = 0; i <= f->cells.n; ++i) cx.insert(f->s0 + 10 * i); for (int j = 0; j <= f->cells.m; ++j) cy.insert(f->s1 + 10 * j); }
        const std::vector<int> X(cx.begin(), cx.end()), Y(cy.begin(), cy.end()); const int nx = (int)X.size() - 1, ny = (int)Y.size() - 1;
        auto covered = [&](const Flat& f, int i, int j) { if (i < 0 || j < 0 || i >= nx || j >= ny) return false; const double px = 0.5 * (X[i] + X[i + 1]) - f.s0, py = 0.5 * (Y[j] + Y[j + 1]) - f.s1; return f.cells.has((int)std::floor(px / 10), (int)std::floor(py / 10)); };
        std::map<std::pair<int, int>, int> part; 
        for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) if (covered(a, i, j) && covered(b, i, j) && !part.count({ i, j })) {
            double area = 0; std::vector<std::pair<int, int>> todo{ { i, j } }; part[{ i, j }] = (int)m.areas.size();
            while (!todo.empty()) { const auto [p, q] = todo.back(); todo.pop_back(); area += 0.01 * (X[p + 1] - X[p]) * (Y[q + 1] - Y[q]); const int d[4][2] = { { 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -1 } }; for (auto& e : d) { const std::pair<int, int> k{ p + e[0], q + e[1] }; if (covered(a, k.first, k.second) && covered(b, k.first, k.second) && !part.count(k)) { part[k] = (int)m.areas.size(); todo.push_back(k); } } }
            m.areas.push_back(area);
        }
        auto both = [&](int i, int j) { return part.count({ i, j }) > 0; };
        for (int i = -1; i <= nx; ++i) for (int j = -1; j <= ny; ++j) {
            // a cell of one next to a cell of the other, nothing in common there
            auto next = [&](int p, int q, double l) { if (!both(i, j) && !both(p, q) && ((covered(a, i, j) && covered(b, p, q)) || (covered(b, i, j) && covered(a, p, q)))) { m.touchEdge = true; m.shortestTouch = std::min(m.shortestTouch, l); } };
            if (j >= 0 && j < ny) next(i + 1, j, 0.1 * (Y[j + 1] - Y[j])); if (i >= 0 && i < nx) next(i, j + 1, 0.1 * (X[i + 1] - X[i]));
            // corners: parts in common meet in one, or the faces do
            const int q[4][2] = { { i, j }, { i + 1, j }, { i + 1, j + 1 }, { i, j + 1 } }; bool A = false, B = false; int nb = 0; for (auto& e : q) { A = A || covered(a, e[0], e[1]); B = B || covered(b, e[0], e[1]); nb += both(e[0], e[1]); }
            if ((both(i, j) && both(i + 1, j + 1) && !both(i + 1, j) && !both(i, j + 1)) || (both(i + 1, j) && both(i, j + 1) && !both(i, j) && !both(i + 1, j + 1))) m.corner = true;
            if (A && B && !nb) m.touchPoint = true;
        }
        return m;
    }
    // the line both planes share runs along y
    const Flat &h = a.axis == 2 ? a : b, &v = a.axis == 2 ? b : a; std::vector<std::pair<int, int>> ra, rb;
    for (auto& k : h.cells.in) { const auto x = h.box(k); if (x.lo[0] < v.off && v.off < x.hi[0]) ra.push_back({ x.lo[1], x.hi[1] }); }
    for (auto& k : v.cells.in) { const auto x = v.box(k); if (x.lo[2] < h.off && h.off < x.hi[2]) rb.push_back({ x.lo[1], x.hi[1] }); }
    auto join = [](std::vector<std::pair<int, int>>& r) { std::sort(r.begin(), r.end()); std::vector<std::pair<int, int>> o; for (auto& x : r) if (!o.empty() && o.back().second == x.first) o.back().second = x.second; else o.push_back(x); r = o; };
    join(ra); join(rb);
    for (auto& x : ra) for (auto& y : rb) { const int lo = std::max(x.first, y.first), hi = std::min(x.second, y.second); if (hi > lo) m.runs.push_back(0.1 * (hi - lo)); }
    return m;
}
// 1 fulfilled, 0 violated, -1 undecided; no constraint on the distance to boundaries
inline int decide(const CModel& c, const Flat& a, const Flat& b, const FlatMeet& m, double S, bool allowed)
{
    if (!c.minDist && !c.minAngle && !c.minMag) return 1;
    if (!m.areas.empty()) {
        if (!allowed || c.minAngle) return 0;
        if (!c.minMag) return 1;
        int r = m.corner || (m.touchEdge && *c.minMag > 0.9 * m.shortestTouch * S) ? -1 : 1; for (double x : m.areas) r = CModel::both(r, m.corner && x * S * S < *c.minMag ? -1 : CModel::cmp(x * S * S, *c.minMag, 1e-5 * S * S));
        return r;
    }
    if (!m.runs.empty()) { int r = c.minAngle ? CModel::cmp(M_PI / 2, *c.minAngle, 1e-6) : 1; if (c.minMag) for (double x : m.runs) r = CModel::both(r, CModel::cmp(x * S, *c.minMag, 1e-5 * S)); return r; }
    if (m.touchEdge || m.touchPoint || m.dist < 1e-6) { if (c.minAngle) return -1; return m.touchEdge && c.minMag && *c.minMag > 0.9 * m.shortestTouch * S ? -1 : m.touchEdge || m.touchPoint ? 1 : -1; }
    return c.minDist ? CModel::cmp(m.dist * S, *c.minDist, 1e-5 * S) : 1;
}
} // namespace wl
#endif
