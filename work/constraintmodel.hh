// Independent, three-valued model of the pairwise network constraints.
#ifndef VERIF_CONSTRAINTMODEL_HH
#define VERIF_CONSTRAINTMODEL_HH
#include "shapes.hh"
#include <frackit/entitynetwork/constraints.hh>
namespace wl {
// entities in (nearly) one plane: their intersection is documented as not implemented; w is what the model says
inline bool onePlane(const Shape& a, const Shape& b, int w) { const double s = norm(cross(a.n, b.n)); return (s < 1e-6 && std::abs(a.off(b.c)) < 1e-3 * (a.R + b.R)) || (w < 0 && s < 5e-2); }
struct CModel {
    std::optional<double> minDist, minAngle, minMag, minIsDist;
    // 1 fulfilled, 0 violated, -1 too close to call
    static int cmp(double v, double th, double tol) { return v >= th + tol ? 1 : v <= th - tol ? 0 : -1; }
    static int both(int a, int b) { return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
    int endpoint(const Shape& S, V3 p, bool own, double scale) const
    {
        if (own) return 1; // lies on the boundary of S: fulfils the constraint
        const double d = S.boundaryDist(S.in(p));
        if (d < 1e-4 * scale) return -1;
        return cmp(d, *minIsDist, 1e-5 * scale);
    }
    int pair(const Shape& A, const Shape& B) const
    {
        if (!minDist && !minAngle && !minMag && !minIsDist) return 1;
        const Meet m = meet(A, B); const double scale = A.R + B.R;
        if (m.state < 0) return -1;
        if (m.state == 1) {
            int r = 1;
            if (minMag) r = both(r, cmp(m.length, *minMag, 1e-5 * scale));
            if (minAngle) r = both(r, cmp(m.angle, *minAngle, 1e-6));
            if (minIsDist) for (int k = 0; k < 2; ++k) { const V3 p = k ? m.q : m.p; r = both(r, endpoint(A, p, m.onA[k], scale)); r = both(r, endpoint(B, p, m.onB[k], scale)); }
            return r;
        }
        if (!minDist) return 1;
        double lb, ub; distanceBracket(A, B, lb, ub, *minDist);
        if (lb >= *minDist + 1e-5 * scale) return 1;
        if (ub <= *minDist - 1e-5 * scale) return 0;
        return -1;
    }
    // a corner or an edge of some entity rests on o
    int contact(const Shape& o, const Contact& t, double scale) const
    {
        if (!minDist && !minAngle && !minMag && !minIsDist) return 1;
        int r = 1; V3 p = t.p, q = t.q; bool onP = false, onQ = false; const double tol = 1e-4 * scale;
        if (t.edge) { const V3 d = unit(q - p); const V2 dd{ dot(d, o.e1), dot(d, o.e2) }; double lo, hi; bool graze; if (!o.clip(o.in(p), dd, lo, hi, tol, graze)) return -1; const double l = norm(q - p); if (std::abs(lo) < 10 * tol || std::abs(hi - l) < 10 * tol || hi < 10 * tol || lo > l - 10 * tol) return -1; if (lo > 0) onP = true, p = t.p + lo * d; if (hi < l) onQ = true, q = t.p + hi * d; }
        else if (o.signedDist(o.in(p)) > -10 * tol) return -1;
        if (minAngle) r = both(r, cmp(t.rise, *minAngle, 1e-6));
        if (minMag && t.edge) r = both(r, cmp(norm(q - p), *minMag, 1e-5 * scale));
        if (minIsDist) { r = both(r, endpoint(o, p, onP, scale)); if (t.edge) r = both(r, endpoint(o, q, onQ, scale)); }
        return r;
    }
    std::string describe() const
    {
        std::string s; char b[60];
        if (minDist) { snprintf(b, 60, " dist>=%.4g", *minDist); s += b; } if (minAngle) { snprintf(b, 60, " angle>=%.4g", *minAngle); s += b; }
        if (minMag) { snprintf(b, 60, " length>=%.4g", *minMag); s += b; } if (minIsDist) { snprintf(b, 60, " boundary>=%.4g", *minIsDist); s += b; }
        return s.empty() ? " none" : s;
    }
    // one random change of the configuration, applied to the real object and the model
    void change(Frackit::EntityNetworkConstraints<double>& c, double size)
    {
        switch (sim::choose(9)) {
            case 0: minDist = size * sim::real(0.01, 0.6); c.setMinDistance(*minDist); break;
            case 1: minAngle = sim::real(0.1, 1.5); c.setMinIntersectingAngle(*minAngle); break;
            case 2: minMag = size * sim::real(0.05, 1); c.setMinIntersectionMagnitude(*minMag); break;
            case 3: minIsDist = size * sim::real(0.02, 0.4); c.setMinIntersectionDistance(*minIsDist); break;
            case 4: minDist.reset(); c.neglectMinDistance(); break;
            case 5: minAngle.reset(); c.neglectMinIntersectionAngle(); break;
            case 6: minMag.reset(); c.neglectMinIntersectionMagnitude(); break;
            case 7: minIsDist.reset(); c.neglectMinIntersectionDistance(); break;
            default: if (sim::chance(50)) c.setIntersectionEpsilon(1e-7 * size); else c.setDefaultIntersectionEpsilon(); break;
        }
    }
};
} // namespace wl
#endif
