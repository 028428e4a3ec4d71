#include "vc.h"
#include <cmath>
#include <cstdlib>
#include "integration/integrations_1D.hpp"
#include "integration/integrations_2D.hpp"
#include "integration/integrations_1D/integration_gausslegendre_1D.cpp"
#include "integration/integrations_2D/integration_dunavant_2D.cpp"
// Every rule that the code can hand out, against every polynomial it has to integrate
CONTRACT(triangle_exact) {
    uint p = (uint)vc_choose("p", 0, 20);
    Integration::Dunavant_2D q; auto r = q.GetRule(p);
    ENSURES("one weight for each point, as many as announced", (std::size_t)r.first.size() == r.second.size() && r.second.size() == q.GetNumGP(p));
    for (uint i = 0; i <= p; ++i)
        for (uint j = 0; i + j <= p; ++j) {
            double s = 0;
            for (uint k = 0; k < r.second.size(); ++k) {
                double t = r.first[k];
                for (uint a = 0; a < i; ++a) t *= r.second[k][0];
                for (uint a = 0; a < j; ++a) t *= r.second[k][1];
                s += t;
            }
            ENSURES_NEAR("integral of a monomial over the triangle", s, vc_tri_moment(i, j), 1e-12);
        }
}
CONTRACT(segment_exact) {
    uint p = (uint)vc_choose("p", 0, 65);
    Integration::GaussLegendre_1D q; auto r = q.GetRule(p);
    uint n = q.GetNumGP(p);
    ENSURES("one weight for each point, as many as announced", (std::size_t)r.first.size() == r.second.size() && r.second.size() == n && 2 * n >= p + 1);
    DynVector<double> t = r.first;
    for (uint i = 0; i <= p; ++i) {
        double s = 0;
        for (uint k = 0; k < n; ++k) { s += t[k]; t[k] *= r.second[k][0]; }
        ENSURES_NEAR("integral of a monomial over the segment", s, vc_seg_moment(i), 1e-12);
    }
    for (uint k = 0; k < n; ++k) {
        ENSURES("positive weight", r.first[k] > 0.0);
        ENSURES("point inside the segment", r.second[k][0] > -1.0 && r.second[k][0] < 1.0);
        // a face is walked in opposite directions from its two sides: point k of one side is point n-1-k of the other
        ENSURES_NEAR("points mirrored", r.second[k][0], -r.second[n - 1 - k][0], 1e-15);
        ENSURES_NEAR("weights mirrored", r.first[k], r.first[n - 1 - k], 1e-15);
    }
}
