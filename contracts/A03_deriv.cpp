#include "swe_vc.h"
#include "problem/SWE/problem_jacobian/swe_jacobian.hpp"
#include "problem/SWE/problem_stabilization_parameters/swe_stabilization_params.hpp"
using M33 = StatMatrix<double, 3, 3>;
using V33 = AlignedVector<M33>;
using Get = void (*)(const HybMatrix<double, 3>&, const HybMatrix<double, 3>&, const HybMatrix<double, 2>&, V33&);
namespace {
// derivatives of the gauss point matrices with respect to ze, qx, qy, with the depth following ze
void derivative(const char* nm, Get f, Get d0, Get d1, Get d2) {
    Q3 q(3, 1), aux(3, 1); N2 n(2, 1); V33 o(1), d(1);
    double x[3] = {POS("h", 0.3, 3), REAL("qx"), REAL("qy")}, b = REAL("bath", 1.2, 3);  // at fixed bathymetry d/dze = d/dh
    vc_fill_unit(n.data(), 1, "n");
    std::size_t c = vc_choose("with respect to", 0, 2);
    double h = x[0], un = (x[1] * n(0, 0) + x[2] * n(1, 0)) / h, s = std::sqrt(SWE::Global::g * h);
    // away from the kinks of |un|, |un +- c|
    REQUIRES(un != 0); REQUIRES(un != s); REQUIRES(un != -s);
    NATIVE_REQUIRES(std::abs(un) > 0.05 && std::abs(un - s) > 0.05 && std::abs(un + s) > 0.05 && h > 0.2);
    auto at = [&](double e) { for (int r = 0; r < 3; ++r) q(r, 0) = r == (int)c ? e : x[r]; aux(1, 0) = q(0, 0); q(0, 0) -= b; aux(0, 0) = b; aux(2, 0) = 1; };
    at(x[c]);
    (c == 0 ? d0 : c == 1 ? d1 : d2)(q, aux, n, d);
    f(q, aux, n, o);
    for (int r = 0; r < 3; ++r) for (int t = 0; t < 3; ++t)
        ENSURES_DERIV(nm, d[0](r, t), ([&](double e) { at(e); f(q, aux, n, o); return o[0](r, t); }), x[c]);
}
}
CONTRACT(A) { derivative("dA", SWE::get_A, SWE::get_dA_dze, SWE::get_dA_dqx, SWE::get_dA_dqy); }
CONTRACT(absA) { derivative("d|A|", SWE::get_absA, SWE::get_dabsA_dze, SWE::get_dabsA_dqx, SWE::get_dabsA_dqy); }
CONTRACT(Aplus) { derivative("dA+", SWE::get_Aplus, SWE::get_dAplus_dze, SWE::get_dAplus_dqx, SWE::get_dAplus_dqy); }
CONTRACT(Aminus) { derivative("dA-", SWE::get_Aminus, SWE::get_dAminus_dze, SWE::get_dAminus_dqx, SWE::get_dAminus_dqy); }
CONTRACT(tau) { derivative("dtau", SWE::get_tau_LF, SWE::get_dtau_dze_LF, SWE::get_dtau_dqx_LF, SWE::get_dtau_dqy_LF); }
namespace {
// each gauss point of arbitrarily many is treated on its own: entry k is the matrix of the state at k
void pointwise(Get f) {
    std::size_t n = SIZE("n"), k = vc_index("k", n);
    Q3 q(3, n), aux(3, n), q1(3, 1), aux1(3, 1); N2 m(2, n), m1(2, 1); V33 o(n), o1(1);
    vc_fill_mat(q, "q", {{0, -1, 1}, {0, -2, 2}, {0, -2, 2}});
    vc_fill_mat(aux, "aux", {{0, 1.2, 4}, {1, 0.2, 3}, {1, 0.5, 1.5}});
    vc_fill_unit(m.data(), n, "n");
    for (int r = 0; r < 3; ++r) { q1(r, 0) = q(r, k); aux1(r, 0) = aux(r, k); }
    m1(0, 0) = m(0, k); m1(1, 0) = m(1, k);
    f(q, aux, m, o);
    f(q1, aux1, m1, o1);
    for (int r = 0; r < 3; ++r) for (int t = 0; t < 3; ++t) ENSURES_EQ("entry k", o[k](r, t), o1[0](r, t));
}
}
CONTRACT(points_A) { pointwise(SWE::get_A); }
CONTRACT(points_absA) { pointwise(SWE::get_absA); }
CONTRACT(points_Aplus) { pointwise(SWE::get_Aplus); }
CONTRACT(points_Aminus) { pointwise(SWE::get_Aminus); }
CONTRACT(points_dA0) { pointwise(SWE::get_dA_dze); }
CONTRACT(points_dA1) { pointwise(SWE::get_dA_dqx); }
CONTRACT(points_dA2) { pointwise(SWE::get_dA_dqy); }
CONTRACT(points_dabsA0) { pointwise(SWE::get_dabsA_dze); }
CONTRACT(points_dabsA1) { pointwise(SWE::get_dabsA_dqx); }
CONTRACT(points_dabsA2) { pointwise(SWE::get_dabsA_dqy); }
CONTRACT(points_dAplus0) { pointwise(SWE::get_dAplus_dze); }
CONTRACT(points_dAplus1) { pointwise(SWE::get_dAplus_dqx); }
CONTRACT(points_dAplus2) { pointwise(SWE::get_dAplus_dqy); }
CONTRACT(points_dAminus0) { pointwise(SWE::get_dAminus_dze); }
CONTRACT(points_dAminus1) { pointwise(SWE::get_dAminus_dqx); }
CONTRACT(points_dAminus2) { pointwise(SWE::get_dAminus_dqy); }
CONTRACT(points_dtau0) { pointwise(SWE::get_dtau_dze_LF); }
CONTRACT(points_dtau1) { pointwise(SWE::get_dtau_dqx_LF); }
CONTRACT(points_dtau2) { pointwise(SWE::get_dtau_dqy_LF); }
