#include "swe_vc.h"
#include "problem/SWE/problem_flux/swe_flux.hpp"
using M9 = HybMatrix<double, 9>;
namespace {
const double g = SWE::Global::g;
struct In {
    Q3 q, aux, Fx, Fy; N2 nrm; std::size_t n, k; double ze, qx, qy, b, h, nx, ny;
    In() {
        n = SIZE("n"); k = vc_index("k", n);
        q = Q3(3, n); aux = Q3(3, n); Fx = Q3(3, n); Fy = Q3(3, n); nrm = N2(2, n);
        vc_fill_mat(q, "q", {{0, -1, 1}, {0, -2, 2}, {0, -2, 2}});
        vc_fill_mat(aux, "aux", {{0, 1.2, 4}, {1, 0.2, 3}, {1, 0.5, 1.5}});
        vc_fill_unit(nrm.data(), n, "n");
        ze = q(0, k); qx = q(1, k); qy = q(2, k); b = aux(0, k); h = aux(1, k); nx = nrm(0, k); ny = nrm(1, k);
    }
};
double press(double ze, double b) { return g * (ze * ze / 2 + ze * b); }
}
CONTRACT(flux) {
    In i; std::size_t k = i.k;
    SWE::get_F(i.q, i.aux, i.Fx, i.Fy);
    double p = press(i.ze, i.b);
    ENSURES_EQ("x mass", i.Fx(0, k), i.qx);
    ENSURES_EQ("x x-mom", i.Fx(1, k), i.qx * i.qx / i.h + p);
    ENSURES_EQ("x y-mom", i.Fx(2, k), i.qx * i.qy / i.h);
    ENSURES_EQ("y mass", i.Fy(0, k), i.qy);
    ENSURES_EQ("y x-mom", i.Fy(1, k), i.qx * i.qy / i.h);
    ENSURES_EQ("y y-mom", i.Fy(2, k), i.qy * i.qy / i.h + p);
    ENSURES_EQ("q unchanged", i.q(0, k), i.ze);
    ENSURES_EQ("aux unchanged", i.aux(1, k), i.h);
}
CONTRACT(normal_flux) {  // F.n, all gauss points at once
    In i; std::size_t k = i.k;
    Q3 Fn(3, i.n);
    SWE::get_F(i.q, i.aux, i.Fx, i.Fy);
    SWE::get_Fn(i.q, i.aux, i.nrm, Fn);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("Fn = Fx nx + Fy ny", Fn(r, k), i.Fx(r, k) * i.nx + i.Fy(r, k) * i.ny);
}
CONTRACT(normal_flux_point) {  // single gauss point version, with its own gravity
    In i; std::size_t k = i.k;
    Q3 Fn(3, i.n);
    double gr = NONNEG("gravity", 0, 10), p = gr * (i.ze * i.ze / 2 + i.ze * i.b);
    SWE::get_Fn(gr, column(i.q, k), column(i.aux, k), column(i.nrm, k), column(Fn, k));
    ENSURES_EQ("mass", Fn(0, k), i.qx * i.nx + i.qy * i.ny);
    ENSURES_EQ("x-mom", Fn(1, k), (i.qx * i.qx / i.h + p) * i.nx + i.qx * i.qy / i.h * i.ny);
    ENSURES_EQ("y-mom", Fn(2, k), i.qx * i.qy / i.h * i.nx + (i.qy * i.qy / i.h + p) * i.ny);
}
CONTRACT(jacobian_is_derivative) {  // dF/dq is the derivative of the fluxes get_F returns (h = ze + bath)
    std::size_t n = SIZE("n"), k = vc_index("k", n), c = vc_choose("column", 0, 2);
    Q3 q(3, n), aux(3, n), Fx(3, n), Fy(3, n); M9 Dx(9, n), Dy(9, n);
    vc_fill_mat(q, "q", {{0, -1, 1}, {0, -2, 2}, {0, -2, 2}});
    vc_fill_mat(aux, "aux", {{0, 1.2, 4}, {1, 0.2, 3}, {1, 0.5, 1.5}});
    double b = REAL("bath", 1.2, 4), x = q(c, k);
    REQUIRES(q(0, k) + b > 0);
    aux(0, k) = b; aux(1, k) = q(0, k) + b;
    SWE::get_dF_dq(q, aux, Dx, Dy);
    for (int r = 0; r < 3; ++r) {
        ENSURES_DERIV("dFx/dq", Dx(3 * r + c, k), ([&](double e) { q(c, k) = e; aux(1, k) = q(0, k) + b; SWE::get_F(q, aux, Fx, Fy); return Fx(r, k); }), x);
        ENSURES_DERIV("dFy/dq", Dy(3 * r + c, k), ([&](double e) { q(c, k) = e; aux(1, k) = q(0, k) + b; SWE::get_F(q, aux, Fx, Fy); return Fy(r, k); }), x);
    }
}
CONTRACT(normal_jacobian) {
    In i; std::size_t k = i.k;
    M9 Dx(9, i.n), Dy(9, i.n), Dn(9, i.n);
    SWE::get_dF_dq(i.q, i.aux, Dx, Dy);
    SWE::get_dFn_dq(i.q, i.aux, i.nrm, Dn);
    for (int r = 0; r < 9; ++r) ENSURES_EQ("dFn = dFx nx + dFy ny", Dn(r, k), Dx(r, k) * i.nx + Dy(r, k) * i.ny);
}
