#include "swe_vc.h"
#include "problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_numerical_fluxes.hpp"
// Contract of the local Lax-Friedrichs flux on arbitrary column k of arbitrarily many gauss points
namespace {
struct In {
    Q3 qi, qe, aux, F; N2 nrm; std::size_t n, k; double g, hi, he, sp, nx, ny;
    In() {
        n = SIZE("n"); k = vc_index("k", n);
        qi = Q3(3, n); qe = Q3(3, n); aux = Q3(3, n); F = Q3(3, n); nrm = N2(2, n);
        vc_fill_mat(qi, "q_in", {{0, -1, 1}, {0, -2, 2}, {0, -2, 2}});
        vc_fill_mat(qe, "q_ex", {{0, -1, 1}, {0, -2, 2}, {0, -2, 2}});
        vc_fill_mat(aux, "aux", {{0, 1.2, 4}, {1, 0.1, 3}, {1, 0.5, 1.5}});
        vc_fill_unit(nrm.data(), n, "n");
        vc_fill_mat(F, "F0", {{0, -2, 2}, {0, -2, 2}, {0, -2, 2}});
        g = NONNEG("gravity", 0, 10);
        hi = POS("h_in", 0.2, 4); he = POS("h_ex", 0.2, 4);
        double b = REAL("bath", 0.1, 3);
        for (int one = 0; one < 1; ++one) { aux(0, k) = b; qi(0, k) = hi - b; qe(0, k) = he - b; }
        sp = aux(2, k); nx = nrm(0, k); ny = nrm(1, k);
    }
};
// physical normal flux in the projected coordinates (sp scales the x direction)
void physical(double g, double ze, double qx, double qy, double h, double b, double sp, double nx, double ny, double* f) {
    double p = g * (ze * ze / 2 + ze * b);
    f[0] = sp * qx * nx + qy * ny;
    f[1] = sp * (qx * qx / h + p) * nx + qx * qy / h * ny;
    f[2] = sp * qx * qy / h * nx + (qy * qy / h + p) * ny;
}
}
CONTRACT(consistent) {  // equal states on both sides: the flux is the physical one, for every gravity, metric factor and normal
    In i; std::size_t k = i.k;
    for (int r = 0; r < 3; ++r) i.qe(r, k) = i.qi(r, k);
    SWE::RKDG::LLF_flux(i.g, column(i.qi, k), column(i.qe, k), column(i.aux, k), column(i.nrm, k), column(i.F, k));
    double f[3]; physical(i.g, i.qi(0, k), i.qi(1, k), i.qi(2, k), i.hi, i.aux(0, k), i.sp, i.nx, i.ny, f);
    ENSURES_EQ("mass", i.F(0, k), f[0]);
    ENSURES_EQ("x-momentum", i.F(1, k), f[1]);
    ENSURES_EQ("y-momentum", i.F(2, k), f[2]);
}
CONTRACT(conservative) {  // what leaves one side enters the other: swapping sides and normal flips the sign
    In i; std::size_t k = i.k;
    Q3 G(3, i.n); N2 m(2, i.n);
    m(0, k) = -i.nx; m(1, k) = -i.ny;
    SWE::RKDG::LLF_flux(i.g, column(i.qi, k), column(i.qe, k), column(i.aux, k), column(i.nrm, k), column(i.F, k));
    SWE::RKDG::LLF_flux(i.g, column(i.qe, k), column(i.qi, k), column(i.aux, k), column(m, k), column(G, k));
    ENSURES_EQ("mass", i.F(0, k), -G(0, k));
    ENSURES_EQ("x-momentum", i.F(1, k), -G(1, k));
    ENSURES_EQ("y-momentum", i.F(2, k), -G(2, k));
}
CONTRACT(dissipation) {  // average of the physical fluxes plus half the largest wave speed times the jump
    In i; std::size_t k = i.k;
    SWE::RKDG::LLF_flux(i.g, column(i.qi, k), column(i.qe, k), column(i.aux, k), column(i.nrm, k), column(i.F, k));
    double a[3], b[3], sc = i.sp * i.nx * i.sp * i.nx + i.ny * i.ny;
    physical(i.g, i.qi(0, k), i.qi(1, k), i.qi(2, k), i.hi, i.aux(0, k), i.sp, i.nx, i.ny, a);
    physical(i.g, i.qe(0, k), i.qe(1, k), i.qe(2, k), i.he, i.aux(0, k), i.sp, i.nx, i.ny, b);
    double si = std::abs((i.qi(1, k) * i.nx + i.qi(2, k) * i.ny) / i.hi) + std::sqrt(i.g * i.hi * sc);
    double se = std::abs((i.qe(1, k) * i.nx + i.qe(2, k) * i.ny) / i.he) + std::sqrt(i.g * i.he * sc);
    double s = std::max(si, se);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("flux", i.F(r, k), (a[r] + b[r]) / 2 + s / 2 * (i.qi(r, k) - i.qe(r, k)));
}
CONTRACT(frame) {  // only the addressed gauss point is written, and the states are left as they were
    In i; std::size_t k = i.k, j = vc_index("j", i.n);
    REQUIRES(j != k);
    double f0 = i.F(0, j), f1 = i.F(1, j), f2 = i.F(2, j), z = i.qi(0, j), e = i.qe(1, k), a = i.aux(0, k);
    SWE::RKDG::LLF_flux(i.g, column(i.qi, k), column(i.qe, k), column(i.aux, k), column(i.nrm, k), column(i.F, k));
    ENSURES_EQ("F0", i.F(0, j), f0); ENSURES_EQ("F1", i.F(1, j), f1); ENSURES_EQ("F2", i.F(2, j), f2);
    ENSURES_EQ("q_in", i.qi(0, j), z); ENSURES_EQ("q_ex", i.qe(1, k), e); ENSURES_EQ("aux", i.aux(0, k), a);
}
