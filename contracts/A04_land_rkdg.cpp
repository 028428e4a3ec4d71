#include "swe_stub.h"
#include "problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_numerical_fluxes.hpp"
#include "problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp"
// Land (wall) boundary of the explicit DG scheme on arbitrary point k of arbitrarily many
namespace {
struct In {
    std::size_t n, k; StubBound<int> bound; StubStepper st; SWE::RKDG::BC::Land land; double ze, qx, qy, b, sp, nx, ny;
    In() : n(SIZE("n")), k(vc_index("k", n)), bound(n) {
        SWE::Boundary& B = bound.b();
        ze = B.q_at_gp(0, k); qx = B.q_at_gp(1, k); qy = B.q_at_gp(2, k); b = B.aux_at_gp(0, k); sp = B.aux_at_gp(2, k);
        nx = bound.surface_normal(0, k); ny = bound.surface_normal(1, k);
    }
};
}
CONTRACT(no_mass_flux) {
    In i; SWE::Boundary& B = i.bound.b();
    i.land.Initialize(i.bound);
    i.land.ComputeFlux(i.st, i.bound);
    ENSURES_EQ("no water crosses", B.F_hat_at_gp(0, i.k), 0.0);
    ENSURES_EQ("q unchanged", B.q_at_gp(1, i.k), i.qx);
    ENSURES_EQ("aux unchanged", B.aux_at_gp(0, i.k), i.b);
}
CONTRACT(no_mass_flux_point) {
    In i; SWE::Boundary& B = i.bound.b();
    i.land.Initialize(1);
    i.land.ComputeFlux(column(i.bound.surface_normal, i.k), column(B.q_at_gp, i.k), column(B.aux_at_gp, i.k), column(B.F_hat_at_gp, i.k));
    ENSURES_EQ("no water crosses", B.F_hat_at_gp(0, i.k), 0.0);
}
CONTRACT(flat_wall) {  // without spherical metric: still water feels the hydrostatic pressure only
    In i; SWE::Boundary& B = i.bound.b();
    row(B.aux_at_gp, SWE::Auxiliaries::sp) = DynRowVector<double>::Ones(i.n);
    row(B.q_at_gp, SWE::Variables::qx) = DynRowVector<double>::Zero(i.n);
    row(B.q_at_gp, SWE::Variables::qy) = DynRowVector<double>::Zero(i.n);
    i.land.Initialize(i.bound);
    i.land.ComputeFlux(i.st, i.bound);
    double p = SWE::Global::g * (i.ze * i.ze / 2 + i.ze * i.b);
    ENSURES_EQ("x-momentum", B.F_hat_at_gp(1, i.k), p * i.nx);
    ENSURES_EQ("y-momentum", B.F_hat_at_gp(2, i.k), p * i.ny);
}
CONTRACT(reflection) {  // ghost state: same elevation and tangential momentum, opposite momentum through the wall
    In i; SWE::Boundary& B = i.bound.b(); Q3 e(3, i.n);
    i.land.GetEX(column(i.bound.surface_normal, i.k), column(B.q_at_gp, i.k), column(B.aux_at_gp, i.k), column(e, i.k));
    double mx = i.sp * i.nx, my = i.ny;
    ENSURES_EQ("elevation", e(0, i.k), i.ze);
    ENSURES_EQ("through", e(1, i.k) * mx + e(2, i.k) * my, -(i.qx * mx + i.qy * my));
    ENSURES_EQ("along", -e(1, i.k) * my + e(2, i.k) * mx, -i.qx * my + i.qy * mx);
}
