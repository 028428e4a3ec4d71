// OPT *: divzero=1
// ASSUME: the forced water column at the other points is nonzero
#include "swe_forcing.h"
#include "problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_numerical_fluxes.hpp"
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_boundary_conditions.hpp"
// Open boundaries of the explicit DG scheme: ghost state at arbitrary point k, then the flux of A01 between interior and ghost
namespace {
template <class Node, class Cond> struct In {
    std::size_t n, k; StubBound<int> bound; StubStepper st; Forcing<Node> f; Cond bc; double ze, qx, qy, nx, ny;
    In() : n(SIZE("n")), k(vc_index("k", n)), bound(n), bc(f.nodes) {
        SWE::Boundary& B = bound.b();
        ze = B.q_at_gp(0, k); qx = B.q_at_gp(1, k); qy = B.q_at_gp(2, k); nx = bound.surface_normal(0, k); ny = bound.surface_normal(1, k);
        bc.Initialize(bound);
        bc.ComputeFlux(st, bound);
    }
    void check(double e0, double e1, double e2) {
        SWE::Boundary& B = bound.b(); Q3 ex(3, 1), F(3, 1);
        REQUIRES(SWE::Global::g * (e0 + B.aux_at_gp(0, k)) > 0);  // the forced state is wet
        ex(0, 0) = e0; ex(1, 0) = e1; ex(2, 0) = e2;
        SWE::RKDG::LLF_flux(SWE::Global::g, column(B.q_at_gp, k), column(ex, 0), column(B.aux_at_gp, k), column(bound.surface_normal, k), column(F, 0));
        for (int r = 0; r < 3; ++r) ENSURES_EQ("flux between interior and forced state", B.F_hat_at_gp(r, k), F(r, 0));
        ENSURES_EQ("interior unchanged", B.q_at_gp(1, k), qx);
    }
};
}
CONTRACT(tide) { In<SWE::TideNode, SWE::RKDG::BC::Tide> i; i.check(i.f.value(i.bound, i.k, i.st.t, i.st.ramp), i.qx, i.qy); }
CONTRACT(flow) { In<SWE::FlowNode, SWE::RKDG::BC::Flow> i; double q = i.f.value(i.bound, i.k, i.st.t, i.st.ramp); i.check(i.ze, q * i.nx, q * i.ny); }
CONTRACT(function) {  // the configured function of time and place
    std::size_t n = SIZE("n"), k = vc_index("k", n); StubBound<int> bound(n); StubStepper st; SWE::RKDG::BC::Function bc; SWE::Boundary& B = bound.b(); Q3 ex(3, 1), F(3, 1);
    bc.Initialize(bound);
    bc.ComputeFlux(st, bound);
    Point<2> p; p[0] = bound.points(0, k); p[1] = bound.points(1, k);
    StatVector<double, 3> v = SWE::ic_q(st.t, p);
    ex(0, 0) = v[0]; ex(1, 0) = v[1]; ex(2, 0) = v[2];
    REQUIRES(SWE::Global::g * (v[0] + B.aux_at_gp(0, k)) > 0);
    SWE::RKDG::LLF_flux(SWE::Global::g, column(B.q_at_gp, k), column(ex, 0), column(B.aux_at_gp, k), column(bound.surface_normal, k), column(F, 0));
    for (int r = 0; r < 3; ++r) ENSURES_EQ("flux between interior and given state", B.F_hat_at_gp(r, k), F(r, 0));
}
