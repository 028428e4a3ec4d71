#include "swe_stub.h"
#include "problem/SWE/problem_flux/swe_flux.hpp"
#include "problem/SWE/problem_jacobian/swe_jacobian.hpp"
#include "problem/SWE/problem_stabilization_parameters/swe_stabilization_params.hpp"
#include "problem/SWE/discretization_EHDG/boundary_conditions/ehdg_swe_bc_land.hpp"
#include "problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_internal.hpp"
#include "problem/SWE/discretization_IHDG/interface_specializations/ihdg_swe_is_internal.hpp"
// Interior interface of the hybridized schemes: arbitrary point k of the in side and its counterpart ke of the ex side
namespace {
template <class S> struct In {
    std::size_t n, k, ke; StubIface<S> f; StubEdgeInt<StubIface<S>> edge; double qi[3], qe[3], qh[3], b, nx, ny;
    In() : n(SIZE("n")), k(vc_index("k", n)), ke(n - 1 - k), f(n), edge(f, n) {
        for (int r = 0; r < 3; ++r) { qi[r] = f.in().q_at_gp(r, k); qe[r] = f.ex().q_at_gp(r, ke); qh[r] = (qi[r] + qe[r]) / 2; }
        b = f.in().aux_at_gp(0, k); nx = f.surface_normal_in(0, k); ny = f.surface_normal_in(1, k);
        f.specialization.Initialize(f);
    }
};
struct E : In<SWE::EHDG::ISP::Internal> {
    bool wi, we, up, down; double F0[3], s[3];
    E() : wi(vc_choose("wet_in", 0, 1)), we(vc_choose("wet_ex", 0, 1)) {
        REQUIRES(wi || we);
        f.data_in.wet_dry_state.wet = wi; f.data_ex.wet_dry_state.wet = we;
        f.specialization.ComputeNumericalFlux(edge);
        flux(SWE::Global::g, 1.0, F0, s);
        for (int r = 0; r < 3; ++r) F0[r] += s[r] * (qi[r] - qh[r]);
        up = vc_split(F0[0] > 1e-12); down = vc_split(F0[0] < -1e-12);
    }
    // normal flux of the trace and its stabilization
    void flux(double g, double sign, double* F, double* t) {
        Q3 q(3, 1), a(3, 1), G(3, 1); N2 nn(2, 1); StatMatrix<double, 3, 3> tau;
        for (int r = 0; r < 3; ++r) q(r, 0) = qh[r];
        a(0, 0) = b; a(1, 0) = qh[0] + b; a(2, 0) = 1.0; nn(0, 0) = sign * nx; nn(1, 0) = sign * ny;
        SWE::get_Fn(g, column(q, 0), column(a, 0), column(nn, 0), column(G, 0));
        SWE::get_tau_LF(g, column(q, 0), column(a, 0), column(nn, 0), tau);
        for (int r = 0; r < 3; ++r) { F[r] = G(r, 0); t[r] = tau(r, r); }
    }
    double Fi(int r) { return f.in().F_hat_at_gp(r, k); }
    double Fe(int r) { return f.ex().F_hat_at_gp(r, ke); }
};
}
CONTRACT(mass_conserved) { E i; ENSURES_EQ("what leaves one side enters the other", i.Fi(0) + i.Fe(0), 0.0); }
CONTRACT(both_wet) {
    E i; REQUIRES(i.wi && i.we);
    for (int r = 0; r < 3; ++r) { ENSURES_EQ("flux in", i.Fi(r), i.F0[r]); ENSURES_EQ("flux ex", i.Fe(r), -i.F0[r]); }
}
CONTRACT(nothing_from_dry) {
    E i;
    if (i.up && !i.wi) for (int r = 0; r < 3; ++r) ENSURES_EQ("no flux out of the dry in side", i.Fi(r), 0.0);
    else if (i.down && !i.we) for (int r = 0; r < 3; ++r) ENSURES_EQ("no flux out of the dry ex side", i.Fe(r), 0.0);
    else ENSURES_EQ("mass flux otherwise", i.Fi(0), i.F0[0]);
}
CONTRACT(into_dry) {
    E i; REQUIRES((i.up && !i.we) || (i.down && !i.wi));
    double F[3], t[3];
    i.flux(0.0, i.up ? -1.0 : 1.0, F, t);
    for (int r = 1; r < 3; ++r) {
        if (i.up) { ENSURES_EQ("momentum of the dry side", i.Fe(r), F[r] + t[r] * (i.qe[r] - i.qh[r])); ENSURES_EQ("momentum of the wet side", i.Fi(r), i.F0[r]); }
        else { ENSURES_EQ("momentum of the dry side", i.Fi(r), F[r] + t[r] * (i.qi[r] - i.qh[r])); ENSURES_EQ("momentum of the wet side", i.Fe(r), -i.F0[r]); }
    }
}
CONTRACT(implicit_init) {
    In<SWE::IHDG::ISP::Internal> i; i.f.specialization.ComputeInitTrace(i.edge);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("trace is the average", i.edge.edge_data.edge_state.q_hat(r, i.k), i.qh[r]);
}
CONTRACT(implicit_kernels) {  // the trace equation balances the fluxes of both sides
    In<SWE::IHDG::ISP::Internal> i; auto& I = i.f.in(); auto& X = i.f.ex(); std::size_t n = i.n, k = i.k, ke = i.ke;
    vc_fill_mat(I.dF_hat_dq_at_gp, "Ai", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    vc_fill_mat(X.dF_hat_dq_at_gp, "Ax", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    vc_fill_mat(I.dF_hat_dq_hat_at_gp, "Bi", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    vc_fill_mat(X.dF_hat_dq_hat_at_gp, "Bx", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    i.f.specialization.ComputeGlobalKernels(i.edge);
    auto& e = i.edge.e(); (void)n;
    for (int r = 0; r < 3; ++r) ENSURES_EQ("flux balance", e.rhs_global_kernel_at_gp(r, k), I.F_hat_at_gp(r, k) + X.F_hat_at_gp(r, ke));
    for (int r = 0; r < 9; ++r) {
        ENSURES_EQ("derivative in the in side state", I.delta_global_kernel_at_gp(r, k), I.dF_hat_dq_at_gp(r, k));
        ENSURES_EQ("derivative in the ex side state", X.delta_global_kernel_at_gp(r, ke), X.dF_hat_dq_at_gp(r, ke));
        ENSURES_EQ("derivative in the trace", e.delta_hat_global_kernel_at_gp(r, k), I.dF_hat_dq_hat_at_gp(r, k) + X.dF_hat_dq_hat_at_gp(r, ke));
    }
}
