#include "simulation/stepper/explicit_ssp_rk_stepper.cpp"
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#include "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#include "problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_IHDG/dist_boundary_conditions/ihdg_swe_dbc_distributed.hpp"
#include "swe_stub.h"
// Interface split over two processes in the hybridized schemes: this process holds the in side; the neighbour's message is
// produced by its own send kernel.  The expected fluxes are those of the interior interface (property A06).
namespace {
constexpr int CT = SWE::EHDG::CommTypes::bound_state;
template <class Cond> struct Side {
    SWE::Data data; uint bound_id = 0; N2 surface_normal; Cond boundary_condition;
    Side(std::size_t n, uint offset, std::vector<std::vector<double>>& s, std::vector<std::vector<double>>& r)
        : surface_normal(2, n), boundary_condition(DBDataExchanger(0, 0, 1, 0, std::vector<uint>{7, 3, offset, 0}, s, r)) {
        data.set_nbound(1); data.set_ndof(n); data.set_ngp_boundary(0, n); data.boundary.resize(1); data.state.resize(1);
        data.boundary[0] = SWE::Boundary(n);
        data.state[0].q.resize(3, n);
    }
    void from(const SWE::Boundary& b, const N2& nn, bool wet) {
        data.boundary[0].aux_at_gp = b.aux_at_gp; data.boundary[0].q_at_gp = b.q_at_gp; data.state[0].q = b.q_at_gp; surface_normal = nn; data.wet_dry_state.wet = wet;
    }
    SWE::Boundary& b() { return data.boundary[0]; }
    template <class A> Q3 ComputeUgp(const A& q) { return q; }
};
StepperInput input() { StepperInput i; i.nstages = 2; i.order = 2; i.dt = 1.0; i.ramp_duration = 0.0; i.run_time = 1.0; return i; }
struct NoSpec {};
template <class Cond> struct In {
    std::size_t n, k, ke; StubIface<NoSpec> f; uint off; std::vector<std::vector<double>> ab, ba; Side<Cond> a, b; StubEdge<Side<Cond>> edge; double qi[3], qe[3], qh[3], bt, nx, ny;
    In() : n(SIZE("n")), k(vc_index("k", n)), ke(n - 1 - k), f(n), off(SIZE("offset", 0, 1000)), ab(4), ba(4), a(n, off, ab, ba), b(n, off, ba, ab), edge(load(), n) {
        ab[CT].resize(off + 3 * n + 1); ba[CT].resize(off + 3 * n + 1);
        for (int r = 0; r < 3; ++r) { qi[r] = f.in().q_at_gp(r, k); qe[r] = f.ex().q_at_gp(r, ke); qh[r] = (qi[r] + qe[r]) / 2; }
        bt = f.in().aux_at_gp(0, k); nx = f.surface_normal_in(0, k); ny = f.surface_normal_in(1, k);
        a.boundary_condition.Initialize(a);
    }
    Side<Cond>& load() { a.from(f.in(), f.surface_normal_in, false); b.from(f.ex(), f.surface_normal_ex, false); return a; }
};
struct E : In<SWE::EHDG::DBC::Distributed> {
    bool wi, we, up, down; double F0[3], s[3]; ESSPRKStepper st;
    E() : wi(vc_choose("wet_in", 0, 1)), we(vc_choose("wet_ex", 0, 1)), st(input()) {
        REQUIRES(wi || we);
        a.data.wet_dry_state.wet = wi; b.data.wet_dry_state.wet = we;
        SWE::EHDG::Problem::global_distributed_boundary_kernel(st, b);
        a.boundary_condition.ComputeNumericalFlux(edge);
        flux(SWE::Global::g, F0, s);
        for (int r = 0; r < 3; ++r) F0[r] += s[r] * (qi[r] - qh[r]);
        up = vc_split(F0[0] > 1e-12); down = vc_split(F0[0] < -1e-12);
    }
    void flux(double g, double* F, double* t) {
        Q3 q(3, 1), x(3, 1), G(3, 1); N2 nn(2, 1); StatMatrix<double, 3, 3> tau;
        for (int r = 0; r < 3; ++r) q(r, 0) = qh[r];
        x(0, 0) = bt; x(1, 0) = qh[0] + bt; x(2, 0) = 1.0; nn(0, 0) = nx; nn(1, 0) = ny;
        SWE::get_Fn(g, column(q, 0), column(x, 0), column(nn, 0), column(G, 0));
        SWE::get_tau_LF(g, column(q, 0), column(x, 0), column(nn, 0), tau);
        for (int r = 0; r < 3; ++r) { F[r] = G(r, 0); t[r] = tau(r, r); }
    }
    double F(int r) { return a.b().F_hat_at_gp(r, k); }
};
}
CONTRACT(message) {
    E i;
    ENSURES_EQ("wet flag", i.ba[CT][i.off], i.we ? 1.0 : 0.0);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("state of a point", i.ba[CT][i.off + 1 + 3 * i.ke + r], i.qe[r]);
}
CONTRACT(mass_flux) {  // the mass flux of the interior interface, none out of a dry element
    E i;
    if ((i.up && !i.wi) || (i.down && !i.we)) ENSURES_EQ("no water out of a dry element", i.F(0), 0.0);
    else ENSURES_EQ("mass flux of the serial interface", i.F(0), i.F0[0]);
}
CONTRACT(momentum_flux) {
    E i;
    if (i.up && !i.wi) { ENSURES_EQ("nothing out of the dry side", i.F(1), 0.0); ENSURES_EQ("nothing out of the dry side", i.F(2), 0.0); return; }
    if (i.down && !i.we) return;   // wall on this side
    if (i.down && !i.wi) {
        double F[3], t[3]; i.flux(0.0, F, t);
        for (int r = 1; r < 3; ++r) ENSURES_EQ("without gravity into the dry side", i.F(r), F[r] + t[r] * (i.qi[r] - i.qh[r]));
        return;
    }
    for (int r = 1; r < 3; ++r) ENSURES_EQ("momentum flux of the serial interface", i.F(r), i.F0[r]);
}
CONTRACT(implicit_init) {
    In<SWE::IHDG::DBC::Distributed> i; Q3 qex(3, i.n);
    for (std::size_t j = 0; j < i.n; ++j) for (int r = 0; r < 3; ++r) qex(r, j) = i.f.ex().q_at_gp(r, i.n - 1 - j);
    i.a.boundary_condition.ComputeInitTrace(i.edge, qex);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("trace is the average", i.edge.edge_data.edge_state.q_hat(r, i.k), i.qh[r]);
}
CONTRACT(implicit_kernels) {  // this side's contribution; the neighbour adds its own
    In<SWE::IHDG::DBC::Distributed> i; auto& A = i.a.b(); auto& e = i.edge.e();
    vc_fill_mat(A.F_hat_at_gp, "F0", {{0, -2, 2}, {0, -2, 2}, {0, -2, 2}});
    vc_fill_mat(A.dF_hat_dq_at_gp, "Ai", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    vc_fill_mat(A.dF_hat_dq_hat_at_gp, "Bi", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    i.a.boundary_condition.ComputeGlobalKernels(i.edge);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("flux", e.rhs_global_kernel_at_gp(r, i.k), A.F_hat_at_gp(r, i.k));
    for (int r = 0; r < 9; ++r) {
        ENSURES_EQ("derivative in the state", A.delta_global_kernel_at_gp(r, i.k), A.dF_hat_dq_at_gp(r, i.k));
        ENSURES_EQ("derivative in the trace", e.delta_hat_global_kernel_at_gp(r, i.k), A.dF_hat_dq_hat_at_gp(r, i.k));
    }
}
