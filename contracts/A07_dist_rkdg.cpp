#include "simulation/stepper/explicit_ssp_rk_stepper.cpp"
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_kernels_processor.hpp"
#include "swe_stub.h"
// The same interface once as an interior interface and once split over two processes that exchange the boundary message
namespace {
constexpr int CT = SWE::RKDG::CommTypes::bound_state;
using Cond = SWE::RKDG::DBC::Distributed;
struct Side {  // one process: its element data, its distributed boundary
    SWE::Data data; uint bound_id = 0; N2 surface_normal; Cond boundary_condition;
    Side(std::size_t n, uint offset, std::vector<std::vector<double>>& s, std::vector<std::vector<double>>& r)
        : surface_normal(2, n), boundary_condition(DBDataExchanger(0, 0, 1, 0, std::vector<uint>{7, offset, 3, 0}, s, r)) {
        data.set_nbound(1); data.set_ndof(n); data.set_ngp_boundary(0, n); data.boundary.resize(1); data.state.resize(1);
        data.boundary[0] = SWE::Boundary(n);
        data.state[0].rhs.resize(3, n); data.state[0].q.resize(3, n);
        for (std::size_t j = 0; j < n; ++j) for (int r = 0; r < 3; ++r) { data.state[0].rhs(r, j) = 0.0; }
    }
    void from(const SWE::Boundary& b, const N2& nn, bool wet) {
        data.boundary[0].aux_at_gp = b.aux_at_gp; data.state[0].q = b.q_at_gp; surface_normal = nn; data.wet_dry_state.wet = wet;
    }
    template <class A> Q3 ComputeUgp(const A& q) { return q; }        // nodal basis at the points
    template <class A> Q3 IntegrationPhi(const A& u) { return u; }
};
StepperInput input() { StepperInput i; i.nstages = 2; i.order = 2; i.dt = 1.0; i.ramp_duration = 0.0; i.run_time = 1.0; return i; }
struct In {
    std::size_t n, k, ke; StubIface<SWE::RKDG::ISP::Internal> f; uint off; std::vector<std::vector<double>> ab, ba; Side a, b; bool wi, we; ESSPRKStepper st;
    In() : n(SIZE("n")), k(vc_index("k", n)), ke(n - 1 - k), f(n), off(SIZE("offset", 0, 1000)), ab(4), ba(4), a(n, off, ab, ba), b(n, off, ba, ab), wi(vc_choose("wet_in", 0, 1)), we(vc_choose("wet_ex", 0, 1)), st(input()) {
        REQUIRES(wi || we);
        f.data_in.wet_dry_state.wet = wi; f.data_ex.wet_dry_state.wet = we;
        f.specialization.Initialize(f);
        a.from(f.in(), f.surface_normal_in, wi); b.from(f.ex(), f.surface_normal_ex, we);
        ab[CT].resize(off + 3 * n + 1); ba[CT].resize(off + 3 * n + 1);
        a.boundary_condition.Initialize(a); b.boundary_condition.Initialize(b);
        SWE::RKDG::Problem::distributed_boundary_send_kernel(st, a);
        SWE::RKDG::Problem::distributed_boundary_send_kernel(st, b);
    }
};
}
CONTRACT(message) {
    In i;
    ENSURES_EQ("wet flag", i.ab[CT][i.off], i.wi ? 1.0 : 0.0);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("state of a point", i.ab[CT][i.off + 1 + 3 * i.k + r], i.f.in().q_at_gp(r, i.k));
}
CONTRACT(same_as_serial_in) {
    In i;
    i.f.specialization.ComputeFlux(i.f);
    SWE::RKDG::Problem::distributed_boundary_kernel(i.st, i.a);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("flux of the in side", i.a.data.boundary[0].F_hat_at_gp(r, i.k), i.f.in().F_hat_at_gp(r, i.k));
    for (int r = 0; r < 3; ++r) ENSURES_EQ("right hand side", i.a.data.state[0].rhs(r, i.k), -i.f.in().F_hat_at_gp(r, i.k));
}
CONTRACT(same_as_serial_ex) {
    In i;
    i.f.specialization.ComputeFlux(i.f);
    SWE::RKDG::Problem::distributed_boundary_kernel(i.st, i.b);
    Q3 F(3, 2);
    SWE::RKDG::LLF_flux(SWE::Global::g, column(i.f.in().q_at_gp, i.k), column(i.f.ex().q_at_gp, i.ke), column(i.f.in().aux_at_gp, i.k), column(i.f.surface_normal_in, i.k), column(F, 0));
    SWE::RKDG::LLF_flux(SWE::Global::g, column(i.f.ex().q_at_gp, i.ke), column(i.f.in().q_at_gp, i.k), column(i.f.ex().aux_at_gp, i.ke), column(i.f.surface_normal_ex, i.ke), column(F, 1));
    ENSURES_EQ("antisymmetric mass flux", F(0, 1), -F(0, 0));
    bool up = vc_split(F(0, 0) > 1e-12), down = vc_split(F(0, 0) < -1e-12), down2 = vc_split(F(0, 1) < -1e-12), up2 = vc_split(F(0, 1) > 1e-12);
    if (up != down2 || down != up2) return;  // excluded by antisymmetry
    for (int r = 0; r < 3; ++r) ENSURES_EQ("flux of the ex side", i.b.data.boundary[0].F_hat_at_gp(r, i.ke), i.f.ex().F_hat_at_gp(r, i.ke));
}
