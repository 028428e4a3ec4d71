#include "simulation/stepper/explicit_ssp_rk_stepper.cpp"
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_kernels_processor.hpp"
#include "swe_stub.h"
// Levee between two elements, as an interface and split over two processes; arbitrary point k of the in side, ke of the ex side.
namespace {
constexpr int CT = SWE::RKDG::CommTypes::bound_state;
constexpr double TOL = 0.01;
using SWE::LeveeInput;
using DCond = SWE::RKDG::DBC::DistributedLevee;
struct Weights { N2 w{2, 0}; };
template <class F> DynRowVector<double> at_points(const DynRowVector<double>& u, std::size_t n, F w) {
    DynRowVector<double> r(n);
    for (std::size_t j = 0; j < n; ++j) r[j] = u[0] * w(0, j) + u[1] * w(1, j);
    return r;
}
struct LeveeFace : StubIface<SWE::RKDG::ISP::Levee> {
    N2 w;
    LeveeFace(std::size_t n) : StubIface(n), w(2, n) { vc_fill_mat(w, "weight", {{0, 0, 1}, {0, 0, 1}}); }
    DynRowVector<double> ComputeBoundaryNodalUgpIN(const DynRowVector<double>& u) { N2& W = w; return at_points(u, n, [&W](int r, std::size_t j) { return W(r, j); }); }
};
struct Side {
    SWE::Data data; uint bound_id = 0; N2 surface_normal, w; DCond boundary_condition; std::size_t n;
    Side(std::size_t n, const std::vector<LeveeInput>& l, uint offset, std::vector<std::vector<double>>& s, std::vector<std::vector<double>>& r)
        : surface_normal(2, n), w(2, n), boundary_condition(DBDataExchanger(0, 0, 1, 0, std::vector<uint>{7, offset, 3, 0}, s, r), l), n(n) {
        data.set_nbound(1); data.set_ndof(n); data.set_ngp_boundary(0, n); data.boundary.resize(1); data.state.resize(1);
        data.boundary[0] = SWE::Boundary(n);
        data.state[0].q.resize(3, n);
    }
    void from(const SWE::Boundary& b, const N2& nn, bool wet) { data.boundary[0].aux_at_gp = b.aux_at_gp; data.boundary[0].q_at_gp = b.q_at_gp; data.state[0].q = b.q_at_gp; surface_normal = nn; data.wet_dry_state.wet = wet; }
    template <class A> Q3 ComputeUgp(const A& q) { return q; }
    DynRowVector<double> ComputeBoundaryNodalUgp(const DynRowVector<double>& u) { N2& W = w; return at_points(u, n, [&W](int r, std::size_t j) { return W(r, j); }); }
};
StepperInput input() { StepperInput i; i.nstages = 2; i.order = 2; i.dt = 1.0; i.ramp_duration = 0.0; i.run_time = 1.0; return i; }
std::vector<LeveeInput> crest() {
    std::vector<LeveeInput> l(2);
    for (int v = 0; v < 2; ++v) { l[v].H_barrier = REAL("crest", -1, 1); l[v].C_subcritical = NONNEG("C_sub"); l[v].C_supercritical = NONNEG("C_super"); }
    return l;
}
struct In {
    std::size_t n, k, ke; std::vector<LeveeInput> l; LeveeFace f; bool wi, we; double H, Cs, Cp, hi, he, nx, ny;
    In() : n(SIZE("n")), k(vc_index("k", n)), ke(n - 1 - k), l(crest()), f(n), wi(vc_choose("wet_in", 0, 1)), we(vc_choose("wet_ex", 0, 1)) {
        f.data_in.wet_dry_state.wet = wi; f.data_ex.wet_dry_state.wet = we;
        f.specialization = SWE::RKDG::ISP::Levee(l);
        f.specialization.Initialize(f);
        H = l[0].H_barrier * f.w(0, k) + l[1].H_barrier * f.w(1, k);
        Cs = l[0].C_subcritical * f.w(0, k) + l[1].C_subcritical * f.w(1, k);
        Cp = l[0].C_supercritical * f.w(0, k) + l[1].C_supercritical * f.w(1, k);
        hi = f.in().q_at_gp(0, k) - H; he = f.ex().q_at_gp(0, ke) - H;
        nx = f.surface_normal_in(0, k); ny = f.surface_normal_in(1, k);
    }
    bool closed() { return (hi <= TOL && he <= TOL) || std::abs(hi - he) <= TOL; }
    double weir(double up, double down) {
        double H3 = 2.0 * up / 3.0;
        return down > H3 ? Cs * down * std::sqrt(2.0 * SWE::Global::g * (up - down)) : Cp * H3 * std::sqrt(SWE::Global::g * H3);
    }
    // numerical flux of the in (or ex) side against a state with discharge Q in the direction of the in side's normal
    void flux_in(double g, double Q, double* F) {
        Q3 q(3, 1), G(3, 1); q(0, 0) = f.in().q_at_gp(0, k); q(1, 0) = Q * nx; q(2, 0) = Q * ny;
        SWE::RKDG::LLF_flux(g, column(f.in().q_at_gp, k), column(q, 0), column(f.in().aux_at_gp, k), column(f.surface_normal_in, k), column(G, 0));
        for (int r = 0; r < 3; ++r) F[r] = G(r, 0);
    }
    void flux_ex(double g, double Q, double* F) {
        Q3 q(3, 1), G(3, 1); q(0, 0) = f.ex().q_at_gp(0, ke); q(1, 0) = Q * nx; q(2, 0) = Q * ny;
        SWE::RKDG::LLF_flux(g, column(f.ex().q_at_gp, ke), column(q, 0), column(f.ex().aux_at_gp, ke), column(f.surface_normal_ex, ke), column(G, 0));
        for (int r = 0; r < 3; ++r) F[r] = G(r, 0);
    }
};
}
CONTRACT(closed) {  // water below the crest or level on both sides: both sides see a wall
    In i; i.f.specialization.ComputeFlux(i.f);
    REQUIRES(i.closed());
    ENSURES_EQ("no water crosses into the levee (in)", i.f.in().F_hat_at_gp(0, i.k), 0.0);
    ENSURES_EQ("no water crosses into the levee (ex)", i.f.ex().F_hat_at_gp(0, i.ke), 0.0);
}
CONTRACT(overtopping_in) {  // weir discharge from the in side
    In i; i.f.specialization.ComputeFlux(i.f);
    REQUIRES(!i.closed() && i.hi > i.he);
    double Q = i.weir(i.hi, i.he), F[3];
    i.flux_in(SWE::Global::g, Q, F);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("in side sees the weir discharge", i.f.in().F_hat_at_gp(r, i.k), F[r]);
    i.flux_ex(i.we ? SWE::Global::g : 0.0, Q, F);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("ex side sees the weir discharge", i.f.ex().F_hat_at_gp(r, i.ke), F[r]);
}
CONTRACT(overtopping_ex) {
    In i; i.f.specialization.ComputeFlux(i.f);
    REQUIRES(!i.closed() && i.hi < i.he);
    double Q = -i.weir(i.he, i.hi), F[3];
    i.flux_in(i.wi ? SWE::Global::g : 0.0, Q, F);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("in side sees the weir discharge", i.f.in().F_hat_at_gp(r, i.k), F[r]);
    i.flux_ex(SWE::Global::g, Q, F);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("ex side sees the weir discharge", i.f.ex().F_hat_at_gp(r, i.ke), F[r]);
}
// each process computes its own side of the same levee from the message of the other
namespace {
struct Split {
    std::vector<std::vector<double>> ab, ba; Side a; ESSPRKStepper st;
    Split(In& i) : ab(4), ba(4), a(i.n, i.l, 0, ab, ba), st(input()) {
        std::size_t n = i.n;
        Side b(n, i.l, 0, ba, ab);
        a.from(i.f.in(), i.f.surface_normal_in, i.wi); b.from(i.f.ex(), i.f.surface_normal_ex, i.we);
        a.w = i.f.w;
        ab[CT].resize(3 * n + 1); ba[CT].resize(3 * n + 1);
        a.boundary_condition.Initialize(a);
        SWE::RKDG::Problem::distributed_boundary_send_kernel(st, b);
        a.boundary_condition.ComputeFlux(a);
    }
    double F(int r, std::size_t k) { return a.data.boundary[0].F_hat_at_gp(r, k); }
};
}
CONTRACT(distributed_closed) {
    In i; Split s(i);
    REQUIRES(i.closed());
    ENSURES_EQ("no water crosses into the levee", s.F(0, i.k), 0.0);
}
CONTRACT(distributed_out) {
    In i; Split s(i);
    REQUIRES(!i.closed() && i.hi > i.he);
    double F[3]; i.flux_in(SWE::Global::g, i.weir(i.hi, i.he), F);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("the weir discharge of the interface", s.F(r, i.k), F[r]);
}
CONTRACT(distributed_in) {
    In i; Split s(i);
    REQUIRES(!i.closed() && i.hi < i.he);
    double F[3]; i.flux_in(i.wi ? SWE::Global::g : 0.0, -i.weir(i.he, i.hi), F);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("the weir discharge of the interface", s.F(r, i.k), F[r]);
}
