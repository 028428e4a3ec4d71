#include "vc.h"
#include "swe_stub.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp"
#include "problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_source.hpp"
#include "simulation/stepper/explicit_ssp_rk_stepper.cpp"
#include "swe_mesh.h"
// OPT *: divzero=1
// The forcing of an element: hydrostatic term of the bed slope, quadratic bottom friction
namespace {
void forcing(bool friction) {
    SWE::Global::g = POS("g", 1, 10);
    SWE::SourceTerms::function_source = false; SWE::SourceTerms::bottom_friction = friction; SWE::SourceTerms::Cf = NONNEG("Cf", 0.01, 0.2);
}
// an element with arbitrarily many points, each an arbitrary wet state over an arbitrary slope
struct Points {
    SWE::Data data; N2 at{2, 0};
    explicit Points(std::size_t n) {
        data.set_ngp_internal(n); data.internal = SWE::Internal(n);
        vc_fill_mat(i().aux_at_gp, "aux", {{0, 1.2, 4}, {1, 0.1, 3}, {1, 0.5, 1.5}});
        vc_fill_mat(i().q_at_gp, "q", {{0, -1, 1}, {0, -2, 2}, {0, -2, 2}});
        vc_fill_mat(i().db_at_gp, "slope", {{0, -1, 1}, {0, -1, 1}});
        vc_fill_mat(i().source_at_gp, "old", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
        vc_fill_mat(i().tau_s_at_gp, "wind", {{0, -1, 1}, {0, -1, 1}});
        data.source.coriolis_f = 0.0;
    }
    SWE::Internal& i() { return data.internal; }
    template <class F> Q3 ComputeFgp(const F& f) {
        std::size_t n = i().q_at_gp.cols(); at.resize(2, n); vc_fill_mat(at, "point", {{0, -5, 5}, {0, -5, 5}});
        Q3 v(3, n);
        for (std::size_t j = 0; j < n; ++j) { Point<2> p; p[0] = at(0, j); p[1] = at(1, j); StatVector<double, 3> r = f(p); for (int k = 0; k < 3; ++k) v(k, j) = r[k]; }
        return v;
    }
};
struct At { double h, ze, qx, qy, bx, by; At(Points& e, std::size_t k) : h(e.i().aux_at_gp(1, k)), ze(e.i().q_at_gp(0, k)), qx(e.i().q_at_gp(1, k)), qy(e.i().q_at_gp(2, k)), bx(e.i().db_at_gp(0, k)), by(e.i().db_at_gp(1, k)) {} };
void frame(Points& e, const At& a, std::size_t k) {
    ENSURES_EQ("depth kept", e.i().aux_at_gp(1, k), a.h);
    ENSURES_EQ("state kept", e.i().q_at_gp(0, k), a.ze); ENSURES_EQ("state kept", e.i().q_at_gp(1, k), a.qx); ENSURES_EQ("state kept", e.i().q_at_gp(2, k), a.qy);
}
}
CONTRACT(bed_slope) {
    forcing(false); std::size_t n = SIZE("n"), k = vc_index("k", n); Points e(n); At a(e, k);
    SWE::SourceTerms::function_source = vc_choose("function source", 0, 1) != 0;
    const double t = REAL("t");
    SWE::get_source(t, e);
    StatVector<double, 3> f; f[0] = f[1] = f[2] = 0.0;
    if (SWE::SourceTerms::function_source) { Point<2> p; p[0] = e.at(0, k); p[1] = e.at(1, k); f = SWE::source_q(t, p); }
    ENSURES_EQ("no mass source", e.i().source_at_gp(0, k), f[0]);
    ENSURES_EQ("slope x", e.i().source_at_gp(1, k), SWE::Global::g * a.ze * a.bx + f[1]);
    ENSURES_EQ("slope y", e.i().source_at_gp(2, k), SWE::Global::g * a.ze * a.by + f[2]);
    frame(e, a, k);
}
CONTRACT(friction_constant) {
    forcing(true); std::size_t n = SIZE("n"), k = vc_index("k", n); Points e(n); At a(e, k); const double Cf = SWE::SourceTerms::Cf;
    e.data.source.manning = false; e.data.source.g_manning_n_sq = POS("unused");
    SWE::get_source(REAL("t"), e);
    const double f = Cf * std::sqrt(a.qx * a.qx + a.qy * a.qy) / (a.h * a.h);
    ENSURES_EQ("no mass source", e.i().source_at_gp(0, k), 0.0);
    ENSURES_EQ("momentum x", e.i().source_at_gp(1, k), SWE::Global::g * a.ze * a.bx - f * a.qx);
    ENSURES_EQ("momentum y", e.i().source_at_gp(2, k), SWE::Global::g * a.ze * a.by - f * a.qy);
    ENSURES_EQ("coefficient kept", SWE::SourceTerms::Cf, Cf);
    frame(e, a, k);
}
CONTRACT(friction_manning) {  // the coefficient at each point is its own, never below the configured one
    forcing(true); std::size_t n = SIZE("n"), k = vc_index("k", n); Points e(n); At a(e, k); const double Cf = SWE::SourceTerms::Cf;
    e.data.source.manning = true; e.data.source.g_manning_n_sq = POS("g n^2", 0.01, 0.2);
    SWE::get_source(REAL("t"), e);
    double c = e.data.source.g_manning_n_sq / std::pow(a.h, 1.0 / 3.0);
    if (vc_split(c < Cf)) c = Cf;
    const double f = c * std::sqrt(a.qx * a.qx + a.qy * a.qy) / (a.h * a.h);
    ENSURES_EQ("no mass source", e.i().source_at_gp(0, k), 0.0);
    ENSURES_EQ("momentum x", e.i().source_at_gp(1, k), SWE::Global::g * a.ze * a.bx - f * a.qx);
    ENSURES_EQ("momentum y", e.i().source_at_gp(2, k), SWE::Global::g * a.ze * a.by - f * a.qy);
    ENSURES_EQ("coefficient kept", SWE::SourceTerms::Cf, Cf);
    frame(e, a, k);
}
namespace {
// what a source kernel adds to the tendency of a real element
template <class F> void kernel(F run, bool wet) {
    forcing(true); uint p = (uint)vc_choose("p", 1, 2); Tri m(p); Vertices v = vc_vertices();
    Elem e(0, m, v.nodes(), {0, 1, 2}, {1, 1, 1}, {0, 0, 0});
    e.data.initialize(); StepperInput in; in.nstages = 2; in.order = 2; in.dt = POS("dt"); in.ramp_duration = 0; in.run_time = 1;
    ESSPRKStepper s(in); e.data.resize(3);
    if (vc_choose("stage", 0, 1)) ++s;
    auto& st = e.data.state[s.GetStage()];
    vc_fill_mat(e.data.internal.q_at_gp, "q", {{0, -1, 1}, {0, -2, 2}, {0, -2, 2}});
    vc_fill_mat(e.data.internal.aux_at_gp, "aux", {{0, 1.2, 4}, {1, 0.1, 3}, {1, 0.5, 1.5}});
    vc_fill_mat(e.data.internal.db_at_gp, "slope", {{0, -1, 1}, {0, -1, 1}});
    vc_fill_mat(st.rhs, "rhs", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    e.data.wet_dry_state.wet = wet; e.data.source.manning = false; e.data.source.g_manning_n_sq = POS("unused");
    auto before = st.rhs;
    HybMatrix<double, 3> S(3, e.data.get_ngp_internal());
    for (uint j = 0; j < e.data.get_ngp_internal(); ++j) {
        const auto& i = e.data.internal; const double h = i.aux_at_gp(1, j), f = SWE::SourceTerms::Cf * std::hypot(i.q_at_gp(1, j) / h, i.q_at_gp(2, j) / h) / h;
        S(0, j) = 0; for (int k = 1; k < 3; ++k) S(k, j) = wet ? SWE::Global::g * i.db_at_gp(k - 1, j) * i.q_at_gp(0, j) - f * i.q_at_gp(k, j) : 0.0;
    }
    run(s, e);
    HybMatrix<double, 3> add = e.IntegrationPhi(S);
    for (uint d = 0; d < e.data.get_ndof(); ++d) for (int k = 0; k < 3; ++k) ENSURES_EQ("tendency", st.rhs(k, d), before(k, d) + add(k, d));
}
auto rkdg = [](ESSPRKStepper& s, Elem& e) { SWE::RKDG::Problem::source_kernel(s, e); };
auto ehdg = [](ESSPRKStepper& s, Elem& e) { SWE::EHDG::Problem::local_source_kernel(s, e); };
}
CONTRACT(kernel_rkdg_wet) { kernel(rkdg, true); }
CONTRACT(kernel_rkdg_dry) { kernel(rkdg, false); }
CONTRACT(kernel_ehdg_wet) { kernel(ehdg, true); }
CONTRACT(kernel_ehdg_dry) { kernel(ehdg, false); }
