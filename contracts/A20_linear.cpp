#include "swe_ihdg.h"
// OPT *: divzero=1

// Element part of the implicit equations
namespace {
struct In : Elem2 {
    ImplicitStepper s; double th;
    In() : s(implicit_stepper()), th(s.GetTheta()) {
        REQUIRES(h(0) > 0.0); REQUIRES(h(1) > 0.0); NATIVE_REQUIRES(h(0) > 0.3 && h(1) > 0.3);
        SWE::Global::g = POS("g", 1, 10);
        SWE::SourceTerms::function_source = false; SWE::SourceTerms::bottom_friction = false;
    }
    double& x(int c) { return data.state[1].q(c % 3, c / 3); }
    double F(int dir, int s, int c) const {  // flux of the shallow water equations
        double q = at(s, dir + 1), u = q / h(s), p = SWE::Global::g * (at(s, 0) * at(s, 0) / 2 + at(s, 0) * data.internal.aux_at_gp(0, k));
        return c == 0 ? q : u * at(s, c) + (c == dir + 1 ? p : 0.0);
    }
    double flux(int i, int s, int c) const { return w * (dx(i) * F(0, s, c) + dy(i) * F(1, s, c)); }
};
}
CONTRACT(first_guess) {  // a step starts from the old state, with the weighted old residual only for the second order method
    In i; SWE::IHDG::Problem::init_volume_kernel(i.s, i);
    for (int d = 0; d < 2; ++d) for (int c = 0; c < 3; ++c) {
        ENSURES_EQ("old state", i.data.state[1].q(c, d), i.data.state[0].q(c, d));
        ENSURES_EQ("old residual", i.data.internal.rhs_prev[3 * d + c], i.s.GetOrder() == 2 ? i.flux(d, 0, c) : 0.0);
    }
    for (int c = 0; c < 3; ++c) ENSURES_EQ("old values", i.data.internal.q_prev_at_gp(c, i.k), i.at(0, c));
}
CONTRACT(volume_residual) {
    In i; auto& I = i.data.internal; vc_fill_mat(I.q_prev_at_gp, "old", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    double old[6]; for (int r = 0; r < 6; ++r) old[r] = I.rhs_prev[r];
    SWE::IHDG::Problem::local_volume_kernel(i.s, i);
    for (int d = 0; d < 2; ++d) for (int c = 0; c < 3; ++c)
        ENSURES_EQ("residual", I.rhs_local[3 * d + c], -i.w * i.phi(d) * (i.at(1, c) - I.q_prev_at_gp(c, i.k)) / i.s.GetDT() + (1 - i.th) * i.flux(d, 1, c) + i.th * old[3 * d + c]);
}
namespace {
// the matrix is minus the derivative of the residual in the unknowns
template <class R> void matrix(In& i, R run) {
    auto& I = i.data.internal; run();
    DynMatrix<double> D = I.delta_local;
    for (int c = 0; c < 6; ++c) for (int r = 0; r < 6; ++r) {
        auto f = [&](double e) { (void)e;
#ifdef VC_NATIVE
            double s = i.x(c); i.x(c) = e; run(); double v = -I.rhs_local[r]; i.x(c) = s; return v;
#else
            return -I.rhs_local[r];
#endif
        };
        ENSURES_DERIV("matrix", D(r, c), f, i.x(c));
    }
}
template <class R> void source_matrix(In& i, R run) {
    matrix(i, [&]() { auto& I = i.data.internal;
        I.q_at_gp = i.ComputeUgp(i.data.state[1].q);
        for (std::size_t j = 0; j < i.n; ++j) I.aux_at_gp(1, j) = I.q_at_gp(0, j) + I.aux_at_gp(0, j);
        for (int r = 0; r < 6; ++r) { I.rhs_local[r] = 0; for (int c = 0; c < 6; ++c) I.delta_local(r, c) = 0; }
        run(); });
}
}
CONTRACT(volume_matrix) {
    In i; vc_fill_mat(i.data.internal.q_prev_at_gp, "old", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    matrix(i, [&]() { SWE::IHDG::Problem::local_volume_kernel(i.s, i); });
}
CONTRACT(source_matrix_bed) { In i; source_matrix(i, [&]() { SWE::IHDG::Problem::local_source_kernel(i.s, i); }); }
CONTRACT(source_matrix_friction) {
    In i; SWE::SourceTerms::bottom_friction = true; SWE::SourceTerms::Cf = POS("Cf", 0.05, 0.5); i.data.source.manning = false;
    REQUIRES(i.at(1, 1) * i.at(1, 1) + i.at(1, 2) * i.at(1, 2) > 0.0); NATIVE_REQUIRES(std::hypot(i.at(1, 1), i.at(1, 2)) > 0.2);
    source_matrix(i, [&]() { SWE::IHDG::Problem::local_source_kernel(i.s, i); });
}
CONTRACT(source_matrix_manning) {
    In i; SWE::SourceTerms::bottom_friction = true; SWE::SourceTerms::Cf = POS("Cf", 0.05, 0.5); i.data.source.manning = true; i.data.source.g_manning_n_sq = POS("g n^2", 0.05, 0.5);
    REQUIRES(i.at(1, 1) * i.at(1, 1) + i.at(1, 2) * i.at(1, 2) > 0.0); NATIVE_REQUIRES(std::hypot(i.at(1, 1), i.at(1, 2)) > 0.2);
    double c = i.data.source.g_manning_n_sq / std::pow(i.h(1), 1.0 / 3.0); REQUIRES(c != SWE::SourceTerms::Cf); NATIVE_REQUIRES(std::abs(c - SWE::SourceTerms::Cf) > 0.02);
    source_matrix(i, [&]() { SWE::IHDG::Problem::local_source_kernel(i.s, i); });
}
CONTRACT(source_at_rest) {  // no velocity: friction contributes nothing to the matrix
    In i; SWE::SourceTerms::bottom_friction = true; SWE::SourceTerms::Cf = POS("Cf", 0.05, 0.5); i.data.source.manning = vc_choose("manning", 0, 1); i.data.source.g_manning_n_sq = POS("g n^2", 0.05, 0.5);
    for (int d = 0; d < 2; ++d) i.data.state[1].q(1, d) = i.data.state[1].q(2, d) = 0.0;
    auto& I = i.data.internal;
    I.q_at_gp = i.ComputeUgp(i.data.state[1].q);
    for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) I.delta_local(r, c) = 0;
    SWE::IHDG::Problem::local_source_kernel(i.s, i);
    for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c)
        ENSURES_EQ("matrix", I.delta_local(r, c), r % 3 == 0 || c % 3 ? 0.0 : -(1 - i.th) * i.w * i.phi(r / 3) * i.phi(c / 3) * SWE::Global::g * I.db_at_gp(r % 3 - 1, i.k));
}
CONTRACT(source_residual) {
    In i; auto& I = i.data.internal; I.q_at_gp = i.ComputeUgp(i.data.state[1].q); double r0[6], p0[6]; for (int r = 0; r < 6; ++r) { r0[r] = I.rhs_local[r]; p0[r] = I.rhs_prev[r]; }
    SWE::IHDG::Problem::local_source_kernel(i.s, i);
    auto S = [&](int c) { return c ? SWE::Global::g * i.at(1, 0) * I.db_at_gp(c - 1, i.k) : 0.0; };
    for (int d = 0; d < 2; ++d) for (int c = 0; c < 3; ++c) ENSURES_EQ("residual", I.rhs_local[3 * d + c], r0[3 * d + c] + (1 - i.th) * i.w * i.phi(d) * S(c));
    SWE::IHDG::Problem::init_source_kernel(i.s, i);
    for (int d = 0; d < 2; ++d) for (int c = 0; c < 3; ++c) ENSURES_EQ("old residual", I.rhs_prev[3 * d + c], p0[3 * d + c] + (i.s.GetOrder() == 2 ? i.w * i.phi(d) * S(c) : 0.0));
}
