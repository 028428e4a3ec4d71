#include "swe_ihdg.h"
// OPT *: divzero=1 sqrtneg=1 cut=1
// Side part of the implicit equations: residuals of the elements and of the trace, and their derivatives
namespace {
struct Any {  // any boundary condition: arbitrary trace residual and derivatives
    template <class B> void Initialize(B&) {}
    template <class E> void ComputeGlobalKernels(const ImplicitStepper&, E& e) { ComputeGlobalKernels(e); }
    template <class E> void ComputeGlobalKernels(E& e) {
        auto nine = [](HybMatrix<double, 9>& m, const char* n) { vc_fill_mat(m, n, {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}, {0, -1, 1}}); };
        nine(e.boundary.in.b().delta_global_kernel_at_gp, "kernel q"); nine(e.e().delta_hat_global_kernel_at_gp, "kernel trace");
        vc_fill_mat(e.e().rhs_global_kernel_at_gp, "kernel", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    }
};
template <class Cond> struct In {
    std::size_t n, k; ImplicitStepper s; Bound2<Cond> b; EdgeBound2<Bound2<Cond>> e; double th;
    In() : n(SIZE("n")), k(vc_index("k", n)), s(implicit_stepper()), b(n, k), e(b), th(s.GetTheta()) { e.regular(b.surface_normal); SWE::Global::g = POS("g", 1, 10); }
    double& x(int c) { return b.data.state[1].q(c % 3, c / 3); }
    double& y(int c) { return e.edge_data.edge_state.q_hat(c % 3, c / 3); }
};
struct InI {
    std::size_t n, k; ImplicitStepper s; Iface2<SWE::IHDG::ISP::Internal> f; EdgeInt2<Iface2<SWE::IHDG::ISP::Internal>> e; double th;
    InI() : n(SIZE("n")), k(vc_index("k", n)), s(implicit_stepper()), f(n, k), e(f), th(s.GetTheta()) { e.regular(f.surface_normal_in); SWE::Global::g = POS("g", 1, 10); }
    double& x(bool ex, int c) { return (ex ? f.data_ex : f.data_in).state[1].q(c % 3, c / 3); }
    double& y(int c) { return e.edge_data.edge_state.q_hat(c % 3, c / 3); }
    Side2& side(bool ex) { return ex ? f.ex : f.in; }
};
#ifdef VC_NATIVE
#define AGAIN(var, expr) [&](double z_) { double& v_ = var; double s_ = v_; v_ = z_; run(); double r_ = (expr); v_ = s_; return r_; }
#else
#define AGAIN(var, expr) [&](double) { return (expr); }
#endif
void clear(SWE::Internal& I) { for (int r = 0; r < 6; ++r) { I.rhs_local[r] = 0; for (int c = 0; c < 6; ++c) I.delta_local(r, c) = 0; } }
// element side of a boundary edge, ordinary or distributed
template <class L> void residual(L local) {
    In<Any> i; double r0[6]; for (int r = 0; r < 6; ++r) r0[r] = i.b.data.internal.rhs_local[r];
    local(i);
    double F[3], t[3]; i.e.flux(i.b.surface_normal, F, t);
    for (int d = 0; d < 2; ++d) for (int c = 0; c < 3; ++c)
        ENSURES_EQ("residual", i.b.data.internal.rhs_local[3 * d + c], r0[3 * d + c] - (1 - i.th) * i.b.w * i.b.in.phi(d) * (F[c] + t[c] * (i.b.in.at(1, c) - i.e.at(c))));
}
template <class L> void derivatives(L local) {
    In<Any> i; auto& I = i.b.data.internal; auto run = [&]() { clear(I); local(i); };
    run(); DynMatrix<double> D = I.delta_local, H = i.b.in.b().delta_hat_local;
    for (int c = 0; c < 6; ++c) for (int r = 0; r < 6; ++r) {
        auto f = AGAIN(i.x(c), -I.rhs_local[r]); ENSURES_DERIV("matrix", D(r, c), f, i.x(c));
        auto g = AGAIN(i.y(c), -I.rhs_local[r]); ENSURES_DERIV("trace matrix", H(r, c), g, i.y(c));
    }
}
template <class L> void added(L local) {  // the matrix is added to what is there
    In<Any> i; auto& I = i.b.data.internal; DynMatrix<double> D0 = I.delta_local; DynMatrix<double> keep = D0;
    local(i); DynMatrix<double> D1 = I.delta_local; clear(I); local(i);
    for (int c = 0; c < 6; ++c) for (int r = 0; r < 6; ++r) ENSURES_EQ("added", D1(r, c), keep(r, c) + I.delta_local(r, c));
}
template <class L> void old_residual(L init) {
    In<Any> i; double r0[6]; for (int r = 0; r < 6; ++r) r0[r] = i.b.data.internal.rhs_prev[r];
    init(i);
    double F[3], t[3]; i.e.flux(i.b.surface_normal, F, t);
    for (int d = 0; d < 2; ++d) for (int c = 0; c < 3; ++c)
        ENSURES_EQ("old residual", i.b.data.internal.rhs_prev[3 * d + c], r0[3 * d + c] - (i.s.GetOrder() == 2 ? i.b.w * i.b.in.phi(d) * (F[c] + t[c] * (i.b.in.at(0, c) - i.e.at(c))) : 0.0));
}
template <class L> void trace(L global) {  // the trace equations are the integrals of the condition's kernels
    In<Any> i; global(i); auto& B = i.b.in.b(); auto& e = i.e.e();
    for (int d = 0; d < 2; ++d) for (int c = 0; c < 3; ++c) {
        ENSURES_EQ("residual", e.rhs_global[3 * d + c], -i.b.w * i.e.lambda(d) * e.rhs_global_kernel_at_gp(c, i.k));
        for (int g = 0; g < 2; ++g) for (int m = 0; m < 3; ++m) {
            ENSURES_EQ("element part", B.delta_global(3 * d + c, 3 * g + m), i.b.w * i.e.lambda(d) * i.b.in.phi(g) * B.delta_global_kernel_at_gp(3 * c + m, i.k));
            ENSURES_EQ("trace part", e.delta_hat_global(3 * d + c, 3 * g + m), i.b.w * i.e.lambda(d) * i.e.lambda(g) * e.delta_hat_global_kernel_at_gp(3 * c + m, i.k));
        }
    }
}
auto lb = [](auto& i) { P::local_boundary_kernel(i.s, i.b); P::local_edge_boundary_kernel(i.s, i.e); };
auto ib = [](auto& i) { P::init_boundary_kernel(i.s, i.b); P::init_edge_boundary_kernel(i.s, i.e); };
auto gb = [](auto& i) { P::global_edge_boundary_kernel(i.s, i.e); };
auto ld = [](auto& i) { P::local_distributed_boundary_kernel(i.s, i.b); P::local_edge_distributed_kernel(i.s, i.e); };
auto id = [](auto& i) { P::init_distributed_boundary_kernel(i.s, i.b); P::init_edge_distributed_kernel(i.s, i.e); };
auto gd = [](auto& i) { P::global_edge_distributed_kernel(i.s, i.e); };
}
CONTRACT(boundary_residual) { residual(lb); }
CONTRACT(boundary_matrix) { derivatives(lb); }
CONTRACT(boundary_added) { added(lb); }
CONTRACT(boundary_old) { old_residual(ib); }
CONTRACT(boundary_trace) { trace(gb); }
CONTRACT(distributed_residual) { residual(ld); }
CONTRACT(distributed_matrix) { derivatives(ld); }
CONTRACT(distributed_added) { added(ld); }
CONTRACT(distributed_old) { old_residual(id); }
CONTRACT(distributed_trace) { trace(gd); }
namespace {
template <class C> void condition() {  // a real condition: the trace matrices are the derivatives of its residual
    In<C> i; auto run = [&]() { lb(i); gb(i); }; run();
    DynMatrix<double> D = i.b.in.b().delta_global, H = i.e.e().delta_hat_global;
    for (int c = 0; c < 6; ++c) for (int r = 0; r < 6; ++r) {
        auto f = AGAIN(i.x(c), -i.e.e().rhs_global[r]); ENSURES_DERIV("element part", D(r, c), f, i.x(c));
        auto g = AGAIN(i.y(c), -i.e.e().rhs_global[r]); ENSURES_DERIV("trace part", H(r, c), g, i.y(c));
    }
}
auto li = [](auto& i) { P::local_interface_kernel(i.s, i.f); P::local_edge_interface_kernel(i.s, i.e); };
double hat(InI& i, bool ex, int s, int c) {  // flux out of one side
    double F[3], t[3]; i.e.flux(i.f.surface_normal_in, F, t);
    return (ex ? -F[c] : F[c]) + t[c] * (i.side(ex).at(s, c) - i.e.at(c));
}
}
CONTRACT(land_trace) { condition<SWE::IHDG::BC::Land>(); }
CONTRACT(interface_residual) {
    InI i; double r0[2][6]; for (int x = 0; x < 2; ++x) for (int r = 0; r < 6; ++r) r0[x][r] = i.side(x).data.internal.rhs_local[r];
    li(i);
    for (int x = 0; x < 2; ++x) for (int d = 0; d < 2; ++d) for (int c = 0; c < 3; ++c)
        ENSURES_EQ("residual", i.side(x).data.internal.rhs_local[3 * d + c], r0[x][3 * d + c] - (1 - i.th) * i.f.w * i.side(x).phi(d) * hat(i, x, 1, c));
}
CONTRACT(interface_old) {
    InI i; double r0[2][6]; for (int x = 0; x < 2; ++x) for (int r = 0; r < 6; ++r) r0[x][r] = i.side(x).data.internal.rhs_prev[r];
    P::init_interface_kernel(i.s, i.f); P::init_edge_interface_kernel(i.s, i.e);
    for (int x = 0; x < 2; ++x) for (int d = 0; d < 2; ++d) for (int c = 0; c < 3; ++c)
        ENSURES_EQ("old residual", i.side(x).data.internal.rhs_prev[3 * d + c], r0[x][3 * d + c] - (i.s.GetOrder() == 2 ? i.f.w * i.side(x).phi(d) * hat(i, x, 0, c) : 0.0));
}
CONTRACT(interface_matrix) {
    InI i; bool x = vc_choose("side", 0, 1); auto& I = i.side(x).data.internal;
    auto run = [&]() { clear(i.f.data_in.internal); clear(i.f.data_ex.internal); li(i); };
    run(); DynMatrix<double> D = I.delta_local, H = i.side(x).b().delta_hat_local;
    for (int c = 0; c < 6; ++c) for (int r = 0; r < 6; ++r) {
        auto f = AGAIN(i.x(x, c), -I.rhs_local[r]); ENSURES_DERIV("matrix", D(r, c), f, i.x(x, c));
        auto g = AGAIN(i.y(c), -I.rhs_local[r]); ENSURES_DERIV("trace matrix", H(r, c), g, i.y(c));
    }
}
CONTRACT(interface_added) {
    InI i; bool x = vc_choose("side", 0, 1); auto& I = i.side(x).data.internal; DynMatrix<double> D0 = I.delta_local;
    li(i); DynMatrix<double> D1 = I.delta_local; clear(I); li(i);
    for (int c = 0; c < 6; ++c) for (int r = 0; r < 6; ++r) ENSURES_EQ("added", D1(r, c), D0(r, c) + I.delta_local(r, c));
}
CONTRACT(interface_trace) {  // the fluxes of both sides balance; derivatives in both states and the trace
    InI i; auto run = [&]() { li(i); P::global_edge_interface_kernel(i.s, i.e); }; run();
    auto& e = i.e.e();
    for (int d = 0; d < 2; ++d) for (int c = 0; c < 3; ++c) ENSURES_EQ("balance", e.rhs_global[3 * d + c], -i.f.w * i.e.lambda(d) * (hat(i, false, 1, c) + hat(i, true, 1, c)));
    DynMatrix<double> A = i.f.in.b().delta_global, B = i.f.ex.b().delta_global, H = e.delta_hat_global;
    for (int c = 0; c < 6; ++c) for (int r = 0; r < 6; ++r) {
        auto f = AGAIN(i.x(false, c), -e.rhs_global[r]); ENSURES_DERIV("in part", A(r, c), f, i.x(false, c));
        auto g = AGAIN(i.x(true, c), -e.rhs_global[r]); ENSURES_DERIV("ex part", B(r, c), g, i.x(true, c));
        auto t = AGAIN(i.y(c), -e.rhs_global[r]); ENSURES_DERIV("trace part", H(r, c), t, i.y(c));
    }
}
