// Stand-ins for the finite element side of the implicit scheme.  Integration is linear in the values at the points, so it is
// represented by one arbitrary point k of arbitrarily many with an arbitrary weight; every basis function has arbitrary
// values and derivatives there.  Two degrees of freedom per element and two per edge stand for any pair of them.
#ifndef SWE_IHDG_H
#define SWE_IHDG_H
#include "swe_stub.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#include "problem/SWE/discretization_IHDG/ihdg_swe_problem.hpp"
#include "problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_kernels_processor.hpp"
typedef SWE::IHDG::Problem P;
inline ImplicitStepper implicit_stepper() {
    StepperInput i; i.nstages = 1; i.order = (uint)vc_choose("order", 1, 2); i.dt = POS("dt"); i.ramp_duration = 0; i.run_time = 1;
    return ImplicitStepper(i);
}
// values of two functions at n points
struct Shape2 {
    N2 at; std::size_t n, k;
    Shape2(std::size_t n, std::size_t k, const char* name) : at(2, n), n(n), k(k) { vc_fill_mat(at, name, {{0, 0.2, 1}, {0, 0.2, 1}}); }
    double operator()(uint d) const { return at(d, k); }
    template <class A> Q3 values(const A& q) const {
        Q3 r(3, n);
        for (std::size_t j = 0; j < n; ++j) for (int c = 0; c < 3; ++c) r(c, j) = q(c, 0) * at(0, j) + q(c, 1) * at(1, j);
        return r;
    }
};
inline void fill_state(Q3& q, const char* name) { q.resize(3, 2); for (int d = 0; d < 2; ++d) { q(0, d) = REAL(name, -0.3, 0.3); q(1, d) = REAL(name); q(2, d) = REAL(name); } }
inline void data2(SWE::Data& d, const char* prev, const char* next) {
    d.set_ndof(2); d.state.resize(2);
    fill_state(d.state[0].q, prev); fill_state(d.state[1].q, next);
    auto& i = d.internal; i.delta_local.resize(6, 6); i.rhs_local.resize(6); i.rhs_prev.resize(6);
    for (int r = 0; r < 6; ++r) { i.rhs_local[r] = REAL("rhs"); i.rhs_prev[r] = REAL("rhs prev"); for (int c = 0; c < 6; ++c) i.delta_local(r, c) = REAL("delta"); }
}
struct Elem2 {
    std::size_t n, k; SWE::Data data; Shape2 phi, dx, dy; double w;
    Elem2() : n(SIZE("n")), k(vc_index("k", n)), phi(n, k, "phi"), dx(n, k, "dphi/dx"), dy(n, k, "dphi/dy"), w(POS("w")) {
        data.set_ngp_internal(n); data.internal = SWE::Internal(n);
        data2(data, "q prev", "q");
        vc_fill_mat(data.internal.aux_at_gp, "aux", {{0, 1.5, 4}, {1, 0.1, 3}, {3, 1, 1}});
        vc_fill_mat(data.internal.db_at_gp, "slope", {{0, -1, 1}, {0, -1, 1}});
    }
    template <class A> Q3 ComputeUgp(const A& q) { return phi.values(q); }
    template <class A> StatVector<double, 3> IntegrationPhi(uint i, const A& u) { return StatVector<double, 3>(w * phi(i) * u.col(k)); }
    template <class A> StatVector<double, 3> IntegrationDPhi(uint dir, uint i, const A& u) { return StatVector<double, 3>(w * (dir ? dy : dx)(i) * u.col(k)); }
    template <class A> StatVector<double, 9> IntegrationPhiPhi(uint j, uint i, const A& u) { return StatVector<double, 9>(w * phi(j) * phi(i) * u.col(k)); }
    template <class A> StatVector<double, 9> IntegrationPhiDPhi(uint j, uint dir, uint i, const A& u) { return StatVector<double, 9>(w * phi(j) * (dir ? dy : dx)(i) * u.col(k)); }
    template <class F> Q3 ComputeFgp(const F&) { return Q3::Zero(3, n); }
    double at(int s, int c) const { return data.state[s].q(c, 0) * phi(0) + data.state[s].q(c, 1) * phi(1); }
    double h(int s) const { return at(s, 0) + data.internal.aux_at_gp(0, k); }
};
// a side of an element: its state containers and basis values at the n points of the side
struct Side2 {
    SWE::Data data; Shape2 phi; double w; std::size_t k;
    Side2(std::size_t n, std::size_t k, double w, const char* phi, const char* prev, const char* q) : phi(n, k, phi), w(w), k(k) {
        data.set_nbound(1); data.set_ngp_boundary(0, n); data.boundary.resize(1); data.boundary[0] = SWE::Boundary(n);
        data2(data, prev, q);
        auto& B = b();
        vc_fill_mat(B.aux_at_gp, "side aux", {{0, 1.5, 4}, {1, 0.1, 3}, {3, 1, 1}});
        vc_fill_mat(B.q_at_gp, "side q", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
        B.delta_hat_local.resize(6, 6); B.delta_global.resize(6, 6);
    }
    SWE::Boundary& b() { return data.boundary[0]; }
    double at(int s, int c) const { return data.state[s].q(c, 0) * phi(0) + data.state[s].q(c, 1) * phi(1); }
    template <class A> StatVector<double, 3> p(uint i, const A& u) const { return StatVector<double, 3>(w * phi(i) * u.col(k)); }
    template <class A> StatVector<double, 9> pp(uint i, uint j, const A& u) const { return StatVector<double, 9>(w * phi(i) * phi(j) * u.col(k)); }
    template <class A> StatVector<double, 9> pl(uint i, double l, const A& u) const { return StatVector<double, 9>(w * phi(i) * l * u.col(k)); }
};
template <class Cond> struct Bound2 {
    std::size_t n, k; double w; Side2 in; SWE::Data& data; uint bound_id = 0; N2 surface_normal; Cond boundary_condition;
    Bound2(std::size_t n, std::size_t k) : n(n), k(k), w(POS("w")), in(n, k, w, "phi", "q prev", "q"), data(in.data), surface_normal(2, n) { vc_fill_unit(surface_normal.data(), n, "n"); }
    template <class A> Q3 ComputeUgp(const A& q) { return in.phi.values(q); }
    template <class A> StatVector<double, 3> IntegrationPhi(uint i, const A& u) { return in.p(i, u); }
    template <class A> StatVector<double, 9> IntegrationPhiPhi(uint i, uint j, const A& u) { return in.pp(i, j, u); }
};
template <class Spec> struct Iface2 {
    std::size_t n, k; double w; Side2 in, ex; SWE::Data &data_in, &data_ex; uint bound_id_in = 0, bound_id_ex = 0; N2 surface_normal_in, surface_normal_ex; Spec specialization;
    Iface2(std::size_t n, std::size_t k) : n(n), k(k), w(POS("w")), in(n, k, w, "phi", "q prev", "q"), ex(n, n - 1 - k, w, "phi ex", "q ex prev", "q ex"), data_in(in.data), data_ex(ex.data), surface_normal_in(2, n), surface_normal_ex(2, n) {
        vc_fill_unit(surface_normal_in.data(), n, "n");
        for (std::size_t j = 0; j < n; ++j) for (int r = 0; r < 2; ++r) surface_normal_ex(r, j) = -surface_normal_in(r, n - 1 - j);
    }
    template <class A> Q3 ComputeUgpIN(const A& q) { return in.phi.values(q); }
    template <class A> Q3 ComputeUgpEX(const A& q) { return ex.phi.values(q); }
    template <class A> StatVector<double, 3> IntegrationPhiIN(uint i, const A& u) { return in.p(i, u); }
    template <class A> StatVector<double, 3> IntegrationPhiEX(uint i, const A& u) { return ex.p(i, u); }
    template <class A> StatVector<double, 9> IntegrationPhiPhiIN(uint i, uint j, const A& u) { return in.pp(i, j, u); }
    template <class A> StatVector<double, 9> IntegrationPhiPhiEX(uint i, uint j, const A& u) { return ex.pp(i, j, u); }
};
struct Edge2 {
    std::size_t n, k; double w; SWE::EdgeData edge_data; Shape2 lambda;
    Edge2(std::size_t n, std::size_t k, double w) : n(n), k(k), w(w), lambda(n, k, "lambda") {
        edge_data.set_ndof(2); edge_data.set_ngp(n); edge_data.initialize();
        fill_state(edge_data.edge_state.q_hat, "q_hat");
        vc_fill_mat(e().aux_hat_at_gp, "trace aux", {{0, 1.5, 4}, {1, 0.1, 3}, {3, 1, 1}});
        vc_fill_mat(e().q_hat_at_gp, "trace q", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
        e().delta_hat_global.resize(6, 6); e().rhs_global.resize(6);
    }
    SWE::EdgeInternal& e() { return edge_data.edge_internal; }
    double at(int c) const { return edge_data.edge_state.q_hat(c, 0) * lambda(0) + edge_data.edge_state.q_hat(c, 1) * lambda(1); }
    double h() { return at(0) + e().aux_hat_at_gp(0, k); }
    // the normal flux and the stabilization of the trace
    void flux(N2& normal, double* F, double* t) {
        Q3 q(3, 1), a(3, 1), G(3, 1); N2 nn(2, 1); AlignedVector<StatMatrix<double, 3, 3>> tau(1);
        for (int r = 0; r < 3; ++r) q(r, 0) = at(r);
        a(0, 0) = e().aux_hat_at_gp(0, k); a(1, 0) = h(); a(2, 0) = 1.0; nn(0, 0) = normal(0, k); nn(1, 0) = normal(1, k);
        SWE::get_Fn(q, a, nn, G); SWE::get_tau_LF(q, a, nn, tau);
        for (int r = 0; r < 3; ++r) { F[r] = G(r, 0); t[r] = tau[0](r, r); }
    }
    void regular(N2& normal) {  // water at the point, away from the kink of the speed
        REQUIRES(h() > 0.0); double un = (at(1) * normal(0, k) + at(2) * normal(1, k)) / h(); REQUIRES(un != 0.0); vc_split(un > 0.0);
        NATIVE_REQUIRES(h() > 0.3 && std::abs(un) > 0.05);
    }
    template <class A> Q3 ComputeUgp(const A& q) { return lambda.values(q); }
    template <class A> StatVector<double, 3> IntegrationLambda(uint i, const A& u) { return StatVector<double, 3>(w * lambda(i) * u.col(k)); }
    template <class A> StatVector<double, 9> IntegrationLambdaLambda(uint i, uint j, const A& u) { return StatVector<double, 9>(w * lambda(i) * lambda(j) * u.col(k)); }
};
template <class Bound> struct EdgeBound2 : Edge2 {
    Bound& boundary;
    EdgeBound2(Bound& b) : Edge2(b.n, b.k, b.w), boundary(b) {}
    template <class A> StatVector<double, 9> IntegrationPhiLambda(uint i, uint j, const A& u) { return boundary.in.pl(i, lambda(j), u); }
};
template <class Iface> struct EdgeInt2 : Edge2 {
    Iface& interface;
    EdgeInt2(Iface& f) : Edge2(f.n, f.k, f.w), interface(f) {}
    template <class A> StatVector<double, 9> IntegrationPhiLambdaIN(uint i, uint j, const A& u) { return interface.in.pl(i, lambda(j), u); }
    template <class A> StatVector<double, 9> IntegrationPhiLambdaEX(uint i, uint j, const A& u) { return interface.ex.pl(i, lambda(j), u); }
};
#endif
