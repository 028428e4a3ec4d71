// One Newton step of the implicit scheme on two elements that share a side (any side of each), with arbitrary element,
// coupling and trace blocks.  Assumed: inverse() returns some matrix, the sparse solver returns some vector x; what is
// checked holds for every such matrix and vector, so for exact ones the step solves the whole coupled system.
#include "swe_stub.h"
#include <sstream>
#include <fstream>
#include <iostream>
namespace {
constexpr int NE = 2;                       // elements
DynMatrix<double> *block[NE], *inv[NE];  // element blocks and their inverses
DynVector<double>* residual; int solves;  // A x - b of the sparse system, calls
const DynMatrix<double>& inverse_of(const DynMatrix<double>& m) {
    for (int e = 0; e < NE; ++e) if (m(0, 0) == block[e]->operator()(0, 0)) return *inv[e];
    return *inv[0];
}
}
inline DynMatrix<double> inverse(DynMatrix<double>& m) { return inverse_of(m); }
inline void solve_sle(DynMatrix<double>& m, DynVector<double>& b) { DynVector<double> r = inverse_of(m) * b; b = r; }
inline void solve_sle(SparseMatrix<double>& A, DynVector<double>& b) {
    ++solves; DynVector<double> r = -b;
    DynVector<double> x(b.size()); for (int i = 0; i < x.size(); ++i) x[i] = REAL("x", -1, 1);
    for (int j = 0; j < A.outerSize(); ++j) for (SparseMatrix<double>::InnerIterator it(A, j); it; ++it) r[it.row()] += it.value() * x[it.col()];
    *residual = r; b = x;
}
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#include "problem/SWE/discretization_IHDG/ihdg_swe_problem.hpp"
#include "problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_sol_glob_prob.hpp"
#include "problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_init_global_prob.hpp"
namespace {
struct Element { SWE::Data data; };
struct None { template <class... A> void ComputeInitTrace(A&&...) {} };
struct Interface { SWE::Data &data_in, &data_ex; uint bound_id_in, bound_id_ex; None specialization; };
struct Bound { SWE::Data& data; uint bound_id; None boundary_condition; };
struct EdgeInt { SWE::EdgeData edge_data; Interface& interface; };
struct EdgeBound { SWE::EdgeData edge_data; Bound& boundary; };
struct Mesh { std::vector<Element*> elements; template <class F> void CallForEachElement(const F& f) { for (auto e : elements) f(*e); } };
struct Skeleton {
    std::vector<EdgeInt*> ints; std::vector<EdgeBound*> bounds;
    template <class F> void CallForEachEdgeInterface(const F& f) { for (auto e : ints) f(*e); }
    template <class F> void CallForEachEdgeBoundary(const F& f) { for (auto e : bounds) f(*e); }
    template <class F> void CallForEachEdgeDistributed(const F&) {}
};
struct Own { typedef Mesh ProblemMeshType; typedef Skeleton ProblemMeshSkeletonType; typedef SWE::GlobalData ProblemGlobalDataType; typedef SWE::Inputs ProblemInputType; typedef int ProblemWriterType; };
ImplicitStepper stepper_() { StepperInput i; i.nstages = 1; i.order = 1; i.dt = 1; i.ramp_duration = 0; i.run_time = 1; return ImplicitStepper(i); }
struct In {
    uint nd, nt; Element el[NE]; Interface face; EdgeInt edge; std::vector<EdgeBound*> be; std::vector<Bound*> bb;
    HDGDiscretization<Own> d; SWE::GlobalData g; ImplicitStepper s; uint dofs = 0;
    In(uint nd, uint nt) : nd(nd), nt(nt), face{el[0].data, el[1].data, (uint)vc_choose("side in", 0, 2), (uint)vc_choose("side ex", 0, 2), {}}, edge{{}, face}, s(stepper_()) {
        for (int e = 0; e < NE; ++e) {
            auto& D = el[e].data; D.set_ndof(nd); D.set_nbound(3); D.boundary.resize(3); D.state.resize(2);
            for (uint b = 0; b < 3; ++b) { D.set_ngp_boundary(b, 1); D.boundary[b] = SWE::Boundary(1); vc_fill_mat(D.boundary[b].aux_at_gp, "bath", {{0, 1, 3}, {1, 1, 1}, {3, 1, 1}}); }
            D.state[1].q.resize(3, nd); for (uint j = 0; j < nd; ++j) for (int c = 0; c < 3; ++c) D.state[1].q(c, j) = REAL("q");
            d.mesh.elements.push_back(&el[e]);
        }
        trace(edge.edge_data); d.mesh_skeleton.ints.push_back(&edge);
        for (int e = 0; e < NE; ++e) for (uint b = 0; b < 3; ++b) if (b != (e ? face.bound_id_ex : face.bound_id_in)) {
            bb.push_back(new Bound{el[e].data, b, {}}); be.push_back(new EdgeBound{{}, *bb.back()}); trace(be.back()->edge_data); d.mesh_skeleton.bounds.push_back(be.back());
        }
        SWE::IHDG::Problem::initialize_global_problem_serial(d, s, dofs);
        g.delta_hat_global.resize(dofs, dofs); g.rhs_global.resize(dofs);
    }
    void trace(SWE::EdgeData& t) { t.set_ndof(nt); t.set_ngp(1); t.initialize(); t.edge_state.q_hat.resize(3, nt); for (uint j = 0; j < nt; ++j) for (int c = 0; c < 3; ++c) t.edge_state.q_hat(c, j) = REAL("q_hat"); }
    template <class M> static void any(M& m, const char* name) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = REAL(name); }
    void blocks() {
        for (int e = 0; e < NE; ++e) {
            auto& D = el[e].data; auto& I = D.internal;
            any(I.delta_local, "delta_local"); I.delta_local(0, 0) = e + 2.0; block[e] = &I.delta_local; any(I.rhs_local, "rhs_local");
            inv[e] = new DynMatrix<double>(3 * nd, 3 * nd); any(*inv[e], "inverse");
            for (uint b = 0; b < 3; ++b) { any(D.boundary[b].delta_hat_local, "delta_hat_local"); any(D.boundary[b].delta_global, "delta_global"); }
        }
        each([&](SWE::EdgeData& t, int, uint) { any(t.edge_internal.delta_hat_global, "delta_hat_global"); any(t.edge_internal.rhs_global, "rhs_global"); });
    }
    template <class F> void each(F f) { f(edge.edge_data, -1, 0); for (auto e : be) f(e->edge_data, &e->boundary.data == &el[1].data, e->boundary.bound_id); }
    SWE::EdgeData& side(int e, uint b) {  // the trace on side b of element e
        if (b == (e ? face.bound_id_ex : face.bound_id_in)) return edge.edge_data;
        for (auto x : be) if (&x->boundary.data == &el[e].data && x->boundary.bound_id == b) return x->edge_data;
        return edge.edge_data;
    }
};
void newton(uint nd, uint nt) {
    In i(nd, nt); i.blocks(); solves = 0; residual = new DynVector<double>;
    const int n = 3 * nd, m = 3 * nt;
    std::vector<DynVector<double>> r(NE), qe(NE), dq(NE);
    auto flat = [&](int e) { DynVector<double> v(n); for (int k = 0; k < n; ++k) v[k] = i.el[e].data.state[1].q(k % 3, k / 3); return v; };
    auto hat = [&](SWE::EdgeData& t) { DynVector<double> v(m); for (int k = 0; k < m; ++k) v[k] = t.edge_state.q_hat(k % 3, k / 3); return v; };
    for (int e = 0; e < NE; ++e) { r[e] = i.el[e].data.internal.rhs_local; qe[e] = flat(e); }
    std::vector<DynVector<double>> h0, b0; std::vector<DynMatrix<double>> D0;
    i.each([&](SWE::EdgeData& t, int, uint) { h0.push_back(hat(t)); b0.push_back(t.edge_internal.rhs_global); D0.push_back(t.edge_internal.delta_hat_global); });
    bool done = SWE::IHDG::Problem::serial_solve_global_problem(i.d, i.g, i.s);
    ENSURES_INT("one sparse solve", solves, 1);
    // traces move by the solution at their own unknowns
    std::size_t k = 0; double sum = 0;
    i.each([&](SWE::EdgeData& t, int, uint) {
        DynVector<double> now = hat(t);
        for (int c = 0; c < m; ++c) { double x = i.g.rhs_global[t.edge_internal.global_dof_indx[c]]; sum += x * x; ENSURES_EQ("trace update", now[c], h0[k][c] + x); }
        ++k;
    });
    for (int e = 0; e < NE; ++e) {  // delta_local dq + sum over the sides of delta_hat_local dq_hat = rhs_local
        DynVector<double> t = r[e];
        for (uint b = 0; b < 3; ++b) for (int a = 0; a < n; ++a) for (int c = 0; c < m; ++c)
            t[a] -= i.el[e].data.boundary[b].delta_hat_local(a, c) * i.g.rhs_global[i.side(e, b).edge_internal.global_dof_indx[c]];
        DynVector<double> now = flat(e); dq[e] = now - qe[e];
        for (int a = 0; a < n; ++a) { double v = qe[e][a]; for (int c = 0; c < n; ++c) v += (*inv[e])(a, c) * t[c]; ENSURES_EQ("element update", now[a], v); }
    }
    k = 0;  // the equation of every trace, with the element updates above
    i.each([&](SWE::EdgeData& t, int e, uint b) {
        auto& id = t.edge_internal.global_dof_indx;
        for (int a = 0; a < m; ++a) {
            double v = -b0[k][a];
            for (int c = 0; c < m; ++c) v += D0[k](a, c) * i.g.rhs_global[id[c]];
            for (int s = 0; s < NE; ++s) if (e < 0 || s == e)
                for (int c = 0; c < n; ++c) v += i.el[s].data.boundary[e < 0 ? (s ? i.face.bound_id_ex : i.face.bound_id_in) : b].delta_global(a, c) * dq[s][c];
            ENSURES_EQ("trace equation", (*residual)[id[a]], v);
        }
        ++k;
    });
    double lim = 1e-6 * i.dofs, tiny = 1e-12;
    if (done) ENSURES_LE("converged only when nothing moves", std::sqrt(sum), lim); else ENSURES_LE("no needless iteration", tiny, std::sqrt(sum));
}
}
CONTRACT(numbering) {  // every unknown of every trace has a row of its own, shared by both sides
    uint nt = (uint)vc_choose("trace functions", 1, 3); In i(2, nt);
    ENSURES_INT("unknowns", i.dofs, 15 * nt);
    std::vector<int> used(i.dofs, 0);
    i.each([&](SWE::EdgeData& t, int, uint) { ENSURES_INT("per trace", t.edge_internal.global_dof_indx.size(), 3 * nt); for (uint k : t.edge_internal.global_dof_indx) { ENSURES("in range", k < i.dofs); if (k < i.dofs) ++used[k]; } });
    for (int u : used) ENSURES_INT("once", u, 1);
    i.each([&](SWE::EdgeData& t, int, uint) { for (uint c = 1; c < t.edge_internal.global_dof_indx.size(); ++c) ENSURES_INT("consecutive", t.edge_internal.global_dof_indx[c], t.edge_internal.global_dof_indx[0] + c); });
    for (int e = 0; e < NE; ++e) for (uint b = 0; b < 3; ++b) {
        auto& B = i.el[e].data.boundary[b]; auto& t = i.side(e, b).edge_internal;
        for (uint c = 0; c < 3 * nt; ++c) ENSURES_INT("same on the side", B.global_dof_indx[c], t.global_dof_indx[c]);
    }
}
CONTRACT(newton_1_1) { newton(1, 1); }
CONTRACT(newton_2_1) { newton(2, 1); }
CONTRACT(newton_1_2) { newton(1, 2); }
