// One parallel Newton step on three elements: two in one submesh joined by an interface, the third in another submesh beyond
// a shared side.  The preprocessor numbers the traces; element, coupling and trace blocks are arbitrary.  The same meaning as
// the serial step is required of it.
#include "swe_stub.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <map>
#include "petsc_stub.h"
namespace {
constexpr int NE = 3;
DynMatrix<double> *block[NE], *inv[NE];
const DynMatrix<double>& inverse_of(const DynMatrix<double>& m) { for (int e = 0; e < NE; ++e) if (m(0, 0) == block[e]->operator()(0, 0)) return *inv[e]; return *inv[0]; }
}
inline DynMatrix<double> inverse(DynMatrix<double>& m) { return inverse_of(m); }
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#include "problem/SWE/discretization_IHDG/ihdg_swe_problem.hpp"
#include "problem/SWE/problem_preprocessor/swe_pre_init_data.hpp"
#include "problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_init_global_prob.hpp"
namespace {
struct Element { SWE::Data data; };
struct None { template <class... A> void ComputeInitTrace(A&&...) {} };
struct Cut { DBDataExchanger exchanger; template <class... A> void ComputeInitTrace(A&&...) {} };
struct Interface { SWE::Data &data_in, &data_ex; uint bound_id_in, bound_id_ex; None specialization; };
template <class C> struct Side { SWE::Data& data; uint bound_id; C boundary_condition; template <class A> Q3 ComputeUgp(const A&) { return Q3::Zero(3, 1); } };
struct EdgeInt { SWE::EdgeData edge_data; Interface& interface; };
template <class C> struct EdgeSide { SWE::EdgeData edge_data; Side<C>& boundary; };
struct Mesh { std::vector<Element*> elements; template <class F> void CallForEachElement(const F& f) { for (auto e : elements) f(*e); } };
struct Skeleton {
    std::vector<EdgeInt*> ints; std::vector<EdgeSide<None>*> bounds; std::vector<EdgeSide<Cut>*> dists;
    template <class F> void CallForEachEdgeInterface(const F& f) { for (auto e : ints) f(*e); }
    template <class F> void CallForEachEdgeBoundary(const F& f) { for (auto e : bounds) f(*e); }
    template <class F> void CallForEachEdgeDistributed(const F& f) { for (auto e : dists) f(*e); }
};
struct Comm { void ReceiveAll(uint, uint) {} void SendAll(uint, uint) {} void WaitAllReceives(uint, uint) {} void WaitAllSends(uint, uint) {} };
struct Own { typedef Mesh ProblemMeshType; typedef Skeleton ProblemMeshSkeletonType; typedef StubGlobal ProblemGlobalDataType; typedef int ProblemInputType; typedef int ProblemWriterType; };
template <class> struct Unit { HDGDiscretization<Own> discretization; Comm communicator; int problem_input = 0; };
}
namespace SWE {
template <> inline void initialize_data_parallel_pre_send(Mesh&, const int&, uint) {}
template <> inline void initialize_data_parallel_post_receive(Mesh&, uint) {}
}
#include "problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp"
#include "problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_sol_glob_prob.hpp"
// OPT *: merge=1
namespace {
typedef std::vector<std::vector<double>> Wire;
ImplicitStepper stepper_() { StepperInput i; i.nstages = 1; i.order = 1; i.dt = 1; i.ramp_duration = 0; i.run_time = 1; return ImplicitStepper(i); }
struct In {
    uint nd, nt, m; Element el[NE]; uint a, b, c, d; std::vector<std::unique_ptr<Unit<Own>>> units; StubGlobal g; ImplicitStepper s; Wire pq, qp;
    SWE::EdgeData* at[NE][3];
    // side a of the first element meets side b of the second, whose side c meets side d of the third
    In(uint nd, uint nt) : nd(nd), nt(nt), m(3 * nt), s(stepper_()), pq(3), qp(3) {
        a = (uint)vc_choose("side", 0, 2); b = (a + 1) % 3; c = vc_choose("turned", 0, 1) ? a : (b + 1) % 3; d = (c + 2) % 3;
        world() = new StubWorld;
        for (int e = 0; e < NE; ++e) {
            auto& D = el[e].data; D.set_ndof(nd); D.set_nbound(3); D.boundary.resize(3); D.state.resize(2);
            for (uint x = 0; x < 3; ++x) { D.set_ngp_boundary(x, 1); D.boundary[x] = SWE::Boundary(1); vc_fill_mat(D.boundary[x].aux_at_gp, "bath", {{0, 1, 3}, {1, 1, 1}, {3, 1, 1}}); at[e][x] = nullptr; }
        }
        for (int u = 0; u < 2; ++u) units.emplace_back(new Unit<Own>());
        auto &U = units[0]->discretization, &V = units[1]->discretization;
        U.mesh.elements = {&el[0], &el[1]}; V.mesh.elements = {&el[2]};
        auto* f = new EdgeInt{{}, *new Interface{el[0].data, el[1].data, a, b, {}}}; U.mesh_skeleton.ints.push_back(f); at[0][a] = at[1][b] = &f->edge_data;
        const int C = SWE::IHDG::CommTypes::init_global_prob; pq[C].resize(5); qp[C].resize(5);
        for (int u = 0; u < 2; ++u) {
            auto* x = new EdgeSide<Cut>{{}, *new Side<Cut>{el[u + 1].data, u ? d : c, {DBDataExchanger(0, u, 0, 1 - u, std::vector<uint>(3, 0), u ? pq : qp, u ? qp : pq)}}};
            (u ? V : U).mesh_skeleton.dists.push_back(x); at[u + 1][u ? d : c] = &x->edge_data;
        }
        for (int e = 0; e < NE; ++e) for (uint x = 0; x < 3; ++x) if (!at[e][x]) {
            auto* w = new EdgeSide<None>{{}, *new Side<None>{el[e].data, x, {}}}; (e == 2 ? V : U).mesh_skeleton.bounds.push_back(w); at[e][x] = &w->edge_data;
        }
        for (int e = 0; e < NE; ++e) for (uint x = 0; x < 3; ++x) if (!(e == 1 && x == b)) {
            auto& t = *at[e][x]; t.set_ndof(nt); t.set_ngp(1); t.initialize(); t.edge_state.q_hat.resize(3, nt);
        }
        SWE::IHDG::Problem::preprocessor_ompi(units, g, s, 0, 2);
        // values: the two copies of the shared trace agree
        for (int e = 0; e < NE; ++e) for (uint x = 0; x < 3; ++x) if (!(e == 1 && x == b)) {
            auto& t = *at[e][x]; if (e == 2 && x == d) t.edge_state.q_hat = at[1][c]->edge_state.q_hat; else any(t.edge_state.q_hat, "q_hat");
            any(t.edge_internal.delta_hat_global, "delta_hat_global"); any(t.edge_internal.rhs_global, "rhs_global");
        }
        for (int e = 0; e < NE; ++e) {
            auto& D = el[e].data; auto& I = D.internal; D.state[1].q.resize(3, nd); any(D.state[1].q, "q");
            any(I.delta_local, "delta_local"); I.delta_local(0, 0) = e + 2.0; block[e] = &I.delta_local; any(I.rhs_local, "rhs_local");
            inv[e] = new DynMatrix<double>(3 * nd, 3 * nd); any(*inv[e], "inverse");
            for (uint x = 0; x < 3; ++x) { any(D.boundary[x].delta_hat_local, "delta_hat_local"); any(D.boundary[x].delta_global, "delta_global"); }
        }
    }
    template <class M> static void any(M& m, const char* name) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = REAL(name); }
};
void numbering(uint nt) {
    In i(1, nt); const int m = 3 * nt, N = 7 * m;
    ENSURES_INT("unknowns", i.g.rhs_global->n, N);
    std::vector<int> used(N, 0);
    for (int e = 0; e < NE; ++e) for (uint x = 0; x < 3; ++x) {
        auto& id = i.at[e][x]->edge_internal.global_dof_indx; ENSURES_INT("rows", id.size(), m);
        if (!(e == 1 && x == i.b) && !(e == 2 && x == i.d)) for (uint r : id) { ENSURES("in range", r < (uint)N); if (r < (uint)N) ++used[r]; }
        for (int k = 0; k < m; ++k) ENSURES_INT("seen from the element", i.el[e].data.boundary[x].global_dof_indx[k], id[k]);
    }
    for (int r = 0; r < N; ++r) ENSURES_INT("each row once", used[r], 1);
    for (int k = 0; k < m; ++k) ENSURES_INT("shared trace", i.at[2][i.d]->edge_internal.global_dof_indx[k], i.at[1][i.c]->edge_internal.global_dof_indx[k]);
}
void newton(uint nd, uint nt) {
    In i(nd, nt); const int n = 3 * nd, m = 3 * nt, N = i.g.rhs_global->n;
    typedef DynVector<double> V;
    auto id = [&](int e, uint x) -> std::vector<uint>& { return i.at[e][x]->edge_internal.global_dof_indx; };
    std::vector<V> r(NE), q0(NE), dq(NE); std::map<SWE::EdgeData*, V> h0, b0; std::map<SWE::EdgeData*, DynMatrix<double>> D0;
    auto flat = [&](const HybMatrix<double, 3>& q, int size) { V v(size); for (int k = 0; k < size; ++k) v[k] = q(k % 3, k / 3); return v; };
    for (int e = 0; e < NE; ++e) {
        r[e] = i.el[e].data.internal.rhs_local; q0[e] = flat(i.el[e].data.state[1].q, n);
        for (uint x = 0; x < 3; ++x) { auto* t = i.at[e][x]; h0[t] = flat(t->edge_state.q_hat, m); b0[t] = t->edge_internal.rhs_global; D0[t] = t->edge_internal.delta_hat_global; }
    }
    bool done = SWE::IHDG::Problem::ompi_solve_global_problem(i.units, i.g, i.s, 0, 2);
    auto& k = *i.g.ksp; ENSURES_INT("one sparse solve", k.solves, 1);
    double sum = 0; for (int j = 0; j < N; ++j) sum += k.x[j] * k.x[j];
    auto moved = [&](int e, uint x) { V v(m); for (int c = 0; c < m; ++c) v[c] = k.x[id(e, x)[c]]; return v; };
    for (int e = 0; e < NE; ++e) {
        V t = r[e];
        for (uint x = 0; x < 3; ++x) {
            V d = moved(e, x), now = flat(i.at[e][x]->edge_state.q_hat, m);
            for (int c = 0; c < m; ++c) ENSURES_EQ("trace update", now[c], h0[i.at[e][x]][c] + d[c]);
            t -= i.el[e].data.boundary[x].delta_hat_local * d;
        }
        V now = flat(i.el[e].data.state[1].q, n), step = *inv[e] * t; dq[e] = now - q0[e];
        for (int c = 0; c < n; ++c) ENSURES_EQ("element update", now[c], q0[e][c] + step[c]);
    }
    // the equation of each trace: what its own and the neighbours' movements add
    std::vector<V> done_rows; V eq = V::Zero(N); std::map<SWE::EdgeData*, bool> seen;
    for (int e = 0; e < NE; ++e) for (uint x = 0; x < 3; ++x) {
        auto* t = i.at[e][x]; V v = i.el[e].data.boundary[x].delta_global * dq[e];
        if (!seen[t]) { seen[t] = true; v += D0[t] * moved(e, x) - b0[t]; }
        for (int c = 0; c < m; ++c) eq[id(e, x)[c]] += v[c];
    }
    for (int j = 0; j < N; ++j) ENSURES_EQ("trace equation", k.residual[j], eq[j]);
    for (int j = 0; j < N; ++j) { ENSURES_EQ("cleared for the next step", i.g.rhs_global->a[j], 0.0); for (int c = 0; c < N; ++c) ENSURES_EQ("cleared for the next step", i.g.delta_hat_global->a(j, c), 0.0); }
    const double lim = 1e-6 * N, tiny = 1e-12;
    if (done) ENSURES_LE("converged only when nothing moves", std::sqrt(sum), lim); else ENSURES_LE("no needless iteration", tiny, std::sqrt(sum));
}
}
CONTRACT(parallel_numbering) { numbering((uint)vc_choose("trace functions", 1, 2)); }
CONTRACT(parallel_newton_1_1) { newton(1, 1); }
CONTRACT(parallel_newton_2_1) { newton(2, 1); }
CONTRACT(parallel_newton_1_2) { newton(1, 2); }
