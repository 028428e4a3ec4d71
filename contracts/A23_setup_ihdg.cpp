// The parallel preprocessor of the implicit scheme on any process of one to three.
#define TRACE_PROBLEM "problem/SWE/discretization_IHDG/ihdg_swe_problem.hpp"
#define SETUP_NS SWE::IHDG
#define SETUP_DISC HDGDiscretization<Own>
#define TRACE_GLOBAL StubGlobal
struct StubGlobal;
#include "swe_setup.h"
#include "petsc_stub.h"

#include "problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_init_global_prob.hpp"
#include "problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp"
#include "problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_serial.hpp"
typedef SWE::IHDG::Problem P;
namespace { ImplicitStepper stepper_() { StepperInput i; i.nstages = 1; i.order = 1; i.dt = 1; i.ramp_duration = 0; i.run_time = 1; return ImplicitStepper(i); } }
CONTRACT(processes) {
    stub_small() = false; auto& w = *(world() = new StubWorld); w.size = (int)vc_choose("processes", 1, 3); w.rank = (int)vc_choose("rank", 0, w.size - 1);
    Setup i(2, (uint)vc_choose("trace functions", 1, 2), SWE::IHDG::n_communications); StubGlobal g; auto s = stepper_(); const long m = 3 * i.p.nt;
    P::preprocessor_ompi(i.units, g, s, 0, 3);
    i.check(1);
    ENSURES_INT("one gather", w.gathers, 1); ENSURES_INT("one scatter", w.scatters, 1); ENSURES_INT("unknowns of this process", w.mine, 7 * m);
    if (w.rank == 0) { long sum = 0; for (int k = 0; k < w.size; ++k) { ENSURES_INT("processes number one after another", w.scattered[k], sum); sum += w.gathered[k]; } ENSURES_INT("unknowns of all", w.broadcast, sum); }
    ENSURES_INT("size of the system", g.delta_hat_global->n, w.broadcast); ENSURES_INT("size of the right-hand side", g.rhs_global->n, w.broadcast);
    ENSURES("solver on this system", g.ksp->a == g.delta_hat_global);
    // submeshes number one after another, the first one also the shared side
    const long f = w.offset; const std::vector<uint>* id[8] = {&i.p.edge.edge_data.edge_internal.global_dof_indx, &i.p.wall_edge.edge_data.edge_internal.global_dof_indx, &i.p.cut_edge->edge_data.edge_internal.global_dof_indx,
        &i.q.edge.edge_data.edge_internal.global_dof_indx, &i.q.wall_edge.edge_data.edge_internal.global_dof_indx,
        &i.r.edge.edge_data.edge_internal.global_dof_indx, &i.r.wall_edge.edge_data.edge_internal.global_dof_indx, &i.r.cut_edge->edge_data.edge_internal.global_dof_indx};
    const long first[8] = {0, m, 2 * m, 3 * m, 4 * m, 5 * m, 6 * m, 2 * m};
    ENSURES_INT("gathered part", g.sol->n, 8 * m); ENSURES_INT("gathered part", g.from->size(), 8 * m);
    for (int t = 0; t < 8; ++t) { ENSURES_INT("unknowns of a trace", id[t]->size(), m); for (long c = 0; c < m; ++c) { ENSURES_INT("number", (*id[t])[c], f + first[t] + c); ENSURES_INT("gathered in order of the traces", (*g.from)[t * m + c], f + first[t] + c); ENSURES_INT("gathered in order", (*g.to)[t * m + c], t * m + c); } }
    ENSURES("scatter of the solution", g.scatter->from == g.rhs_global && g.scatter->to == g.sol && g.scatter->f == g.from && g.scatter->t == g.to);
    for (uint k = 0; k < 2; ++k) { i.p.check_beds(k); i.q.check_beds(k); i.r.check_beds(k); ENSURES_EQ("mean bed on the shared side", i.p.bath(*i.p.cut_edge, k), (i.p.shared().aux_at_gp(0, k) + i.r.shared().aux_at_gp(0, 1 - k)) / 2.0); }
}
namespace {
struct Sized { int r = -1, c = -1; void resize(int rows, int cols) { r = rows; c = cols; } void resize(int rows) { r = rows; } };
struct SerialGlobal { Sized delta_hat_global, rhs_global; };
struct SerialOwn { typedef Mesh ProblemMeshType; typedef Skeleton ProblemMeshSkeletonType; typedef SerialGlobal ProblemGlobalDataType; typedef double ProblemInputType; typedef int ProblemWriterType; };
}
CONTRACT(serial) {
    SETUP_SERIAL(HDGDiscretization<SerialOwn>, SerialGlobal) auto s = stepper_(); d.mesh_skeleton = p.discretization.mesh_skeleton;
    P::preprocessor_serial(d, g, s, in);
    ENSURES_INT("initialized once", posted[0], 1); ENSURES_EQ("with the input", heard[0], in); for (auto e : d.mesh.elements) ENSURES_INT("room for the stages", e->data.state.size(), 2);
    for (uint k = 0; k < 2; ++k) p.check_beds(k);
    const int m = 6 * p.nt; ENSURES_INT("size of the system", g.delta_hat_global.r, m); ENSURES_INT("size of the system", g.delta_hat_global.c, m); ENSURES_INT("size of the system", g.rhs_global.r, m);
}
