// The trace unknowns of the explicit hybridized scheme before the first step.
#define TRACE_PROBLEM "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#include "swe_trace.h"
#include "problem/SWE/discretization_EHDG/kernels_preprocessor/ehdg_swe_pre_init_global_prob.hpp"
typedef SWE::EHDG::Problem P;
namespace {
void check_zero(Part& p, SWE::EdgeData& t) { p.check_room(t); for (uint j = 0; j < p.nt; ++j) for (int c = 0; c < 3; ++c) ENSURES_EQ("trace starts at zero", t.edge_state.q_hat(c, j), 0.0); }
}
CONTRACT(one_process) {
    std::size_t n = SIZE("n"), k = vc_index("k", n); Part p(n, (uint)vc_choose("trace functions", 1, 2), (uint)vc_choose("side", 0, 2), (uint)vc_choose("other side", 0, 2));
    P::initialize_global_problem_serial(p.discretization);
    p.check_beds(k); check_zero(p, p.edge.edge_data); check_zero(p, p.wall_edge.edge_data);
}
CONTRACT(two_processes) {
    std::size_t n = SIZE("n"), k = vc_index("k", n), off = SIZE("offset", 0, 1000); uint b = (uint)vc_choose("side", 0, 2), b2 = (uint)vc_choose("other side", 0, 2);
    Part p(n, 1, 0, b), r(n, 1, 0, b2); Wire pr(4), rp(4); const int C = SWE::EHDG::CommTypes::init_global_prob;
    pr[C].resize(off + n); rp[C].resize(off + n);
    std::vector<uint> o(4, 0); o[C] = off; p.split(0, 0, 1, 0, o, pr, rp); r.split(1, 0, 0, 0, o, rp, pr);
    P::initialize_global_problem_parallel_pre_send(p.discretization); P::initialize_global_problem_parallel_pre_send(r.discretization);
    P::initialize_global_problem_parallel_post_receive(p.discretization); P::initialize_global_problem_parallel_post_receive(r.discretization);
    p.check_beds(k); check_zero(p, p.cut_edge->edge_data);
    double mean = (p.shared().aux_at_gp(0, k) + r.shared().aux_at_gp(0, n - 1 - k)) / 2.0;
    ENSURES_EQ("mean bed on the shared side", p.bath(*p.cut_edge, k), mean); ENSURES_EQ("same bed on the other process", r.bath(*r.cut_edge, n - 1 - k), mean);
}
