// The trace unknowns of the implicit scheme before the first step: numbers, beds and starting values.
#define TRACE_PROBLEM "problem/SWE/discretization_IHDG/ihdg_swe_problem.hpp"
#include "swe_trace.h"
#include "problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_init_global_prob.hpp"
typedef SWE::IHDG::Problem P;
namespace {
ImplicitStepper stepper_() { StepperInput i; i.nstages = 1; i.order = 1; i.dt = 1; i.ramp_duration = 0; i.run_time = 1; return ImplicitStepper(i); }
// the numbers of a trace are m consecutive ones from here on
void check_numbers(const std::vector<uint>& indx, long first, uint m) { ENSURES_INT("number of unknowns", indx.size(), m); for (uint c = 0; c < m; ++c) ENSURES_INT("numbers", indx[c], first + c); }
void check_blocks(Part& p, SWE::Boundary& b, SWE::EdgeData& t, const std::vector<uint>& expect) {
    p.check_room(t); const uint m = 3 * p.nt;
    ENSURES_INT("block", b.delta_hat_local.rows(), 6); ENSURES_INT("block", b.delta_hat_local.cols(), m); ENSURES_INT("block", b.delta_global.rows(), m); ENSURES_INT("block", b.delta_global.cols(), 6);
    ENSURES_INT("seen from the element", b.global_dof_indx.size(), m); for (uint c = 0; c < m; ++c) ENSURES_INT("same number seen from the element", b.global_dof_indx[c], expect[c]);
}
// numbers of the interface and the wall of a process start at first
void check_inner(Part& p, long first) {
    const uint m = 3 * p.nt; auto &t = p.edge.edge_data, &w = p.wall_edge.edge_data;
    check_numbers(t.edge_internal.global_dof_indx, first, m); check_numbers(w.edge_internal.global_dof_indx, first + m, m);
    check_blocks(p, Part::side(p.face, true), t, t.edge_internal.global_dof_indx); check_blocks(p, Part::side(p.face, false), t, t.edge_internal.global_dof_indx);
    check_blocks(p, p.e.data.boundary[p.wall.bound_id], w, w.edge_internal.global_dof_indx);
    ENSURES_INT("trace of the face started", p.face.specialization.calls, 1); ENSURES_INT("trace of the wall started", p.wall.boundary_condition.calls, 1);
}
}
CONTRACT(one_process) {
    std::size_t n = SIZE("n"), k = vc_index("k", n); Part p(n, (uint)vc_choose("trace functions", 1, 2), (uint)vc_choose("side", 0, 2), (uint)vc_choose("other side", 0, 2));
    uint first = (uint)vc_int("first", 0, 1000000), next = first;
    P::initialize_global_problem_serial(p.discretization, stepper_(), next);
    p.check_beds(k); check_inner(p, first); ENSURES_INT("next free number", next, (long)first + 6 * p.nt);
    for (Element* e : {&p.e, &p.f}) { auto& i = e->data.internal; ENSURES_INT("block", i.delta_local.rows(), 6); ENSURES_INT("block", i.delta_local.cols(), 6); ENSURES_INT("block", i.rhs_local.size(), 6); ENSURES_INT("block", i.rhs_prev.size(), 6); }
}
// two submeshes of one or two processes; the one that comes first numbers the shared side
CONTRACT(two_submeshes) {
    std::size_t n = SIZE("n"), k = vc_index("k", n), off = SIZE("offset", 0, 1000); uint b = (uint)vc_choose("side", 0, 2), nt = (uint)vc_choose("trace functions", 1, 2);
    const bool same = vc_choose("same process", 0, 1), first = vc_choose("comes first", 0, 1), reversed = vc_choose("submesh numbers the other way", 0, 1);
    uint lo = (uint)vc_choose("rank", 0, 1), hi = lo + 1, locs[2] = {same ? lo : first ? lo : hi, same ? lo : first ? hi : lo}, subs[2] = {0, 0};
    if (same) { subs[0] = first ? 2 : 5; subs[1] = first ? 5 : 2; } else { subs[0] = reversed == first ? 4 : 3; subs[1] = reversed == first ? 3 : 4; }
    Part p(n, nt, 0, b), r(n, nt, 1, 2 - b); Wire pr(3), rp(3); const int C = SWE::IHDG::CommTypes::init_global_prob; const uint m = 3 * nt;
    pr[C].resize(off + 4 * n + 1); rp[C].resize(off + 4 * n + 1);
    std::vector<uint> o(3, 0); o[C] = off;
    p.split(locs[0], subs[0], locs[1], subs[1], o, pr, rp); r.split(locs[1], subs[1], locs[0], subs[0], o, rp, pr);
    uint np = 0, nr = 0; auto s = stepper_();
    P::initialize_global_problem_parallel_pre_send(p.discretization, s, np); P::initialize_global_problem_parallel_pre_send(r.discretization, s, nr);
    ENSURES_INT("unknowns of this submesh", np, (first ? 3 : 2) * m); ENSURES_INT("unknowns of the other", nr, (first ? 2 : 3) * m);
    uint fp = (uint)vc_int("first number here", 0, 1000000), fr = (uint)vc_int("first number there", 0, 1000000);
    P::initialize_global_problem_parallel_finalize_pre_send(p.discretization, fp); P::initialize_global_problem_parallel_finalize_pre_send(r.discretization, fr);
    std::vector<uint> gp(4, 7), gr;
    P::initialize_global_problem_parallel_post_receive(p.discretization, gp); P::initialize_global_problem_parallel_post_receive(r.discretization, gr);
    p.check_beds(k); check_inner(p, fp); check_inner(r, fr);
    const long shared = (first ? (long)fp : (long)fr) + 2 * m;
    auto &tp = p.cut_edge->edge_data.edge_internal, &tr = r.cut_edge->edge_data.edge_internal;
    check_numbers(tp.global_dof_indx, shared, m); check_numbers(tr.global_dof_indx, shared, m);
    check_blocks(p, p.shared(), p.cut_edge->edge_data, tp.global_dof_indx); check_blocks(r, r.shared(), r.cut_edge->edge_data, tr.global_dof_indx);
    // where each trace finds its part of the gathered solution
    auto gathered = [m](const std::vector<uint>& g, SWE::EdgeInternal& t) { ENSURES("room", t.sol_offset + m <= g.size()); for (uint c = 0; c < m; ++c) ENSURES_INT("gathered", g[t.sol_offset + c], t.global_dof_indx[c]); };
    ENSURES_INT("gathered here", gp.size(), 4 + 3 * m); ENSURES_INT("gathered there", gr.size(), 3 * m);
    for (Part* x : {&p, &r}) { auto& g = x == &p ? gp : gr; gathered(g, x->edge.edge_data.edge_internal); gathered(g, x->wall_edge.edge_data.edge_internal); gathered(g, x->cut_edge->edge_data.edge_internal); }
    ENSURES_INT("couplings of the face", p.edge.edge_data.edge_internal.delta_hat_global_con_flat.size(), 4);
    ENSURES_INT("couplings of the wall", p.wall_edge.edge_data.edge_internal.delta_hat_global_con_flat.size(), 2);
    ENSURES_INT("couplings of the shared side", tp.delta_hat_global_con_flat.size(), 2);
    // bed and starting state
    double mean = (p.shared().aux_at_gp(0, k) + r.shared().aux_at_gp(0, n - 1 - k)) / 2.0;
    ENSURES_EQ("mean bed on the shared side", p.bath(*p.cut_edge, k), mean); ENSURES_EQ("same bed on the other side", r.bath(*r.cut_edge, n - 1 - k), mean);
    ENSURES_INT("trace of the shared side started", p.cut->boundary_condition.calls, 1);
    for (int c = 0; c < 3; ++c) { ENSURES_EQ("own state", p.shared().q_at_gp(c, k), p.f.data.state[0].q(c, k)); ENSURES_EQ("state of the neighbour at the same place", p.cut->boundary_condition.ex(c, k), r.f.data.state[0].q(c, n - 1 - k)); }
}
