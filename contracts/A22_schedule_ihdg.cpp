// The implicit scheme: everything known before the Newton loop is gathered once, then local and global parts alternate until
// the solver says so (or a hundred times); each pass starts from the state the previous pass left.
#define SCHEDULE_PROBLEM "problem/SWE/discretization_IHDG/ihdg_swe_problem.hpp"
#define SCHEDULE_HDG
#define SCHEDULE_IMPLICIT
#define IHDG_SWE_PROC_OMPI_SOL_GLOB_PROB_HPP  // the parallel solver itself needs PETSc
#define EDGE_COMM 0
#include "swe_schedule.h"
#include "problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_step.hpp"
#include "problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp"
typedef SWE::IHDG::Problem P;
using namespace sched;
namespace { int solves, until; }
namespace sched {
// what is known before (P) and what one pass computes (R) live in the right-hand sides of the two states
inline Q3& old(Data& d) { return d.state[0].rhs; }
inline Q3& now(Data& d) { return d.state[1].rhs; }
inline Q3& nxt(Data& d) { return d.state[1].q; }
inline void correct(Disc& d) {
    d.mesh.CallForEachElement([](Elem& e) { nxt(e.data) += k()->inv * now(e.data); });
    d.mesh_skeleton.CallForEachEdgeInterface([](EdgeInt& e) { nxt(e.interface.data_in) += k()->f_in * e.interface.flux; nxt(e.interface.data_ex) += k()->f_ex * e.interface.flux; });
    d.mesh_skeleton.CallForEachEdgeBoundary([](EdgeBound& e) { nxt(e.boundary.data) += k()->mirror * e.boundary.flux; });
    d.mesh_skeleton.CallForEachEdgeDistributed([](EdgeDist& e) { nxt(e.boundary.data) += k()->nb * e.boundary.flux; });
}
}
namespace SWE { namespace IHDG {
typedef ImplicitStepper S;
template <> void Problem::init_volume_kernel(const S&, Elem& e) { auto& d = e.data; nxt(d) = k()->wd0 * d.state[0].q; old(d) = k()->vol * d.state[0].q; }
template <> void Problem::init_source_kernel(const S&, Elem& e) { auto& d = e.data; old(d) += k()->src * (d.forcing * d.state[0].q); }
template <> void Problem::init_interface_kernel(const S&, Iface& i) { i.t_in = k()->own * i.data_in.state[0].q; i.t_ex = k()->other * i.data_ex.state[0].q; }
template <> void Problem::init_boundary_kernel(const S&, Bound& b) { b.t = k()->bnd * b.data.state[0].q; }
template <> void Problem::init_distributed_boundary_kernel(const S&, DBound& b) { b.t = k()->wd1 * b.data.state[0].q; }
template <> void Problem::init_edge_interface_kernel(const S&, EdgeInt& e) { auto& i = e.interface; old(i.data_in) += k()->trace * (i.t_in + i.t_ex); old(i.data_ex) += k()->flag * (i.t_in + i.t_ex); }
template <> void Problem::init_edge_boundary_kernel(const S&, EdgeBound& e) { old(e.boundary.data) += k()->trace * e.boundary.t; }
template <> void Problem::init_edge_distributed_kernel(const S&, EdgeDist& e) { old(e.boundary.data) += k()->flag * e.boundary.t; }
template <> void Problem::local_volume_kernel(const S&, Elem& e) { auto& d = e.data; now(d) = k()->vol * nxt(d) + old(d); }
template <> void Problem::local_source_kernel(const S&, Elem& e) { auto& d = e.data; now(d) += k()->src * (d.forcing * nxt(d)); }
template <> void Problem::local_interface_kernel(const S&, Iface& i) { i.t_in = k()->own * nxt(i.data_in); i.t_ex = k()->other * nxt(i.data_ex); }
template <> void Problem::local_boundary_kernel(const S&, Bound& b) { b.t = k()->bnd * nxt(b.data); }
template <> void Problem::local_distributed_boundary_kernel(const S&, DBound& b) { b.t = k()->wd1 * nxt(b.data); }
template <> void Problem::local_edge_interface_kernel(const S&, EdgeInt& e) { auto& i = e.interface; now(i.data_in) += k()->trace * (i.t_in + i.t_ex); now(i.data_ex) += k()->flag * (i.t_in + i.t_ex); }
template <> void Problem::local_edge_boundary_kernel(const S&, EdgeBound& e) { now(e.boundary.data) += k()->trace * e.boundary.t; }
template <> void Problem::local_edge_distributed_kernel(const S&, EdgeDist& e) { now(e.boundary.data) += k()->flag * e.boundary.t; }
template <> void Problem::global_edge_interface_kernel(const S&, EdgeInt& e) { auto& i = e.interface; i.flux = k()->avg * now(i.data_in) + k()->lim * now(i.data_ex); }
template <> void Problem::global_edge_boundary_kernel(const S&, EdgeBound& e) { e.boundary.flux = k()->avg * now(e.boundary.data); }
template <> void Problem::global_edge_distributed_kernel(const S&, EdgeDist& e) { e.boundary.flux = k()->lim * now(e.boundary.data); }
template <> bool Problem::serial_solve_global_problem(Disc& d, int&, const S&) { correct(d); return ++solves == until; }
template <> bool Problem::ompi_solve_global_problem(std::vector<std::unique_ptr<Unit<Own>>>& u, int&, const S&, const uint from, const uint to) { for (uint i = from; i < to; ++i) correct(u[i]->discretization); return ++solves == until; }
}}
namespace {
struct Setup {
    Elem a, b; std::vector<std::unique_ptr<Unit<Own>>> units; Disc whole; ImplicitStepper s; Two t; int global = 0; bool dist;
    static ImplicitStepper make() { StepperInput i; i.nstages = 1; i.order = (uint)vc_choose("order", 1, 2); i.dt = POS("dt"); i.ramp_duration = 0; i.run_time = 1; return ImplicitStepper(i); }
    Setup(bool any, bool dist) : s(make()), dist(dist) {
        k() = new K(any); solves = 0; SWE::PostProcessing::wetting_drying = false; SWE::PostProcessing::slope_limiting = vc_choose("slope limiting", 0, 1);
        if (dist) {
            for (int j = 0; j < 2; ++j) units.emplace_back(new Unit<Own>());
            for (int j = 0; j < 2; ++j) {
                auto& u = *units[j]; Elem& e = j ? b : a; auto& d = u.discretization; d.mesh.elements.push_back(&e); add(d, e);
                auto* x = new DBound(e.data, j == 0); d.mesh.dbounds.push_back(x); d.mesh_skeleton.dists.push_back(new EdgeDist{*x, 0});
                u.communicator.b = x; u.communicator.partner = &units[1 - j]->communicator;
            }
        } else {
            whole.mesh.elements = {&a, &b}; auto* i = new Iface{a.data, b.data}; whole.mesh.interfaces.push_back(i); add(whole, a); add(whole, b); whole.mesh_skeleton.ints.push_back(new EdgeInt{*i});
        }
        t.of(&a, &b);
    }
    void add(Disc& d, Elem& e) { auto* x = new Bound{e.data}; d.mesh.boundaries.push_back(x); d.mesh_skeleton.bounds.push_back(new EdgeBound{*x}); }
    Q3 local(const Q3* v, int j) const {
        const K& c = *k(); Q3 wall = c.trace * (c.bnd * v[j]);
        Q3 side = dist ? Q3(c.flag * (c.wd1 * v[j])) : Q3((j ? c.flag : c.trace) * (c.own * v[0] + c.other * v[1]));
        return c.vol * v[j] + c.src * (t.forcing[j] * v[j]) + side + wall;
    }
    void spec(int passes) {
        const K& c = *k(); Q3 known[2] = {local(t.q[0], 0), local(t.q[0], 1)}, v[2] = {Q3(c.wd0 * t.q[0][0]), Q3(c.wd0 * t.q[0][1])};
        for (int i = 0; i < passes; ++i) {
            Q3 r[2] = {Q3(known[0] + local(v, 0)), Q3(known[1] + local(v, 1))};
            for (int j = 0; j < 2; ++j) v[j] += c.inv * r[j] + c.mirror * (c.avg * r[j]) + (dist ? Q3(c.nb * (c.lim * r[j])) : Q3((j ? c.f_ex : c.f_in) * (c.avg * r[0] + c.lim * r[1])));
        }
        for (int j = 0; j < 2; ++j) { t.q[1][j] = t.q[0][j]; t.q[0][j] = v[j]; }
        if (SWE::PostProcessing::slope_limiting) t.limit(0);
    }
    void compare() { for (int j = 0; j < 2; ++j) for (int c = 0; c < 3; ++c) ENSURES_EQ("state", (j ? b : a).data.state[0].q(c, 0), t.q[0][j](c, 0)); }
};
void stage(bool dist) {
    Setup u(true, dist); until = (int)vc_choose("passes", 1, 2); uint stamp = u.s.GetTimestamp();
    if (dist) P::stage_ompi(u.units, u.global, u.s, 0, 2); else P::stage_serial(u.whole, u.global, u.s);
    u.spec(until); u.compare(); ENSURES_INT("solves", solves, until); ENSURES_INT("one increment", u.s.GetTimestamp(), stamp + 1);
    if (dist) for (auto& x : u.units) x->communicator.idle();
}
void step(bool dist) {
    Setup u(false, dist); until = 1; bool parse = vc_choose("input", 0, 1), write = vc_choose("output", 0, 1); double f = REAL("forcing");
    Parser p; Writer_ w; p.on = parse; w.on = write; p.force = {f};
    for (auto& x : u.units) { x->parser = p; x->writer.on = write; }
    uint before = u.s.GetStep(); if (parse) u.t.forcing[0] = u.t.forcing[1] = f;
    if (dist) P::step_ompi(u.units, u.global, u.s, 0, 2); else P::step_serial(u.whole, u.global, u.s, w, p);
    u.spec(1); u.compare(); ENSURES_INT("one step", u.s.GetStep(), before + 1); ENSURES_INT("one solve", solves, 1);
    auto out = [&](Parser& p, Writer_& w, int j, int n) {
        ENSURES_INT("input read once per stage", p.calls, parse ? 1 : 0); ENSURES_INT("output written once per step", w.calls, write ? 1 : 0);
        if (write) for (int i = 0; i < n; ++i) for (int c = 0; c < 3; ++c) ENSURES_EQ("output of the new state", w.seen[i](c, 0), u.t.q[0][j + i](c, 0));
    };
    if (dist) { for (int j = 0; j < 2; ++j) { out(u.units[j]->parser, u.units[j]->writer, j, 1); u.units[j]->communicator.idle(); } } else out(p, w, 0, 2);
}
// a step that never converges gives up after a hundred passes and still ends the step
void endless(bool dist) {
    Setup u(false, dist); *k() = K(false); double* p = &k()->vol; for (int i = 0; i < 16; ++i) p[i] = 0; k()->wd0 = 1; k()->lim = 1; until = 0; uint before = u.s.GetStep();
    if (dist) P::stage_ompi(u.units, u.global, u.s, 0, 2); else P::stage_serial(u.whole, u.global, u.s);
    ENSURES_INT("passes", solves, 100); ENSURES_INT("one step", u.s.GetStep(), before + 1); u.compare();
}
}
CONTRACT(stage_serial) { stage(false); }
CONTRACT(stage_distributed) { stage(true); }
CONTRACT(step_serial) { step(false); }
CONTRACT(step_distributed) { step(true); }
CONTRACT(endless_serial) { endless(false); }
CONTRACT(endless_distributed) { endless(true); }
