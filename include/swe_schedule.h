// The kernels as contracts: for the types below every kernel is replaced by its effect on a value per element (an arbitrary
// linear map of what it may read); the code under contract is what calls them.  Messages follow the MPI rules: a receive
// buffer holds garbage from ReceiveAll until WaitAllReceives, which needs the partner's SendAll; a send buffer must not
// change until WaitAllSends; every posted operation is waited for before it is posted again.
#ifndef SWE_SCHEDULE_H
#define SWE_SCHEDULE_H
#include "swe_vc.h"
#include <sstream>
#include <fstream>
#include <iostream>
#define MPI_COMM_WORLD 0
inline int MPI_Abort(int, int) { return 0; }
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#ifdef SCHEDULE_IMPLICIT
#include "simulation/stepper/implicit_stepper.hpp"
typedef ImplicitStepper Stepper_;
#else
#define private public
#include "simulation/stepper/explicit_ssp_rk_stepper.hpp"
#undef private
#include "simulation/stepper/explicit_ssp_rk_stepper.cpp"
typedef ESSPRKStepper Stepper_;
#endif
#include SCHEDULE_PROBLEM
#include "problem/SWE/problem_slope_limiter/swe_CS_sl_serial.hpp"
#define SWE_TROUBLE_CHECK_HPP  // the guard of that file is misspelt
#include "problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp"
namespace sched {
struct K {  // coefficients of the linear maps
    double vol, src, own, other, bnd, inv, wd0, wd1, avg, lim, nb, mirror, flag, trace, f_in, f_ex;
    explicit K(bool any) {
        double* p[] = {&vol, &src, &own, &other, &bnd, &inv, &wd0, &wd1, &avg, &lim, &nb, &mirror, &flag, &trace, &f_in, &f_ex};
        int k = 3; for (double* x : p) { *x = any ? REAL("coefficient", -2, 2) : k / 8.0; k = k * 5 % 37; }
    }
};
inline K*& k() { static K* p = nullptr; return p; }
struct State { Q3 q{3, 1}, rhs{3, 1}, solution{3, 1}; };
struct Data {
    std::vector<State> state; double forcing = 0; Q3 avg{3, 1}, nb{3, 1}, mirror{3, 1}, flag{3, 1};
    uint get_ndof() const { return 1; }
};
inline void fill(Q3& q, const char* name) { for (int c = 0; c < 3; ++c) q(c, 0) = REAL(name); }
struct Elem {
    Data data; uint GetID() const { return 0; }
    Elem() { data.state.resize(3); for (auto& s : data.state) { fill(s.q, "q"); fill(s.rhs, "old rhs"); fill(s.solution, "solution"); } fill(data.avg, "old"); fill(data.nb, "old"); fill(data.mirror, "old"); fill(data.flag, "old"); data.forcing = REAL("forcing"); }
    Q3 ApplyMinv(const Q3& r) const { return k()->inv * r; }
};
constexpr int NC = 6;
struct Iface { Data &data_in, &data_ex; Q3 t_in{3, 1}, t_ex{3, 1}, flux{3, 1}; struct S { template <class E> void ComputeNumericalFlux(E& e) { e.flux(); } } specialization; };
struct Bound { Data& data; Q3 t{3, 1}, flux{3, 1}; struct S { template <class St, class E> void ComputeNumericalFlux(const St&, E& e) { e.flux(); } } boundary_condition; };
struct DBound {
    Data& data; bool first; Q3 t{3, 1}, flux{3, 1}; std::vector<Q3> out, in; struct S { template <class E> void ComputeNumericalFlux(E& e) { e.flux(); } } boundary_condition;
    DBound(Data& d, bool first) : data(d), first(first) { for (int c = 0; c < NC; ++c) { out.push_back(Q3(3, 1)); in.push_back(Q3(3, 1)); } }
};
struct EdgeInt { Iface& interface; void flux() { interface.flux = k()->f_in * interface.t_in + k()->f_ex * interface.t_ex; } };
struct EdgeBound { Bound& boundary; void flux() { boundary.flux = k()->f_in * boundary.t; } };
struct EdgeDist { DBound& boundary; int comm; void flux() { Q3 &own = boundary.t, &ex = boundary.in[comm]; boundary.flux = boundary.first ? Q3(k()->f_in * own + k()->f_ex * ex) : Q3(k()->f_in * ex + k()->f_ex * own); } };
struct Mesh {
    std::vector<Elem*> elements; std::vector<Iface*> interfaces; std::vector<Bound*> boundaries; std::vector<DBound*> dbounds;
    template <class F> void CallForEachElement(const F& f) { for (auto e : elements) f(*e); }
    template <class F> void CallForEachInterface(const F& f) { for (auto e : interfaces) f(*e); }
    template <class F> void CallForEachBoundary(const F& f) { for (auto e : boundaries) f(*e); }
    template <class F> void CallForEachDistributedBoundary(const F& f) { for (auto e : dbounds) f(*e); }
};
struct Skeleton {
    std::vector<EdgeInt*> ints; std::vector<EdgeBound*> bounds; std::vector<EdgeDist*> dists;
    template <class F> void CallForEachEdgeInterface(const F& f) { for (auto e : ints) f(*e); }
    template <class F> void CallForEachEdgeBoundary(const F& f) { for (auto e : bounds) f(*e); }
    template <class F> void CallForEachEdgeDistributed(const F& f) { for (auto e : dists) f(*e); }
};
struct Comm {  // one partner
    DBound* b = nullptr; Comm* partner = nullptr; bool sending[NC], receiving[NC]; int sent[NC], got[NC]; Q3 wire[NC];
    Comm() { for (int c = 0; c < NC; ++c) { sending[c] = receiving[c] = false; sent[c] = got[c] = 0; wire[c].resize(3, 1); } }
    void ReceiveAll(uint c, uint) { ENSURES("receive not posted twice", !receiving[c]); receiving[c] = true; fill(b->in[c], "receive buffer before the message arrives"); }
    void SendAll(uint c, uint) { ENSURES("send not posted twice", !sending[c]); sending[c] = true; ++sent[c]; wire[c] = b->out[c]; fill(b->out[c], "send buffer"); hold[c] = b->out[c]; }
    void WaitAllReceives(uint c, uint) {
        ENSURES("receive was posted", receiving[c]); ENSURES("the partner has sent (no deadlock)", partner->sent[c] == got[c] + 1); receiving[c] = false; ++got[c]; b->in[c] = partner->wire[c];
    }
    void WaitAllSends(uint c, uint) { ENSURES("send was posted", sending[c]); sending[c] = false; for (int r = 0; r < 3; ++r) ENSURES_EQ("send buffer untouched", b->out[c](r, 0), hold[c](r, 0)); }
    void idle() { for (int c = 0; c < NC; ++c) { ENSURES("no operation left open", !sending[c] && !receiving[c]); ENSURES("every message received", partner->sent[c] == got[c]); } }
    Q3 hold[NC];
};
struct Log { template <class A> Log& operator<<(const A&) { return *this; } Log& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
struct Parser {
    bool on = true; int calls = 0; std::vector<double> force;
    bool ParsingInput() const { return on; }
    template <class St, class M> void ParseInput(const St&, M& m) { ++calls; m.CallForEachElement([this](Elem& e) { e.data.forcing = force[calls - 1]; }); }
};
struct Writer_ {
    bool on = true; int calls = 0; std::vector<Q3> seen; Log log;
    bool WritingOutput() const { return on; } bool WritingVerboseLog() const { return false; } Log& GetLogFile() { return log; }
    template <class St, class M> void WriteOutput(const St& s, M& m) { ++calls; m.CallForEachElement([this, &s](Elem& e) { seen.push_back(e.data.state[s.GetStage()].q); }); }
};
struct Own { typedef Mesh ProblemMeshType; typedef Skeleton ProblemMeshSkeletonType; typedef int ProblemGlobalDataType; typedef int ProblemInputType; typedef Writer_ ProblemWriterType; typedef Parser ProblemParserType; };
#ifdef SCHEDULE_HDG
typedef HDGDiscretization<Own> Disc;
#define SCHEDULE_DISC HDGDiscretization
#else
typedef DGDiscretization<Own> Disc;
#endif
template <class Pr> struct Unit { Disc discretization; Comm communicator; Writer_ writer; Parser parser; };
// limiter and wetting/drying on the values
inline void wd(Q3& q) { for (int c = 0; c < 3; ++c) q(c, 0) = k()->wd0 + k()->wd1 * q(c, 0); }
}
namespace SWE {
template <> inline void wetting_drying_kernel(const Stepper_& s, sched::Elem& e) { sched::wd(e.data.state[s.GetStage()].q); }
template <> inline void slope_limiting_prepare_element_kernel(const Stepper_& s, sched::Elem& e) { e.data.avg = sched::k()->avg * e.data.state[s.GetStage()].q; }
template <> inline void slope_limiting_prepare_interface_kernel(const Stepper_&, sched::Iface& i) { i.data_in.nb = i.data_ex.avg; i.data_ex.nb = i.data_in.avg; }
template <> inline void slope_limiting_prepare_boundary_kernel(const Stepper_&, sched::Bound& b) { b.data.mirror = sched::k()->bnd * b.data.avg; }
template <> inline void slope_limiting_distributed_boundary_send_kernel(const Stepper_&, sched::DBound& b, uint c) { b.out[c] = b.data.avg; }
template <> inline void slope_limiting_prepare_distributed_boundary_kernel(const Stepper_&, sched::DBound& b, uint c) { b.data.nb = b.in[c]; }
template <> inline void check_trouble(sched::Disc& d, const Stepper_&, uint) { for (auto e : d.mesh.elements) e->data.flag = sched::k()->flag * (e->data.avg + e->data.nb + e->data.mirror); }
template <> inline void slope_limiting_kernel(const Stepper_& s, sched::Elem& e) {
    auto& q = e.data.state[s.GetStage()].q; auto* k = sched::k();
    q = k->lim * q + k->nb * e.data.nb + k->mirror * e.data.mirror + e.data.flag;
}
}
namespace sched {
#ifndef SCHEDULE_IMPLICIT
inline ESSPRKStepper stepper(int nstages, int order) { StepperInput i; i.nstages = nstages; i.order = order; i.dt = POS("dt"); i.ramp_duration = 0; i.run_time = 1; return ESSPRKStepper(i); }
#endif
// what a stage means for two neighbouring elements, each with one more side on the boundary
struct Two {
    Q3 q[3][2], sol[3][2]; double forcing[2];
    void of(Elem* a, Elem* b) { Elem* e[] = {a, b}; for (int j = 0; j < 2; ++j) { for (int s = 0; s < 3; ++s) { q[s][j] = e[j]->data.state[s].q; sol[s][j] = e[j]->data.state[s].solution; } forcing[j] = e[j]->data.forcing; } }
    // tendency of element j in stage s
    Q3 L(int s, int j, bool hdg) const {
        const K& c = *k(); const Q3 &o = q[s][j], &x = q[s][1 - j];
        Q3 side = hdg ? Q3(c.own * (c.f_in * (c.trace * q[s][0]) + c.f_ex * (c.trace * q[s][1]))) : Q3(c.own * o + c.other * x);
        Q3 wall = hdg ? Q3(c.bnd * (c.f_in * (c.trace * o))) : Q3(c.bnd * o);
        return c.inv * (c.vol * o + c.src * (forcing[j] * o) + side + wall);
    }
    void limit(int s) {
        const K& c = *k(); Q3 av[2] = {Q3(c.avg * q[s][0]), Q3(c.avg * q[s][1])};
        for (int j = 0; j < 2; ++j) q[s][j] = c.lim * q[s][j] + c.nb * av[1 - j] + c.mirror * (c.bnd * av[j]) + c.flag * (av[j] + av[1 - j] + c.bnd * av[j]);
    }
};
}
#endif
