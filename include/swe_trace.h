// Skeleton edges over the real state containers, with any values at any number of points.  Two processes hold one half of a
// side each; their exchangers share the message buffers.
#include "swe_stub.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <map>
#include <numeric>
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#include "simulation/stepper/explicit_ssp_rk_stepper.cpp"
#include TRACE_PROBLEM
#ifndef TRACE_GLOBAL
#define TRACE_GLOBAL SWE::GlobalData
#endif
#ifndef TRACE_INPUT
#define TRACE_INPUT SWE::Inputs
#endif
namespace {
struct Element { SWE::Data data; };
// condition of a side: which trace it was asked to start, and with what state of the neighbour
struct Start {
    int calls = 0;
    template <class E> void ComputeInitTrace(E&) { ++calls; }
    template <class S, class E> void ComputeInitTrace(const S&, E&) { ++calls; }
};
struct Cut { DBDataExchanger exchanger; int calls; Q3 ex; template <class E> void ComputeInitTrace(E&, const HybMatrix<double, 3>& q_ex) { ++calls; ex = q_ex; } };
struct Interface { SWE::Data &data_in, &data_ex; uint bound_id_in, bound_id_ex; Start specialization; };
template <class C> struct Side {
    SWE::Data& data; uint bound_id; C boundary_condition;
    template <class A> Q3 ComputeUgp(const A& q) { return q; }
};
typedef Side<Start> Bound;
typedef Side<Cut> DBound;
struct EdgeInt { SWE::EdgeData edge_data; Interface& interface; };
struct EdgeBound { SWE::EdgeData edge_data; Bound& boundary; };
struct EdgeDist { SWE::EdgeData edge_data; DBound& boundary; };
struct Mesh {
    int id = 0; std::vector<Element*> elements; std::vector<DBound*> dbounds;
    template <class F> void CallForEachElement(const F& f) { for (auto e : elements) f(*e); }
    template <class F> void CallForEachDistributedBoundary(const F& f) { for (auto e : dbounds) f(*e); }
};
struct Skeleton {
    std::vector<EdgeInt*> ints; std::vector<EdgeBound*> bounds; std::vector<EdgeDist*> dists;
    template <class F> void CallForEachEdgeInterface(const F& f) { for (auto e : ints) f(*e); }
    template <class F> void CallForEachEdgeBoundary(const F& f) { for (auto e : bounds) f(*e); }
    template <class F> void CallForEachEdgeDistributed(const F& f) { for (auto e : dists) f(*e); }
};
struct Own { typedef Mesh ProblemMeshType; typedef Skeleton ProblemMeshSkeletonType; typedef TRACE_GLOBAL ProblemGlobalDataType; typedef TRACE_INPUT ProblemInputType; typedef int ProblemWriterType; };
typedef std::vector<std::vector<double>> Wire;
inline void trace(SWE::EdgeData& t, uint nt, std::size_t n) {
    t.set_ndof(nt); t.set_ngp(n); t.initialize();
    for (uint j = 0; j < nt; ++j) for (int c = 0; c < 3; ++c) t.edge_state.q_hat(c, j) = REAL("q_hat");
}
// One process: two elements e and f joined by an interface (any sides), a wall on e and, if asked, a side of f shared with another process.
struct Part {
    std::size_t n; uint nt; Element e, f; Interface face; EdgeInt edge; Bound wall; DBound* cut = nullptr; EdgeBound wall_edge; EdgeDist* cut_edge = nullptr; HDGDiscretization<Own> discretization;
    Part(std::size_t n, uint nt, uint a, uint b)
        : n(n), nt(nt), face{e.data, f.data, a, b, {}}, edge{{}, face}, wall{e.data, (a + 1) % 3, {}}, wall_edge{{}, wall} {
        for (Element* x : {&e, &f}) {
            SWE::Data& d = x->data; d.set_ndof(2); d.set_nbound(3); d.boundary.resize(3); d.state.resize(1); 
            for (uint s = 0; s < 3; ++s) {
                d.set_ngp_boundary(s, n); d.boundary[s] = SWE::Boundary(n);
                vc_fill_mat(d.boundary[s].aux_at_gp, "side", {{0, 1, 3}, {1, 1, 1}, {3, 1, 1}});
            }
            d.state[0].q.resize(3, n); vc_fill_mat(d.state[0].q, "state", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
            discretization.mesh.elements.push_back(x);
        }
        trace(edge.edge_data, nt, n); trace(wall_edge.edge_data, nt, n);
        auto& s = discretization.mesh_skeleton; s.ints.push_back(&edge); s.bounds.push_back(&wall_edge);
    }
    void split(uint loc, uint sub, uint loc_ex, uint sub_ex, std::vector<uint> offsets, Wire& send, Wire& receive) {
        cut = new DBound{f.data, (face.bound_id_ex + 1) % 3, {DBDataExchanger(loc, sub, loc_ex, sub_ex, std::move(offsets), send, receive), 0, Q3(3, 0)}};
        cut_edge = new EdgeDist{{}, *cut}; trace(cut_edge->edge_data, nt, n);
        discretization.mesh_skeleton.dists.push_back(cut_edge); discretization.mesh.dbounds.push_back(cut);
    }
    static SWE::Boundary& side(const Interface& i, bool in) { return in ? i.data_in.boundary[i.bound_id_in] : i.data_ex.boundary[i.bound_id_ex]; }
    SWE::Boundary& shared() { return f.data.boundary[cut->bound_id]; }
    template <class T> double bath(const T& t, std::size_t k) { return t.edge_data.edge_internal.aux_hat_at_gp(0, k); }
    void check_beds(std::size_t k) {
        ENSURES_EQ("mean bed on the face", bath(edge, k), (side(face, true).aux_at_gp(0, k) + side(face, false).aux_at_gp(0, n - 1 - k)) / 2.0);
        ENSURES_EQ("own bed on the wall", bath(wall_edge, k), e.data.boundary[wall.bound_id].aux_at_gp(0, k));
    }
    void check_room(SWE::EdgeData& t) {
        ENSURES_INT("rows", t.edge_internal.delta_hat_global.rows(), 3 * nt); ENSURES_INT("columns", t.edge_internal.delta_hat_global.cols(), 3 * nt); ENSURES_INT("right-hand side", t.edge_internal.rhs_global.size(), 3 * nt);
    }
};
}
