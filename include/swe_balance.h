#include "swe_mesh.h"
// The real stage of a scheme on real elements with arbitrary vertices and depths, closed in by land
namespace {
typedef Geometry::Boundary<1, Integration::GaussLegendre_1D, SWE::Data, SWE::BALANCE::BC::Land> Wall;
typedef Geometry::Interface<1, Integration::GaussLegendre_1D, SWE::Data, SWE::BALANCE::ISP::Internal> Face;
typedef SWE::BALANCE::Problem P;
#ifdef BALANCE_HDG
typedef Geometry::EdgeInterface<1, Basis::Legendre_1D, SWE::EdgeData, Face> Trace;
typedef Geometry::EdgeBoundary<1, Basis::Legendre_1D, SWE::EdgeData, Wall> WallTrace;
struct Skeleton {
    std::vector<Trace*> ints; std::vector<WallTrace*> bounds;
    template <class F> void CallForEachEdgeInterface(const F& f) { for (auto e : ints) f(*e); }
    template <class F> void CallForEachEdgeBoundary(const F& f) { for (auto e : bounds) f(*e); }
    template <class F> void CallForEachEdgeDistributed(const F&) {}
};
struct Own { typedef MiniMesh<Wall, Face> ProblemMeshType; typedef Skeleton ProblemMeshSkeletonType; typedef int ProblemGlobalDataType; typedef int ProblemInputType; typedef int ProblemWriterType; };
typedef HDGDiscretization<Own> D;
#else
template <class> struct Disc { MiniMesh<Wall, Face> mesh; };
typedef Disc<P> D;
#endif
struct Input { SWE::SphericalProjection spherical_projection; SWE::InitialConditions initial_conditions; SWE::BottomFriction bottom_friction; SWE::Coriolis coriolis; };
double within(const char* n, double lo, double hi) { double x = REAL(n, lo, hi); REQUIRES(x >= lo && x <= hi); return x; }
ESSPRKStepper stepper() { StepperInput i; i.nstages = 1; i.order = 1; i.dt = POS("dt"); i.ramp_duration = 0; i.run_time = 1; return ESSPRKStepper(i); }
void start(D& d, const SWE::InitialConditions& ic) {
    SWE::PostProcessing::wetting_drying = false; SWE::PostProcessing::slope_limiting = false;
    SWE::SourceTerms::function_source = false; SWE::SourceTerms::bottom_friction = false;
    SWE::Global::g = POS("g", 1, 10);
    d.mesh.CallForEachBoundary([](auto& b) { b.boundary_condition.Initialize(b); });
    d.mesh.CallForEachInterface([](auto& i) { i.specialization.Initialize(i); });
    Input in; in.initial_conditions = ic;
    SWE::initialize_data_serial(d.mesh, in);
#ifdef BALANCE_HDG
    for (auto i : d.mesh.interfaces) d.mesh_skeleton.ints.push_back(new Trace(*i));
    for (auto b : d.mesh.boundaries) d.mesh_skeleton.bounds.push_back(new WallTrace(*b));
    P::initialize_global_problem_serial(d);
#endif
    d.mesh.CallForEachElement([](auto& e) { e.data.resize(2); e.data.wet_dry_state.wet = true; });
}
#ifdef BALANCE_HDG
void stage(D& d, ESSPRKStepper& s) { int g = 0; P::stage_serial(d, g, s); }
#else
void stage(D& d, ESSPRKStepper& s) { typename P::ProblemGlobalDataType g; P::stage_serial(d, g, s); }
#endif
SWE::InitialConditions still(double level) { SWE::InitialConditions ic; ic.type = SWE::InitialConditionsType::Constant; ic.ze_initial = level; ic.qx_initial = ic.qy_initial = 0.0; return ic; }
void check_still(Elem& e, double level) {
    auto& r = e.data.state[0].rhs; auto& q = e.data.state[0].q;
    DynRowVector<double> ones(3); for (int i = 0; i < 3; ++i) ones[i] = level;
    DynRowVector<double> flat = e.L2ProjectionNode(ones);
    for (uint d = 0; d < e.data.get_ndof(); ++d) {
        for (int k = 0; k < 3; ++k) ENSURES_NEAR("no tendency", r(k, d), 0.0, 1e-9);
        ENSURES_NEAR("level kept", q(0, d), flat[d], 1e-9);
        ENSURES_NEAR("at rest", q(1, d), 0.0, 1e-9);
        ENSURES_NEAR("at rest", q(2, d), 0.0, 1e-9);
    }
}
double amount(Elem& e, const HybMatrix<double, 3>& q, int k) { DynRowVector<double> r = row(q, k); DynRowVector<double> u = e.ComputeUgp(r); return e.Integration(u); }
}

namespace {
void pond() {  // one element with walls all round: still water over any sloping bed stays still
    uint p = (uint)vc_choose("p", 1, 2); Tri m(p); Vertices v = vc_vertices();
    const double level = within("level", -10, 10);
    for (int i = 0; i < 3; ++i) v.z[i] = within("column", 0.1, 1000) - level;
    Elem e(0, m, v.nodes(), {0, 1, 2}, {0, 0, 0}, {SWE::BoundaryTypes::land, SWE::BoundaryTypes::land, SWE::BoundaryTypes::land});
    Wall w0(vc_raw(e, m, 0)), w1(vc_raw(e, m, 1)), w2(vc_raw(e, m, 2));
    D d; d.mesh.elements = {&e}; d.mesh.boundaries = {&w0, &w1, &w2};
    start(d, still(level));
    auto s = stepper();
    stage(d, s);
    check_still(e, level);
}
void lake() {  // two elements over a common bed
    Tri m(1); Vertices v = vc_vertices();
    const double level = within("level", -10, 10);
    const uint b = (uint)vc_choose("edge", 0, 2), c = (uint)vc_choose("other edge", 0, 2);
    for (int i = 0; i < 3; ++i) v.z[i] = within("column", 0.1, 1000) - level;
    Vertices w = vc_neighbour(v, b, c); w.z[c] = within("column", 0.1, 1000) - level;
    Elem e(0, m, v.nodes(), {0, 1, 2}, {1, 1, 1}, {0, 0, 0}), f(1, m, w.nodes(), {3, 4, 5}, {0, 0, 0}, {0, 0, 0});
    Face face(vc_raw(e, m, b), vc_raw(f, m, c));
    Wall w0(vc_raw(e, m, (b + 1) % 3)), w1(vc_raw(e, m, (b + 2) % 3)), w2(vc_raw(f, m, (c + 1) % 3)), w3(vc_raw(f, m, (c + 2) % 3));
    D d; d.mesh.elements = {&e, &f}; d.mesh.boundaries = {&w0, &w1, &w2, &w3}; d.mesh.interfaces = {&face};
    start(d, still(level));
    auto s = stepper();
    stage(d, s);
    check_still(e, level); check_still(f, level);
}
// two elements, any flow: what one loses the other gains, nothing passes the walls
void volume_kept(bool wet_e, bool wet_f) {
    uint p = 1; Tri m(p); Vertices v = vc_vertices();
#ifdef BALANCE_HDG
    const bool all = wet_e && wet_f;
#else
    const bool all = true;
#endif
    const uint b = (uint)vc_choose("edge", 0, 2), c = all ? (uint)vc_choose("other edge", 0, 2) : b;
    Vertices w = vc_neighbour(v, b, c);
    Elem e(0, m, v.nodes(), {0, 1, 2}, {1, 1, 1}, {0, 0, 0}), f(1, m, w.nodes(), {3, 4, 5}, {0, 0, 0}, {0, 0, 0});
    Face face(vc_raw(e, m, b), vc_raw(f, m, c));
    Wall w0(vc_raw(e, m, (b + 1) % 3)), w1(vc_raw(e, m, (b + 2) % 3)), w2(vc_raw(f, m, (c + 1) % 3)), w3(vc_raw(f, m, (c + 2) % 3));
    D d; d.mesh.elements = {&e, &f}; d.mesh.boundaries = {&w0, &w1, &w2, &w3}; d.mesh.interfaces = {&face};
    for (Elem* el : d.mesh.elements) for (int i = 0; i < 3; ++i) REQUIRES(el->GetShape().nodal_coordinates[i][2] >= -100.0 && el->GetShape().nodal_coordinates[i][2] <= 100.0);
    start(d, still(0.0));
    for (Elem* el : d.mesh.elements) {
        HybMatrix<double, 3> u(3, 3);
        for (int i = 0; i < 3; ++i) { u(0, i) = within("column", 0.1, 100) - el->GetShape().nodal_coordinates[i][2]; u(1, i) = REAL("qx"); u(2, i) = REAL("qy"); }
        el->data.state[0].q = el->L2ProjectionNode(u);
    }
    e.data.wet_dry_state.wet = wet_e; f.data.wet_dry_state.wet = wet_f;
    auto s = stepper();
    stage(d, s);
    ENSURES_NEAR("total volume", e.data.state[0].rhs(0, 0) + f.data.state[0].rhs(0, 0), 0.0, 1e-9);
}
}
