#include "vc.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "swe_mesh.h"
// OPT *: divzero=1
// What initialize_data_serial leaves in real elements, boundaries and interfaces with arbitrary vertices
namespace {
typedef Geometry::Boundary<1, Integration::GaussLegendre_1D, SWE::Data, SWE::RKDG::BC::Land> Wall;
typedef Geometry::Interface<1, Integration::GaussLegendre_1D, SWE::Data, SWE::RKDG::ISP::Internal> Face;
typedef MiniMesh<Wall, Face> Mesh;
struct Input { SWE::SphericalProjection spherical_projection; SWE::InitialConditions initial_conditions; SWE::BottomFriction bottom_friction; SWE::Coriolis coriolis; };
Input input() { Input in; in.initial_conditions.type = SWE::InitialConditionsType::Default; SWE::PostProcessing::wetting_drying = false; SWE::PostProcessing::slope_limiting = false; return in; }
struct Single {  // one element and its three sides
    Tri m; Vertices v; Elem e; Wall w0, w1, w2; Mesh mesh;
    explicit Single(uint p, uchar t0 = 0, uchar t1 = 0, uchar t2 = 0) : m(p), v(vc_vertices()), e(0, m, v.nodes(), {0, 1, 2}, {7, 8, 9}, {t0, t1, t2}), w0(vc_raw(e, m, 0)), w1(vc_raw(e, m, 1)), w2(vc_raw(e, m, 2)) { mesh.elements = {&e}; mesh.boundaries = {&w0, &w1, &w2}; }
    Wall& wall(uint b) { return b == 0 ? w0 : b == 1 ? w1 : w2; }
};
struct Pair {  // two elements and the face between them
    Tri m; uint b, c; Vertices v, w; Elem e, f; Face face; Mesh mesh;
    explicit Pair(uint p) : m(p), b((uint)vc_choose("edge", 0, 2)), c((uint)vc_choose("other edge", 0, 2)), v(vc_vertices()), w(vc_neighbour(v, b, c)),
        e(0, m, v.nodes(), {0, 1, 2}, {7, 8, 9}, {128, 128, 128}), f(1, m, w.nodes(), {3, 4, 5}, {7, 8, 9}, {128, 128, 128}), face(vc_raw(e, m, b), vc_raw(f, m, c)) { mesh.elements = {&e, &f}; mesh.interfaces = {&face}; }
};
double mid(const double* x, uint b) { return (x[(b + 1) % 3] + x[(b + 2) % 3]) / 2; }
double centre(const double* x) { return (x[0] + x[1] + x[2]) / 3; }
}

CONTRACT(bathymetry) {  // linear between the vertices, the same on both sides of a face
    uint p = (uint)vc_choose("p", 1, 2); Single s(p); const Vertices& v = s.v;
    SWE::initialize_data_serial(s.mesh, input());
    auto& in = s.e.data.internal;
    const double dx = ((v.z[1] - v.z[0]) * (v.y[2] - v.y[0]) - (v.z[2] - v.z[0]) * (v.y[1] - v.y[0])) / v.area2();
    const double dy = ((v.z[2] - v.z[0]) * (v.x[1] - v.x[0]) - (v.z[1] - v.z[0]) * (v.x[2] - v.x[0])) / v.area2();
    Integration::Dunavant_2D rule; auto gp = rule.GetRule(2 * p).second;
    for (uint k = 0; k < gp.size(); ++k) {
        const double l1 = -(gp[k][0] + gp[k][1]) / 2, l2 = (1 + gp[k][0]) / 2, l3 = (1 + gp[k][1]) / 2;
        ENSURES_NEAR("depth at a point", in.aux_at_gp(SWE::Auxiliaries::bath, k), l1 * v.z[0] + l2 * v.z[1] + l3 * v.z[2], 1e-12);
        ENSURES_NEAR("slope in x", in.db_at_gp(0, k), dx, 1e-12);
        ENSURES_NEAR("slope in y", in.db_at_gp(1, k), dy, 1e-12);
        ENSURES_EQ("no projection", in.aux_at_gp(SWE::Auxiliaries::sp, k), 1.0);
    }
    Integration::GaussLegendre_1D line; auto lp = line.GetRule(2 * p + 1).second;
    for (uint b = 0; b < 3; ++b) {
        auto& a = s.e.data.boundary[b].aux_at_gp;
        for (uint k = 0; k < lp.size(); ++k) {
            ENSURES_NEAR("depth on a side", a(SWE::Auxiliaries::bath, k), (1 - lp[k][0]) / 2 * v.z[(b + 1) % 3] + (1 + lp[k][0]) / 2 * v.z[(b + 2) % 3], 1e-12);
            ENSURES_EQ("no projection", a(SWE::Auxiliaries::sp, k), 1.0);
        }
    }
}
CONTRACT(face_bathymetry) {
    Pair s((uint)vc_choose("p", 1, 2));
    SWE::initialize_data_serial(s.mesh, input());
    auto& a = s.e.data.boundary[s.b].aux_at_gp; auto& x = s.f.data.boundary[s.c].aux_at_gp; const uint n = columns(a);
    ENSURES("as many points", n == (uint)columns(x));
    Integration::GaussLegendre_1D line; auto lp = line.GetRule(2 * s.m.p + 1).second;
    for (uint k = 0; k < n; ++k) {
        ENSURES_NEAR("depth on the face", a(SWE::Auxiliaries::bath, k), (1 - lp[k][0]) / 2 * s.v.z[(s.b + 1) % 3] + (1 + lp[k][0]) / 2 * s.v.z[(s.b + 2) % 3], 1e-12);
        ENSURES_NEAR("same depth from both sides", x(SWE::Auxiliaries::bath, n - 1 - k), a(SWE::Auxiliaries::bath, k), 1e-12);
        ENSURES_EQ("no projection", a(SWE::Auxiliaries::sp, k), 1.0);
        ENSURES_EQ("no projection", x(SWE::Auxiliaries::sp, k), 1.0);
    }
}
CONTRACT(initial_state) {
    uint p = (uint)vc_choose("p", 1, 2); Single s(p);
    Input in = input();
    uint type = (uint)vc_choose("type", 0, 2);
    in.initial_conditions.type = type == 0 ? SWE::InitialConditionsType::Constant : type == 1 ? SWE::InitialConditionsType::Default : SWE::InitialConditionsType::Function;
    double q0[3] = {REAL("ze"), REAL("qx"), REAL("qy")};
    in.initial_conditions.ze_initial = q0[0]; in.initial_conditions.qx_initial = q0[1]; in.initial_conditions.qy_initial = q0[2];
    SWE::initialize_data_serial(s.mesh, in);
    HybMatrix<double, 3> u = s.e.ComputeUgp(s.e.data.state[0].q);
    Point<2> o; o[0] = 0; o[1] = 0;
    for (uint k = 0; k < (uint)columns(u); ++k) for (int r = 0; r < 3; ++r) ENSURES_NEAR("value everywhere", u(r, k), type == 2 ? SWE::ic_q(0, o)[r] : q0[r], 1e-12);
}
CONTRACT(projection_factor) {  // cos(reference latitude) / cos(latitude), latitude = y / R, at every point of the element and its sides
    uint p = (uint)vc_choose("p", 1, 2); Single s(p);
    Input in = input();
    in.spherical_projection.type = SWE::SphericalProjectionType::Enable;
    in.spherical_projection.latitude_o = REAL("latitude", -1, 1); in.spherical_projection.R = POS("R", 10, 20);
    SWE::initialize_data_serial(s.mesh, in);
    const double top = std::cos(in.spherical_projection.latitude_o * PI / 180.0);
    DynRowVector<double> y(3); for (int i = 0; i < 3; ++i) y[i] = s.v.y[i];
    DynRowVector<double> at = s.e.ComputeNodalUgp(y);
    for (uint k = 0; k < (uint)at.size(); ++k) ENSURES_EQ("factor inside", s.e.data.internal.aux_at_gp(SWE::Auxiliaries::sp, k), top / std::cos(at[k] / in.spherical_projection.R));
    for (uint b = 0; b < 3; ++b) {
        DynRowVector<double> side = s.wall(b).ComputeNodalUgp(y);
        for (uint k = 0; k < (uint)side.size(); ++k) ENSURES_EQ("factor on a side", s.e.data.boundary[b].aux_at_gp(SWE::Auxiliaries::sp, k), top / std::cos(side[k] / in.spherical_projection.R));
    }
}
CONTRACT(face_projection_factor) {
    Pair s((uint)vc_choose("p", 1, 2));
    Input in = input();
    in.spherical_projection.type = SWE::SphericalProjectionType::Enable;
    in.spherical_projection.latitude_o = REAL("latitude", -1, 1); in.spherical_projection.R = POS("R", 10, 20);
    SWE::initialize_data_serial(s.mesh, in);
    const double top = std::cos(in.spherical_projection.latitude_o * PI / 180.0);
    DynRowVector<double> y(3); for (int i = 0; i < 3; ++i) y[i] = s.v.y[i];
    DynRowVector<double> at = s.face.ComputeNodalUgpIN(y);
    const uint n = at.size();
    for (uint k = 0; k < n; ++k) {
        const double f = top / std::cos(at[k] / in.spherical_projection.R);
        ENSURES_EQ("factor on the inner side", s.e.data.boundary[s.b].aux_at_gp(SWE::Auxiliaries::sp, k), f);
        ENSURES_EQ("same factor on the outer side", s.f.data.boundary[s.c].aux_at_gp(SWE::Auxiliaries::sp, n - 1 - k), f);
    }
}
CONTRACT(coriolis) {
    Single s(1);
    Input in = input(); in.coriolis.type = SWE::CoriolisType::Enable; in.spherical_projection.R = POS("R", 10, 20);
    SWE::initialize_data_serial(s.mesh, in);
    ENSURES_EQ("Coriolis parameter", s.e.data.source.coriolis_f, 2 * 7.2921E-5 * std::sin((s.v.y[0] + s.v.y[1] + s.v.y[2]) / 3.0 / in.spherical_projection.R));
}
CONTRACT(wet_dry) {  // an element is wet exactly when all its vertices are; a dry one gets neither momentum nor negative depth
    Single s((uint)vc_choose("p", 1, 2)); const Vertices& v = s.v;
    Input in = input(); in.initial_conditions.type = SWE::InitialConditionsType::Constant;
    SWE::PostProcessing::wetting_drying = true;
    const double ho = SWE::PostProcessing::h_o = POS("h_o", 0.01, 0.5), tol = SWE::PostProcessing::h_o_threshold = NONNEG("tol", 0, 0.01);
    double q0[3] = {REAL("ze", -3, 0), REAL("qx"), REAL("qy")};
    in.initial_conditions.ze_initial = q0[0]; in.initial_conditions.qx_initial = q0[1]; in.initial_conditions.qy_initial = q0[2];
    double low = 0;  // rounding of the projection: keep off the threshold itself
    for (int i = 0; i < 3; ++i) { double h = q0[0] + v.z[i] - ho - tol; REQUIRES(h >= 1e-9 || h <= -1e-9); REQUIRES(v.z[i] <= 100.0 && v.z[i] >= -100.0); }
    (void)low; REQUIRES(q0[0] <= 100.0 && q0[0] >= -100.0);
    bool wet = true; for (int i = 0; i < 3; ++i) wet = wet && q0[0] + v.z[i] > ho + tol;
    vc_split(wet);
    SWE::initialize_data_serial(s.mesh, in);
    auto& w = s.e.data.wet_dry_state;
    ENSURES("wet flag", w.wet == wet);
    double zmin = v.z[0] < v.z[1] ? v.z[0] : v.z[1]; if (v.z[2] < zmin) zmin = v.z[2];
    ENSURES_EQ("lowest depth", w.bath_min, zmin);
    for (int i = 0; i < 3; ++i) ENSURES_EQ("vertex depth", w.bath_at_vrtx[i], v.z[i]);
    DynMatrix<double> lin = s.e.ProjectBasisToLinear(s.e.data.state[0].q);
    for (int i = 0; i < 3; ++i) {
        const bool shallow = q0[0] + v.z[i] <= ho + tol;
        ENSURES_NEAR("level", lin(0, i), shallow ? ho - v.z[i] : q0[0], 1e-9);
        ENSURES_NEAR("x momentum", lin(1, i), wet ? q0[1] : 0.0, 1e-9);
        ENSURES_NEAR("y momentum", lin(2, i), wet ? q0[2] : 0.0, 1e-9);
    }
}
CONTRACT(limiter_geometry) {
    Single s(1); const Vertices& v = s.v;
    Input in = input(); SWE::PostProcessing::slope_limiting = true;
    SWE::initialize_data_serial(s.mesh, in);
    auto& l = s.e.data.slope_limit_state;
    const double cx = centre(v.x), cy = centre(v.y);
    ENSURES_EQ("centre", l.baryctr_coord[0], cx); ENSURES_EQ("centre", l.baryctr_coord[1], cy);
    ENSURES_NEAR("depth at the centre", l.bath_at_baryctr, centre(v.z), 1e-12);
    for (uint b = 0; b < 3; ++b) {
        ENSURES_NEAR("depth at a vertex", l.bath_at_vrtx[b], v.z[b], 1e-12);
        ENSURES_NEAR("depth at a midpoint", l.bath_at_midpts[b], mid(v.z, b), 1e-12);
        const double mx = mid(v.x, b), my = mid(v.y, b);
        ENSURES_EQ("midpoint", l.midpts_coord[b][0], mx); ENSURES_EQ("midpoint", l.midpts_coord[b][1], my);
        ENSURES_EQ("mirror image as neighbour", l.baryctr_coord_neigh[b][0], 2 * mx - cx); ENSURES_EQ("mirror image as neighbour", l.baryctr_coord_neigh[b][1], 2 * my - cy);
        const double r2 = (mx - cx) * (mx - cx) + (my - cy) * (my - cy);
        ENSURES_EQ("distance", l.r_sq[b], r2);
        ENSURES_EQ("direction x", l.median[b][0] * std::sqrt(r2), mx - cx); ENSURES_EQ("direction y", l.median[b][1] * std::sqrt(r2), my - cy);
        uint k = (b + 1) % 3;
        for (int d = 0; d < 2; ++d)
            ENSURES_EQ("midpoint from the two neighbours", l.alpha[b][0] * (l.baryctr_coord_neigh[b][d] - l.baryctr_coord[d]) + l.alpha[b][1] * (l.baryctr_coord_neigh[k][d] - l.baryctr_coord[d]), l.midpts_coord[b][d] - l.baryctr_coord[d]);
    }
}
CONTRACT(limiter_neighbours) {
    Pair s(1);
    Input in = input(); SWE::PostProcessing::slope_limiting = true;
    SWE::initialize_data_serial(s.mesh, in);
    auto& l = s.e.data.slope_limit_state; auto& r = s.f.data.slope_limit_state;
    ENSURES_EQ("neighbour", l.baryctr_coord_neigh[s.b][0], centre(s.w.x)); ENSURES_EQ("neighbour", l.baryctr_coord_neigh[s.b][1], centre(s.w.y));
    ENSURES_EQ("neighbour", r.baryctr_coord_neigh[s.c][0], centre(s.v.x)); ENSURES_EQ("neighbour", r.baryctr_coord_neigh[s.c][1], centre(s.v.y));
}

namespace {
typedef Geometry::Boundary<1, Integration::GaussLegendre_1D, SWE::Data, SWE::RKDG::DBC::Distributed> Split;
struct DistMesh : Mesh {
    std::vector<Split*> distributed;
    template <class F> void CallForEachDistributedBoundary(const F& f) { for (auto d : distributed) f(*d); }
};
}
CONTRACT(distributed_sides) {  // sides towards other processes: depth, factor, the centre of the element beyond arrives by message
    const uint b = (uint)vc_choose("edge", 0, 2), other = (uint)vc_choose("other kind", 0, 1) ? 128 : 0;
    uchar t[3] = {0, 0, 0}; t[b] = DISTRIBUTED; t[(b + 1) % 3] = other;
    Tri m(1); Vertices v = vc_vertices();
    Elem e(0, m, v.nodes(), {0, 1, 2}, {7, 8, 9}, {t[0], t[1], t[2]});
    const uint offset = 3;
    std::vector<double> out(8, 0.0), in(8, 0.0);
    std::vector<std::vector<double>> send(4, out), recv(4, in);
    Split side(vc_raw(e, m, b), DBDataExchanger(0, 0, 1, 0, std::vector<uint>{offset, 0, 0, 0}, send, recv));
    Wall w1(vc_raw(e, m, (b + 1) % 3)), w2(vc_raw(e, m, (b + 2) % 3));
    DistMesh mesh; mesh.elements = {&e}; mesh.boundaries = {&w1, &w2}; mesh.distributed = {&side};
    Input inp = input(); SWE::PostProcessing::slope_limiting = true;
    SWE::initialize_data_parallel_pre_send(mesh, inp, 0);
    ENSURES_EQ("own centre sent", send[0][offset], centre(v.x)); ENSURES_EQ("own centre sent", send[0][offset + 1], centre(v.y));
    for (uint i = 0; i < 8; ++i) if (i != offset && i != offset + 1) ENSURES_EQ("nothing else sent", send[0][i], 0.0);
    auto& a = e.data.boundary[b].aux_at_gp;
    Integration::GaussLegendre_1D line; auto lp = line.GetRule(3).second;
    for (uint k = 0; k < lp.size(); ++k) {
        ENSURES_NEAR("depth on the side", a(SWE::Auxiliaries::bath, k), (1 - lp[k][0]) / 2 * v.z[(b + 1) % 3] + (1 + lp[k][0]) / 2 * v.z[(b + 2) % 3], 1e-12);
        ENSURES_EQ("no projection", a(SWE::Auxiliaries::sp, k), 1.0);
    }
    const double X = recv[0][offset] = REAL("X"), Y = recv[0][offset + 1] = REAL("Y");
    SWE::initialize_data_parallel_post_receive(mesh, 0);
    auto& l = e.data.slope_limit_state;
    ENSURES_EQ("centre received", l.baryctr_coord_neigh[b][0], X); ENSURES_EQ("centre received", l.baryctr_coord_neigh[b][1], Y);
    for (uint i = 0; i < 3; ++i) {
        const uint k = (i + 1) % 3;
        const double d = (l.baryctr_coord_neigh[i][0] - l.baryctr_coord[0]) * (l.baryctr_coord_neigh[k][1] - l.baryctr_coord[1]) - (l.baryctr_coord_neigh[i][1] - l.baryctr_coord[1]) * (l.baryctr_coord_neigh[k][0] - l.baryctr_coord[0]);
        REQUIRES(d != 0.0); NATIVE_REQUIRES(d > 1e-3 || d < -1e-3);
        for (int c = 0; c < 2; ++c)
            ENSURES_EQ("midpoint from the two neighbours", l.alpha[i][0] * (l.baryctr_coord_neigh[i][c] - l.baryctr_coord[c]) + l.alpha[i][1] * (l.baryctr_coord_neigh[k][c] - l.baryctr_coord[c]), l.midpts_coord[i][c] - l.baryctr_coord[c]);
        const double mx = mid(v.x, i) - centre(v.x), my = mid(v.y, i) - centre(v.y);
        ENSURES_EQ("distance", l.r_sq[i], mx * mx + my * my);
    }
}
CONTRACT(distributed_factor) {
    const uint b = (uint)vc_choose("edge", 0, 2), p = (uint)vc_choose("p", 1, 2);
    uchar t[3] = {0, 0, 0}; t[b] = DISTRIBUTED;
    Tri m(p); Vertices v = vc_vertices();
    Elem e(0, m, v.nodes(), {0, 1, 2}, {7, 8, 9}, {t[0], t[1], t[2]});
    std::vector<std::vector<double>> send(4), recv(4);
    Split side(vc_raw(e, m, b), DBDataExchanger(0, 0, 1, 0, std::vector<uint>{0, 0, 0, 0}, send, recv));
    DistMesh mesh; mesh.elements = {&e}; mesh.distributed = {&side};
    Input in = input();
    in.spherical_projection.type = SWE::SphericalProjectionType::Enable;
    in.spherical_projection.latitude_o = REAL("latitude", -1, 1); in.spherical_projection.R = POS("R", 10, 20);
    SWE::initialize_data_serial(mesh, in);
    const double top = std::cos(in.spherical_projection.latitude_o * PI / 180.0);
    DynRowVector<double> y(3); for (int i = 0; i < 3; ++i) y[i] = v.y[i];
    DynRowVector<double> at = side.ComputeNodalUgp(y);
    for (uint k = 0; k < (uint)at.size(); ++k) ENSURES_EQ("factor on the side", e.data.boundary[b].aux_at_gp(SWE::Auxiliaries::sp, k), top / std::cos(at[k] / in.spherical_projection.R));
}
