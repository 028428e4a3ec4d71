#include "swe_stub.h"
#include "basis/bases_2D.hpp"
#include "basis/bases_2D/basis_dubiner_2D.cpp"
#include "basis/polynomials/basis_polynomials.cpp"
#include "problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp"
// Any wet element with any neighbour averages; the element hands the kernel the real basis transformations
// OPT *: divzero=1 merge=1
namespace {
struct Stage { uint stage; uint GetStage() const { return stage; } };
struct Element {
    SWE::Data data; uint p; Basis::Dubiner_2D basis; DynMatrix<double> to_linear, to_basis;
    explicit Element(uint p) : p(p), to_linear(basis.GetBasisLinearT(p)), to_basis(basis.GetLinearBasisT(p)) {}
    Q3 ProjectBasisToLinear(const Q3& u) { return u * to_linear; }
    template <class A> DynMatrix<double> ProjectLinearToBasis(const A& u) { return u * to_basis; }
    StatVector<double, 3> ComputeLinearUbaryctr(const Q3& u) { StatVector<double, 3> c; c[0] = c[1] = c[2] = 1.0 / 3.0; return u * c; }
    Q3 ComputeLinearUmidpts(const Q3& u) { Q3 m(3, 3); for (int b = 0; b < 3; ++b) for (int r = 0; r < 3; ++r) m(r, b) = (u(r, (b + 1) % 3) + u(r, (b + 2) % 3)) / 2.0; return m; }
};
struct In {
    uint p, nd; Element e; Q3 q0; Stage st;
    In() : p((uint)vc_choose("p", 1, 2)), nd((p + 1) * (p + 2) / 2), e(p), q0(3, 0), st{0} {
        auto& d = e.data; auto& s = d.slope_limit_state;
        d.set_nvrtx(3); d.set_nbound(3); d.set_ndof(nd); d.state.resize(1);
        s = SWE::SlopeLimit(3, 3);
        d.state[0].q.resize(3, nd);
        vc_fill_mat(d.state[0].q, "q", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
        q0 = d.state[0].q;
        s.bath_at_baryctr = POS("depth") - q0(0, 0);
        SWE::PostProcessing::M = NONNEG("M"); SWE::PostProcessing::nu = POS("nu");
        for (int b = 0; b < 3; ++b) {
            s.wet_neigh[b] = true;
            double x, y; vc_unit("median", &x, &y); s.median[b][0] = x; s.median[b][1] = y;
            s.alpha[b][0] = REAL("alpha1"); s.alpha[b][1] = REAL("alpha2"); s.r_sq[b] = POS("r2");
            for (int r = 0; r < 3; ++r) s.q_at_baryctr_neigh[b][r] = REAL("neighbour");
        }
        SWE::slope_limiting_prepare_element_kernel(st, e);
    }
    Q3& q() { return e.data.state[0].q; }
};
}
CONTRACT(mean) {
    In i; SWE::slope_limiting_kernel(i.st, i.e);
    for (int r = 0; r < 3; ++r) ENSURES_EQ("mean of the element", i.q()(r, 0), i.q0(r, 0));
}
// one dry element in the patch (the element itself or a neighbour) switches the limiter off
CONTRACT(shore) {
    In i; auto& s = i.e.data.slope_limit_state;
    const int dry = (int)vc_choose("dry", 0, 3);
    if (dry == 3) i.e.data.wet_dry_state.wet = false; else s.wet_neigh[dry] = false;
    SWE::slope_limiting_kernel(i.st, i.e);
    for (uint r = 0; r < 3; ++r) for (uint d = 0; d < i.nd; ++d) ENSURES_EQ("untouched next to dry land", i.q()(r, d), i.q0(r, d));
}
// variations below the TVB threshold are not limited
CONTRACT(smooth) {
    In i; auto& s = i.e.data.slope_limit_state;
    SWE::PostProcessing::M = 1.0;
    for (int b = 0; b < 3; ++b) s.r_sq[b] = INFINITY;
    SWE::slope_limiting_kernel(i.st, i.e);
    for (uint r = 0; r < 3; ++r) for (int v = 0; v < 3; ++v) ENSURES_EQ("nothing limited", s.q_at_vrtx(r, v), s.q_lin(r, v));
}
// an extremum over equal neighbours becomes its average
CONTRACT(flat) {
    In i; auto& s = i.e.data.slope_limit_state;
    SWE::PostProcessing::M = -1.0;
    for (int b = 0; b < 3; ++b) s.q_at_baryctr_neigh[b] = s.q_at_baryctr;
    SWE::slope_limiting_kernel(i.st, i.e);
    for (uint r = 0; r < 3; ++r) for (int v = 0; v < 3; ++v) ENSURES_EQ("flattened", s.q_at_vrtx(r, v), i.q0(r, 0));
}
// edge b answers to its own neighbour and the next one only
CONTRACT(own_neighbours) {
    In i; auto& s = i.e.data.slope_limit_state;
    SWE::PostProcessing::M = -1.0;
    const int b = (int)vc_choose("edge", 0, 2);
    s.q_at_baryctr_neigh[b] = s.q_at_baryctr; s.q_at_baryctr_neigh[(b + 1) % 3] = s.q_at_baryctr;
    SWE::slope_limiting_kernel(i.st, i.e);
    for (uint r = 0; r < 3; ++r) ENSURES_EQ("no slope towards equal neighbours", s.delta(r, b), 0.0);
}
namespace {
struct Buffers {
    std::vector<double> sent, received;
    void SetToSendBuffer(const uint, const std::vector<double>& m) { sent = m; }
    void GetFromReceiveBuffer(const uint, std::vector<double>& m) { for (std::size_t i = 0; i < m.size(); ++i) m[i] = received[i]; }
};
struct Condition { Buffers exchanger; };
struct Bound { SWE::Data& data; uint bound_id; Condition boundary_condition; Q3 at_gp; Q3 ComputeUgp(const Q3&) { return at_gp; } };
struct Interface { SWE::Data& data_in; SWE::Data& data_ex; uint bound_id_in, bound_id_ex; };
struct Side {
    SWE::Data data; uint b;
    Side(const char* name, const char* edge, int wet) : b((uint)vc_choose(edge, 0, 2)) {
        data.set_nbound(3); data.set_nvrtx(3); data.slope_limit_state = SWE::SlopeLimit(3, 3); data.wet_dry_state.wet = wet; data.state.resize(1); data.boundary.resize(3);
        auto& s = data.slope_limit_state;
        for (int r = 0; r < 3; ++r) { s.q_at_baryctr[r] = REAL(name); for (int k = 0; k < 3; ++k) s.q_at_baryctr_neigh[k][r] = REAL("old"); }
        for (int k = 0; k < 3; ++k) s.wet_neigh[k] = false;
    }
};
struct Before {
    double q[3][3]; bool wet[3];
    explicit Before(SWE::SlopeLimit& s) { for (int k = 0; k < 3; ++k) { wet[k] = s.wet_neigh[k]; for (int r = 0; r < 3; ++r) q[k][r] = s.q_at_baryctr_neigh[k][r]; } }
};
void neighbour_of(SWE::SlopeLimit& a, uint edge, const Before& was, SWE::Data& other, bool wet) {
    ENSURES("neighbour is known to be wet or dry", a.wet_neigh[edge] == other.wet_dry_state.wet);
    for (int r = 0; r < 3; ++r) if (wet) ENSURES_EQ("average of the neighbour", a.q_at_baryctr_neigh[edge][r], other.slope_limit_state.q_at_baryctr[r]);
    for (uint k = 0; k < 3; ++k) if (k != edge) {
        ENSURES("other edges keep their neighbours", a.wet_neigh[k] == was.wet[k]);
        for (int r = 0; r < 3; ++r) ENSURES_EQ("other edges keep their neighbours", a.q_at_baryctr_neigh[k][r], was.q[k][r]);
    }
}
}
CONTRACT(neighbours) {  // across an interface each side learns the average of the other
    const int wi = (int)vc_choose("wet_in", 0, 1), we = (int)vc_choose("wet_ex", 0, 1);
    Side a("in", "edge_in", wi), b("ex", "edge_ex", we); const Before sa(a.data.slope_limit_state), sb(b.data.slope_limit_state);
    Interface f{a.data, b.data, a.b, b.b};
    SWE::slope_limiting_prepare_interface_kernel(Stage{0}, f);
    neighbour_of(a.data.slope_limit_state, a.b, sa, b.data, wi && we);
    neighbour_of(b.data.slope_limit_state, b.b, sb, a.data, wi && we);
}
CONTRACT(neighbours_boundary) {  // at the boundary the element is its own neighbour
    const int w = (int)vc_choose("wet_in", 0, 1);
    Side a("in", "edge_in", w); const Before sa(a.data.slope_limit_state);
    Bound f{a.data, a.b};
    SWE::slope_limiting_prepare_boundary_kernel(Stage{0}, f);
    neighbour_of(a.data.slope_limit_state, a.b, sa, a.data, w);
}
CONTRACT(neighbours_distributed) {  // between ranks the message carries the same as an interface
    const int wi = (int)vc_choose("wet_in", 0, 1), we = (int)vc_choose("wet_ex", 0, 1); const uint n = (uint)vc_choose("gauss_points", 1, 3);
    Side a("in", "edge_in", wi), b("ex", "edge_ex", we); const Before sa(a.data.slope_limit_state);
    Bound fa{a.data, a.b, {}, Q3(3, n)}, fb{b.data, b.b, {}, Q3(3, n)};
    b.data.set_ngp_boundary(b.b, n); b.data.boundary[b.b].q_at_gp.resize(3, n); b.data.boundary[b.b].aux_at_gp.resize(3, n);
    vc_fill_mat(b.data.boundary[b.b].aux_at_gp, "aux", {{0, -1, 1}, {0, -1, 1}, {1, 1, 2}}); vc_fill_mat(fb.at_gp, "q_at_gp", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    SWE::slope_limiting_distributed_boundary_send_kernel(Stage{0}, fb, 0);
    fa.boundary_condition.exchanger.received = fb.boundary_condition.exchanger.sent;
    SWE::slope_limiting_prepare_distributed_boundary_kernel(Stage{0}, fa, 0);
    neighbour_of(a.data.slope_limit_state, a.b, sa, b.data, we);
    if (we) for (uint g = 0; g < n; ++g) ENSURES_EQ("depth on the edge", fb.boundary_condition.exchanger.sent[4 + g], fb.at_gp(0, g) + b.data.boundary[b.b].aux_at_gp(0, g));
}
