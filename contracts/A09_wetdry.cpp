#include "swe_stub.h"
#include "basis/bases_2D.hpp"
#include "basis/bases_2D/basis_dubiner_2D.cpp"
#include "basis/polynomials/basis_polynomials.cpp"
#include "problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp"
// Any state of an element of degree p on any bathymetry, wet or dry so far; the element hands the kernel the real basis transformations
namespace {
#define HO SWE::PostProcessing::h_o
#define TOL SWE::PostProcessing::h_o_threshold
struct Stage { uint stage; uint GetStage() const { return stage; } };
struct Element {
    SWE::Data data; uint p; Basis::Dubiner_2D basis; DynMatrix<double> to_linear, to_basis;
    explicit Element(uint p) : p(p), to_linear(basis.GetBasisLinearT(p)), to_basis(basis.GetLinearBasisT(p)) {}
    Q3 ProjectBasisToLinear(const Q3& u) { return u * to_linear; }
    Q3 ProjectLinearToBasis(const Q3& u) { return u * to_basis; }
    Q3 ComputeLinearUvrtx(const Q3& u) { return u; }
};
double min3(double a, double b, double c) { return std::min(a, std::min(b, c)); }
struct In {
    uint p, nd, s; Element e; Q3 q0, r0; bool was; double bath[3], h0[3], h[3], havg; int dry, top; Q3 lin, lin0;
    In() : p((uint)vc_choose("p", 1, 2)), nd((p + 1) * (p + 2) / 2), s((uint)vc_choose("stage", 0, 1)), e(p), q0(3, 0), r0(3, 0), lin(3, 3), lin0(3, 3) {
        TOL = POS("threshold", 1e-6, 1e-2); HO = TOL + POS("minimum depth", 0.05, 0.5);
        auto& d = e.data; auto& w = d.wet_dry_state;
        d.set_nvrtx(3); d.set_ndof(nd); w = SWE::WetDry(3); d.state.resize(2);
        for (int j = 0; j < 2; ++j) { d.state[j].q.resize(3, nd); d.state[j].rhs.resize(3, nd); }
        vc_fill_mat(d.state[s].q, "q", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
        vc_fill_mat(d.state[s].rhs, "rhs", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
        q0 = d.state[s].q; r0 = d.state[s].rhs;
        w.wet = was = vc_choose("wet", 0, 1);
        for (int v = 0; v < 3; ++v) w.bath_at_vrtx[v] = bath[v] = REAL("bath", -1, 1);
        w.bath_min = min3(bath[0], bath[1], bath[2]);
        lin0 = q0 * e.to_linear; dry = 0; havg = 0;
        for (int v = 0; v < 3; ++v) { h0[v] = lin0(0, v) + bath[v]; havg += h0[v]; if (h0[v] <= HO + TOL) ++dry; }
        havg /= 3;
        SWE::wetting_drying_kernel(Stage{s}, e);
        lin = q() * e.to_linear;
        for (int v = 0; v < 3; ++v) h[v] = lin(0, v) + bath[v];
    }
    Q3& q() { return e.data.state[s].q; }
    bool wet() { return e.data.wet_dry_state.wet; }
};
}
CONTRACT(volume) {  // water is neither created nor lost, unless there was none: then a film is left and reported
    In i;
    if (vc_split(i.havg <= TOL)) {
        ENSURES("reported", i.e.data.wet_dry_state.went_completely_dry);
        for (int v = 0; v < 3; ++v) ENSURES_EQ("film", i.h[v], TOL);
    } else {
        ENSURES("not reported", !i.e.data.wet_dry_state.went_completely_dry);
        ENSURES_EQ("mean elevation", i.lin(0, 0) + i.lin(0, 1) + i.lin(0, 2), i.lin0(0, 0) + i.lin0(0, 1) + i.lin0(0, 2));
    }
}
CONTRACT(positive_depth) {
    In i;
    for (int v = 0; v < 3; ++v) ENSURES("depth is positive", i.h[v] >= TOL * 0.999999);
}
CONTRACT(dry_is_still) {  // a dry element has no momentum and no tendencies
    In i;
    REQUIRES(!i.wet());
    for (uint d = 0; d < i.nd; ++d) {
        ENSURES_EQ("x momentum", i.q()(1, d), 0.0); ENSURES_EQ("y momentum", i.q()(2, d), 0.0);
        for (int r = 0; r < 3; ++r) ENSURES_EQ("tendency", i.e.data.state[i.s].rhs(r, d), 0.0);
    }
}
CONTRACT(wet_untouched) {
    In i;
    REQUIRES(i.was && i.dry == 0);
    ENSURES("stays wet", i.wet());
    for (uint d = 0; d < i.nd; ++d) for (int r = 0; r < 3; ++r) ENSURES_EQ("state", i.q()(r, d), i.q0(r, d));
}
CONTRACT(momentum) {  // a partly dry element with enough water keeps its total momentum, and the shallow nodes have none
    In i;
    REQUIRES(i.dry > 0 && i.havg > HO + TOL && i.wet());
    for (int r = 1; r < 3; ++r) ENSURES_EQ("total momentum", i.lin(r, 0) + i.lin(r, 1) + i.lin(r, 2), i.lin0(r, 0) + i.lin0(r, 1) + i.lin0(r, 2));
    for (int v = 0; v < 3; ++v) {
        ENSURES("at least the minimum depth", i.h[v] >= HO - 1e-12);
        if (vc_split(i.h[v] <= HO + TOL)) for (int r = 1; r < 3; ++r) ENSURES_EQ("no momentum in a shallow node", i.lin(r, v), 0.0);
    }
}
CONTRACT(flag) {  // wet exactly if the deepest node stands above the highest ground by the minimum depth
    In i;
    if (i.dry == 3) { ENSURES("all nodes dry", !i.wet()); return; }
    if (i.dry == 0 && i.was) { ENSURES("all nodes wet", i.wet()); return; }
    REQUIRES(i.dry == 0 || i.havg > HO + TOL);
    int top = vc_split(i.h[0] >= i.h[1]) ? (vc_split(i.h[0] >= i.h[2]) ? 0 : 2) : (vc_split(i.h[1] >= i.h[2]) ? 1 : 2);
    REQUIRES(i.h[0] != i.h[1] && i.h[0] != i.h[2] && i.h[1] != i.h[2]);
    ENSURES("wet", !(i.lin(0, top) > HO - i.e.data.wet_dry_state.bath_min) || i.wet());
    ENSURES("dry", i.lin(0, top) > HO - i.e.data.wet_dry_state.bath_min || !i.wet());
}
