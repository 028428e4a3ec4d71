#include "swe_stub.h"
#include "problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_numerical_fluxes.hpp"
#include "problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp"
#include "problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_internal.hpp"
// Interior interface of the explicit DG scheme: arbitrary point k of the in side and its counterpart ke of the ex side
namespace {
struct In {
    std::size_t n, k, ke; StubIface<SWE::RKDG::ISP::Internal> f; bool wi, we, up, down; double F0[3];
    In() : n(SIZE("n")), k(vc_index("k", n)), ke(n - 1 - k), f(n), wi(vc_choose("wet_in", 0, 1)), we(vc_choose("wet_ex", 0, 1)) {
        f.data_in.wet_dry_state.wet = wi; f.data_ex.wet_dry_state.wet = we;
        f.specialization.Initialize(f);
        f.specialization.ComputeFlux(f);
        Q3 F(3, 1);
        SWE::RKDG::LLF_flux(SWE::Global::g, column(f.in().q_at_gp, k), column(f.ex().q_at_gp, ke), column(f.in().aux_at_gp, k), column(f.surface_normal_in, k), column(F, 0));
        for (int r = 0; r < 3; ++r) F0[r] = F(r, 0);
        up = vc_split(F0[0] > 1e-12); down = vc_split(F0[0] < -1e-12);
    }
    double Fi(int r) { return f.in().F_hat_at_gp(r, k); }
    double Fe(int r) { return f.ex().F_hat_at_gp(r, ke); }
};
}
CONTRACT(mass_conserved) { In i; ENSURES_EQ("what leaves one side enters the other", i.Fi(0) + i.Fe(0), 0.0); }
CONTRACT(both_wet) {
    In i; REQUIRES(i.wi && i.we);
    for (int r = 0; r < 3; ++r) { ENSURES_EQ("flux in", i.Fi(r), i.F0[r]); ENSURES_EQ("flux ex", i.Fe(r), -i.F0[r]); }
}
CONTRACT(nothing_from_dry) {  // no water leaves a dry element
    In i;
    if (i.up && !i.wi) for (int r = 0; r < 3; ++r) ENSURES_EQ("no flux out of the dry in side", i.Fi(r), 0.0);
    else if (i.down && !i.we) for (int r = 0; r < 3; ++r) ENSURES_EQ("no flux out of the dry ex side", i.Fe(r), 0.0);
    else ENSURES_EQ("mass flux otherwise", i.Fi(0), i.F0[0]);
    if (i.up && !i.wi) ENSURES_EQ("wall on the wet side", i.Fe(0), 0.0);
    if (i.down && !i.we) ENSURES_EQ("wall on the wet side", i.Fi(0), 0.0);
}
CONTRACT(into_dry) {  // a dry element that water flows into feels the advected momentum without the gravity terms
    In i;
    REQUIRES(i.wi || i.we);
    REQUIRES((i.up && !i.we) || (i.down && !i.wi));
    Q3 F(3, 1);
    if (i.up) {
        SWE::RKDG::LLF_flux(0.0, column(i.f.ex().q_at_gp, i.ke), column(i.f.in().q_at_gp, i.k), column(i.f.ex().aux_at_gp, i.ke), column(i.f.surface_normal_ex, i.ke), column(F, 0));
        for (int r = 1; r < 3; ++r) { ENSURES_EQ("momentum of the dry side", i.Fe(r), F(r, 0)); ENSURES_EQ("momentum of the wet side", i.Fi(r), i.F0[r]); }
    } else {
        SWE::RKDG::LLF_flux(0.0, column(i.f.in().q_at_gp, i.k), column(i.f.ex().q_at_gp, i.ke), column(i.f.in().aux_at_gp, i.k), column(i.f.surface_normal_in, i.k), column(F, 0));
        for (int r = 1; r < 3; ++r) { ENSURES_EQ("momentum of the dry side", i.Fi(r), F(r, 0)); ENSURES_EQ("momentum of the wet side", i.Fe(r), -i.F0[r]); }
    }
}
