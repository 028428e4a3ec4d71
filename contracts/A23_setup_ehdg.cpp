// The parallel preprocessor of the explicit hybridized scheme.
#define TRACE_PROBLEM "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#define SETUP_NS SWE::EHDG
#define SETUP_DISC HDGDiscretization<Own>
#include "swe_setup.h"
#include "problem/SWE/discretization_EHDG/kernels_preprocessor/ehdg_swe_pre_init_global_prob.hpp"
#include "problem/SWE/discretization_EHDG/kernels_preprocessor/ehdg_swe_pre_ompi.hpp"
#include "problem/SWE/discretization_EHDG/kernels_preprocessor/ehdg_swe_pre_serial.hpp"
typedef SWE::EHDG::Problem P;
namespace {
ESSPRKStepper stepper_(uint stages) { StepperInput i; i.nstages = stages; i.order = stages; i.dt = 1; i.ramp_duration = 0; i.run_time = 1; return ESSPRKStepper(i); }
}
CONTRACT(processes) {
    uint st = (uint)vc_choose("stages", 1, 3); Setup i(2, 1, SWE::EHDG::n_communications); SWE::GlobalData g; auto s = stepper_(st);
    P::preprocessor_ompi(i.units, g, s, 0, 3);
    i.check(st);
    for (uint k = 0; k < 2; ++k) {
        i.p.check_beds(k); i.r.check_beds(k); double mean = (i.p.shared().aux_at_gp(0, k) + i.r.shared().aux_at_gp(0, 1 - k)) / 2.0;
        ENSURES_EQ("mean bed on the shared side", i.p.bath(*i.p.cut_edge, k), mean); ENSURES_EQ("same bed beyond", i.r.bath(*i.r.cut_edge, 1 - k), mean);
    }
}
CONTRACT(serial) {
    uint st = (uint)vc_choose("stages", 1, 3); SETUP_SERIAL(SETUP_DISC, SWE::GlobalData) auto s = stepper_(st); d.mesh_skeleton = p.discretization.mesh_skeleton;
    P::preprocessor_serial(d, g, s, in);
    ENSURES_INT("initialized once", posted[0], 1); ENSURES_EQ("with the input", heard[0], in); for (auto e : d.mesh.elements) ENSURES_INT("room for the stages", e->data.state.size(), st + 1);
    for (uint k = 0; k < 2; ++k) p.check_beds(k);
}
