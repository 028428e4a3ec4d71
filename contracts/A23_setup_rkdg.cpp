// The parallel preprocessor of the discontinuous scheme.
#define TRACE_PROBLEM "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#define SETUP_NS SWE::RKDG
#define SETUP_DISC HDGDiscretization<Own>
#include "swe_setup.h"
#include "problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_pre_ompi.hpp"
#include "problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_pre_serial.hpp"
typedef SWE::RKDG::Problem P;
namespace {
ESSPRKStepper stepper_(uint stages) { StepperInput i; i.nstages = stages; i.order = stages; i.dt = 1; i.ramp_duration = 0; i.run_time = 1; return ESSPRKStepper(i); }
}
CONTRACT(processes) {
    uint st = (uint)vc_choose("stages", 1, 3); Setup i(2, 1, SWE::RKDG::n_communications); SWE::GlobalData g; auto s = stepper_(st);
    P::preprocessor_ompi(i.units, g, s, 0, 3);
    i.check(st);
}
CONTRACT(serial) {
    uint st = (uint)vc_choose("stages", 1, 3); SETUP_SERIAL(SETUP_DISC, SWE::GlobalData) auto s = stepper_(st);
    P::preprocessor_serial(d, g, s, in);
    ENSURES_INT("initialized once", posted[0], 1); ENSURES_EQ("with the input", heard[0], in); for (auto e : d.mesh.elements) ENSURES_INT("room for the stages", e->data.state.size(), st + 1);
}
