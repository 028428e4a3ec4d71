#define SCHEDULE_PROBLEM "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "swe_schedule.h"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp"
typedef SWE::RKDG::Problem P;
using namespace sched;
constexpr bool HDG = false;
namespace SWE { namespace RKDG {
template <> void Problem::volume_kernel(const ESSPRKStepper& s, Elem& e) { auto& t = e.data.state[s.GetStage()]; t.rhs = k()->vol * t.q; }
template <> void Problem::source_kernel(const ESSPRKStepper& s, Elem& e) { auto& t = e.data.state[s.GetStage()]; t.rhs += k()->src * (e.data.forcing * t.q); }
template <> void Problem::interface_kernel(const ESSPRKStepper& s, Iface& i) {
    auto &a = i.data_in.state[s.GetStage()], &b = i.data_ex.state[s.GetStage()];
    a.rhs += k()->own * a.q + k()->other * b.q; b.rhs += k()->own * b.q + k()->other * a.q;
}
template <> void Problem::boundary_kernel(const ESSPRKStepper& s, Bound& b) { auto& t = b.data.state[s.GetStage()]; t.rhs += k()->bnd * t.q; }
template <> void Problem::distributed_boundary_send_kernel(const ESSPRKStepper& s, DBound& b) { b.t = b.data.state[s.GetStage()].q; b.out[SWE::RKDG::CommTypes::bound_state] = b.t; }
template <> void Problem::distributed_boundary_kernel(const ESSPRKStepper& s, DBound& b) { b.data.state[s.GetStage()].rhs += k()->own * b.t + k()->other * b.in[SWE::RKDG::CommTypes::bound_state]; }
}}
#include "swe_schedule_contracts.h"

CONTRACT(stage_serial) { stage(false); }
CONTRACT(stage_distributed) { stage(true); }
CONTRACT(step_serial) { step(false); }
CONTRACT(step_distributed) { step(true); }
