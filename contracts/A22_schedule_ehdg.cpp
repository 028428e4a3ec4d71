#define SCHEDULE_PROBLEM "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#define SCHEDULE_HDG
#include "swe_schedule.h"
#include "problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp"
#include "problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp"
typedef SWE::EHDG::Problem P;
using namespace sched;
constexpr bool HDG = true;
namespace SWE { namespace EHDG {
template <> void Problem::local_volume_kernel(const ESSPRKStepper& s, Elem& e) { auto& t = e.data.state[s.GetStage()]; t.rhs = k()->vol * t.q; }
template <> void Problem::local_source_kernel(const ESSPRKStepper& s, Elem& e) { auto& t = e.data.state[s.GetStage()]; t.rhs += k()->src * (e.data.forcing * t.q); }
template <> void Problem::global_interface_kernel(const ESSPRKStepper& s, Iface& i) { i.t_in = k()->trace * i.data_in.state[s.GetStage()].q; i.t_ex = k()->trace * i.data_ex.state[s.GetStage()].q; }
template <> void Problem::global_boundary_kernel(const ESSPRKStepper& s, Bound& b) { b.t = k()->trace * b.data.state[s.GetStage()].q; }
template <> void Problem::global_distributed_boundary_kernel(const ESSPRKStepper& s, DBound& b) { b.t = k()->trace * b.data.state[s.GetStage()].q; b.out[SWE::EHDG::CommTypes::bound_state] = b.t; }
template <> void Problem::local_interface_kernel(const ESSPRKStepper& s, Iface& i) { i.data_in.state[s.GetStage()].rhs += k()->own * i.flux; i.data_ex.state[s.GetStage()].rhs += k()->own * i.flux; }
template <> void Problem::local_boundary_kernel(const ESSPRKStepper& s, Bound& b) { b.data.state[s.GetStage()].rhs += k()->bnd * b.flux; }
template <> void Problem::local_distributed_boundary_kernel(const ESSPRKStepper& s, DBound& b) { b.data.state[s.GetStage()].rhs += k()->own * b.flux; }
}}
#include "swe_schedule_contracts.h"

CONTRACT(stage_serial) { stage(false); }
CONTRACT(stage_distributed) { stage(true); }
CONTRACT(step_serial) { step(false); }
CONTRACT(step_distributed) { step(true); }
