#include "vc.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include "problem/SWE/swe_definitions.hpp"
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#include "simulation/stepper/explicit_ssp_rk_stepper.cpp"
#include "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#include "problem/SWE/problem_slope_limiter/swe_CS_sl_serial.hpp"
#include "problem/SWE/problem_preprocessor/swe_pre_init_data.hpp"
#include "problem/SWE/discretization_EHDG/kernels_preprocessor/ehdg_swe_pre_init_global_prob.hpp"
#include "problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp"
#include "basis/bases_1D/basis_legendre_1D.cpp"
#define BALANCE EHDG
#define BALANCE_HDG
#include "swe_balance.h"
// OPT *: divzero=1 merge=1 nosolve=1
CONTRACT(pond) { pond(); }  // one element with walls all round: still water over any sloping bed stays still
CONTRACT(lake) { lake(); }  // two elements over a common bed
CONTRACT(volume_wet) { volume_kept(true, true); }
CONTRACT(volume_dry_in) { volume_kept(false, true); }
CONTRACT(volume_dry_ex) { volume_kept(true, false); }
CONTRACT(volume_dry) { volume_kept(false, false); }
