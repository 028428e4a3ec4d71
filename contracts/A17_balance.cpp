#include "vc.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp"
#include "simulation/stepper/explicit_ssp_rk_stepper.cpp"
#define BALANCE RKDG
#include "swe_balance.h"
// OPT *: divzero=1 merge=1 nosolve=1
CONTRACT(pond) { pond(); }  // one element with walls all round: still water over any sloping bed stays still
CONTRACT(lake) { lake(); }  // two elements over a common bed
CONTRACT(volume_wet) { volume_kept(true, true); }
CONTRACT(volume_dry_in) { volume_kept(false, true); }
CONTRACT(volume_dry_ex) { volume_kept(true, false); }
CONTRACT(volume_dry) { volume_kept(false, false); }
CONTRACT(tendency) {  // the change of the amount of water in an element over a stage is the step times its total tendency
    uint p = (uint)vc_choose("p", 1, 2); Tri m(p); Vertices v = vc_vertices();
    Elem e(0, m, v.nodes(), {0, 1, 2}, {1, 1, 1}, {0, 0, 0});
    e.data.initialize(); e.data.resize(2);
    auto s = stepper(); const double dt = s.GetDT();
    auto& st = e.data.state[0];
    vc_fill_mat(st.q, "q", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}}); vc_fill_mat(st.rhs, "rhs", {{0, -1, 1}, {0, -1, 1}, {0, -1, 1}});
    double before[3], t[3];
    for (int k = 0; k < 3; ++k) { before[k] = amount(e, st.q, k); t[k] = st.rhs(k, 0); }
    st.solution = e.ApplyMinv(st.rhs);
    s.UpdateState(e);
    ++s;
    for (int k = 0; k < 3; ++k) ENSURES_NEAR("change of the total", amount(e, e.data.state[0].q, k), before[k] + dt * t[k], 1e-12);
}
