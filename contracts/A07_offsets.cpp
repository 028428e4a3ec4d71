#include "vc.h"
#include "general_definitions.hpp"
#include "problem/SWE/swe_definitions.hpp"
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#include "problem/SWE/discretization_IHDG/ihdg_swe_problem.hpp"
// Message regions of consecutive distributed boundaries in one rank's buffers: each boundary gets room for its message of
// every kind and regions do not overlap.
namespace {
struct Alloc {
    uint n1, n2; std::vector<uint> begin, o1, o2; uint b0[8];
    template <class P> void run(uint n) {
        n1 = SIZE("ngp of the first", 1, 1000); n2 = SIZE("ngp of the second", 1, 1000);
        begin.resize(n);
        for (uint c = 0; c < n; ++c) { b0[c] = (uint)vc_int("begin", 0, 1000000); begin[c] = b0[c]; }
        o1 = P::comm_buffer_offsets(begin, n1); o2 = P::comm_buffer_offsets(begin, n2);
    }
    void room(uint c, uint s1, uint s2) {
        ENSURES("first region starts at the free space", o1[c] >= b0[c]);
        ENSURES("second region after the first message", o2[c] >= o1[c] + s1);
        ENSURES("buffer ends after the second message", begin[c] >= o2[c] + s2);
    }
};
}
CONTRACT(explicit_dg) {
    using namespace SWE::RKDG; Alloc a; a.run<Problem>(n_communications);
    a.room(SWE::RKDG::CommTypes::baryctr_coord, 2, 2);
    a.room(SWE::RKDG::CommTypes::bound_state, 1 + 3 * a.n1, 1 + 3 * a.n2);
    a.room(SWE::RKDG::CommTypes::baryctr_state, 1 + 3 + a.n1, 1 + 3 + a.n2);
}
CONTRACT(explicit_hdg) {
    using namespace SWE::EHDG; Alloc a; a.run<Problem>(n_communications);
    a.room(SWE::EHDG::CommTypes::baryctr_coord, 2, 2);
    a.room(SWE::EHDG::CommTypes::init_global_prob, a.n1, a.n2);
    a.room(SWE::EHDG::CommTypes::bound_state, 1 + 3 * a.n1, 1 + 3 * a.n2);
    a.room(SWE::EHDG::CommTypes::baryctr_state, 1 + 3 + a.n1, 1 + 3 + a.n2);
}
CONTRACT(implicit_hdg) {
    using namespace SWE::IHDG; Alloc a; a.run<Problem>(n_communications);
    a.room(SWE::IHDG::CommTypes::baryctr_coord, 2, 2);
    a.room(SWE::IHDG::CommTypes::init_global_prob, 1 + 4 * a.n1, 1 + 4 * a.n2);
    a.room(SWE::IHDG::CommTypes::baryctr_state, 1 + 3 + a.n1, 1 + 3 + a.n2);
}
