#include "vc.h"
#include <sstream>
#include <vector>
#include <array>
#include <string>
#include <iostream>
#define private public
#include "simulation/stepper/explicit_ssp_rk_stepper.hpp"
#undef private
#include "simulation/stepper/explicit_ssp_rk_stepper.cpp"
#include "problem/SWE/problem_data_structure/swe_data.hpp"
#include "swe_vc.h"
// Every method on offer; the members of the stepper are opened to the contract so that one increment starts from any point of a run
namespace {
const int methods[12][2] = {{1, 1}, {2, 2}, {3, 3}, {4, 3}, {5, 3}, {6, 3}, {7, 3}, {8, 3}, {5, 4}, {6, 4}, {7, 4}, {8, 4}};
StepperInput input(int m) { StepperInput i; i.nstages = methods[m][0]; i.order = methods[m][1]; i.dt = POS("dt"); i.ramp_duration = 0.0; i.run_time = 1.0; return i; }
struct Method {
    std::size_t m; ESSPRKStepper st; uint n;
    Method() : m(vc_choose("method", 0, 11)), st(input(m)), n(methods[m][0]) {}
};
struct Butcher {  // the method as k_s = f(t + c_s dt, y + dt sum_r a[s][r] k_r); row n is the update
    double a[9][8], c[9];
    Butcher(const ESSPRKStepper& st, uint n) {
        for (uint r = 0; r < 8; ++r) a[0][r] = 0.0;
        c[0] = 0.0;
        for (uint i = 0; i < n; ++i) {
            c[i + 1] = 0.0;
            for (uint r = 0; r < 8; ++r) {
                a[i + 1][r] = 0.0;
                for (uint s = 0; s <= i; ++s) a[i + 1][r] += st.ark[i][s] * a[s][r];
                if (r <= i) a[i + 1][r] += st.brk[i][r];
                c[i + 1] += a[i + 1][r];
            }
        }
    }
};
struct Element { SWE::Data data; };
}
CONTRACT(convex) {  // strong stability: every stage is a convex combination of forward Euler steps
    Method i;
    ENSURES_INT("stages", i.st.GetNumStages(), i.n);
    ENSURES_INT("order", i.st.GetOrder(), methods[i.m][1]);
    for (uint s = 0; s < i.n; ++s) {
        double sum = 0.0;
        for (uint l = 0; l <= s; ++l) {
            ENSURES_LE("weights are not negative", 0.0, i.st.ark[s][l]);
            ENSURES_LE("step weights are not negative", 0.0, i.st.brk[s][l]);
            if (i.st.ark[s][l] == 0.0) ENSURES_EQ("no step without a weight", i.st.brk[s][l], 0.0);
            sum += i.st.ark[s][l];
        }
        ENSURES_NEAR("weights add up to one", sum, 1.0, 1e-12);
    }
}
CONTRACT(order) {
    Method i; Butcher B(i.st, i.n); uint n = i.n; int p = methods[i.m][1]; const double* b = B.a[n];
    double s[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0};
    for (uint j = 0; j < n; ++j) {
        double ac = 0, acc = 0, aac = 0, c = B.c[j];
        for (uint k = 0; k < n; ++k) {
            ac += B.a[j][k] * B.c[k]; acc += B.a[j][k] * B.c[k] * B.c[k];
            for (uint l = 0; l < n; ++l) aac += B.a[j][k] * B.a[k][l] * B.c[l];
        }
        s[0] += b[j]; s[1] += b[j] * c; s[2] += b[j] * c * c; s[3] += b[j] * ac;
        s[4] += b[j] * c * c * c; s[5] += b[j] * c * ac; s[6] += b[j] * acc; s[7] += b[j] * aac;
    }
    const double want[8] = {1, 1.0 / 2, 1.0 / 3, 1.0 / 6, 1.0 / 4, 1.0 / 8, 1.0 / 12, 1.0 / 24};
    const int upto[5] = {0, 1, 2, 4, 8};
    for (int j = 0; j < upto[p]; ++j) ENSURES_NEAR("order condition", s[j], want[j], 1e-10);
}
CONTRACT(stage_times) {  // stage s is evaluated at t + c_s dt
    Method i; Butcher B(i.st, i.n); double t = REAL("t", 0, 100);
    i.st.t = t;
    for (uint s = 0; s < i.n; ++s) { i.st.stage = s; ENSURES_NEAR("stage time", i.st.GetTimeAtCurrentStage(), t + B.c[s] * i.st.GetDT(), 1e-9); }
}
CONTRACT(starts_at_zero) {
    Method i;
    ENSURES_EQ("time", i.st.GetTimeAtCurrentStage(), 0.0);
    ENSURES_INT("step", i.st.GetStep(), 0); ENSURES_INT("stage", i.st.GetStage(), 0); ENSURES_INT("timestamp", i.st.GetTimestamp(), 0);
    ENSURES_EQ("full forcing without a ramp", i.st.GetRamp(), 1.0);
}
CONTRACT(increment) {  // from any point of a run to the next stage
    Method i; uint s = (uint)vc_index("stage", i.n), k = SIZE("step", 0, 1000000), ts = SIZE("timestamp", 0, 1000000); double t = REAL("t", 0, 100), ramp = POS("ramp_duration", 0.1, 10), dt = i.st.GetDT();
    bool ramped = vc_choose("ramped", 0, 1);
    i.st.stage = s; i.st.step = k; i.st.timestamp = ts; i.st.t = t; i.st.ramp_duration = ramped ? 1.0 + ramp : 0.0; i.st.ramp = ramped ? 0.5 : 1.0;
    ++i.st;
    bool last = s + 1 == i.n;
    ENSURES_INT("stage", i.st.GetStage(), last ? 0 : s + 1);
    ENSURES_INT("step", i.st.GetStep(), last ? k + 1 : k);
    ENSURES_INT("timestamp", i.st.GetTimestamp(), ts + 1);
    ENSURES_EQ("time of the step", i.st.t, last ? t + dt : t);
    if (last) ENSURES_EQ("the new step starts one step later", i.st.GetTimeAtCurrentStage(), t + dt);
    ENSURES_EQ("ramp", i.st.GetRamp(), ramped ? std::tanh(2 * (i.st.GetTimeAtCurrentStage() / 86400) / (1.0 + ramp)) : 1.0);
}
CONTRACT(update) {  // the stage update of all degrees of freedom
    Method i; uint s = (uint)vc_choose("stage", 0, 7);
    REQUIRES(s < i.n);
    std::size_t nd = SIZE("ndof"), k = vc_index("dof", nd); Element e;
    e.data.state.resize(i.n + 1);
    Q3 q[9], d[9];
    for (uint l = 0; l <= i.n; ++l) {
        e.data.state[l].q.resize(3, nd); e.data.state[l].solution.resize(3, nd);
        vc_fill_mat(e.data.state[l].q, "q", {{0, -2, 2}, {0, -2, 2}, {0, -2, 2}});
        vc_fill_mat(e.data.state[l].solution, "rhs", {{0, -2, 2}, {0, -2, 2}, {0, -2, 2}});
        q[l] = e.data.state[l].q; d[l] = e.data.state[l].solution;
    }
    i.st.stage = s;
    i.st.UpdateState(e);
    for (int r = 0; r < 3; ++r) {
        double v = 0.0;
        for (uint l = 0; l <= s; ++l) v += i.st.ark[s][l] * q[l](r, k) + i.st.dt * i.st.brk[s][l] * d[l](r, k);
        ENSURES_EQ("stage value", e.data.state[s + 1 == i.n ? 0 : s + 1].q(r, k), v);
        for (uint l = 1; l <= s; ++l) ENSURES_EQ("earlier stages are kept", e.data.state[l].q(r, k), q[l](r, k));
        if (s + 1 < i.n) ENSURES_EQ("the step value is kept until the last stage", e.data.state[0].q(r, k), q[0](r, k));
    }
}
