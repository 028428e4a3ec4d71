#include "vc.h"
#include <sstream>
#include <vector>
#include <array>
#include <string>
#include <iostream>
#define private public
#include "simulation/stepper/explicit_ssp_rk_stepper.hpp"
#include "simulation/stepper/implicit_stepper.hpp"
#include "simulation/stepper/second_strang_stepper.hpp"
#undef private
#include "simulation/stepper/explicit_ssp_rk_stepper.cpp"
namespace {
StepperInput input(uint order, uint nstages, double ramp) { StepperInput i; i.nstages = nstages; i.order = order; i.dt = POS("dt"); i.ramp_duration = ramp; i.run_time = 1.0; return i; }
double ramp_duration(bool ramped) { return ramped ? 1.0 + POS("ramp_duration") : 0.0; }  // days
double ramp_at(double t, double d, bool ramped) { return ramped ? std::tanh(2 * (t / 86400) / d) : 1.0; }
}
CONTRACT(implicit_methods) {  // backward Euler or Crank-Nicolson, anything else is refused
    uint o = (uint)vc_choose("order", 0, 4), n = (uint)vc_choose("nstages", 0, 3); StepperInput in = input(o, n, 0.0);
    bool ok = (o == 1 && n == 1) || (o == 2 && (n == 1 || n == 2));
    ENSURES("unknown methods are refused", THROWS([&] { ImplicitStepper st(in); }) == !ok);
    REQUIRES(ok);
    ImplicitStepper st(in);
    ENSURES_INT("one stage", st.GetNumStages(), 1);
    ENSURES_EQ("weight of the old state", st.GetTheta(), o == 1 ? 0.0 : 0.5);
    ENSURES_INT("order", st.GetOrder(), o);
    ENSURES_EQ("step size", st.GetDT(), in.dt);
}
CONTRACT(explicit_methods) {  // only the listed strong stability preserving methods are accepted
    uint o = (uint)vc_choose("order", 0, 5), n = (uint)vc_choose("nstages", 1, 9); StepperInput in = input(o, n, 0.0);
    bool ok = (o == 1 && n == 1) || (o == 2 && n == 2) || (o == 3 && n >= 3 && n <= 8) || (o == 4 && n >= 5 && n <= 8);
    ENSURES("unknown methods are refused", THROWS([&] { ESSPRKStepper st(in); }) == !ok);
}
CONTRACT(implicit_start) {
    bool ramped = vc_choose("ramped", 0, 1); double d = ramp_duration(ramped);
    ImplicitStepper st(input(2, 1, d));
    ENSURES_EQ("time", st.GetTimeAtCurrentStage(), 0.0);
    ENSURES_EQ("next time", st.GetTimeAtNextStage(), st.GetDT());
    ENSURES_EQ("ramp", st.GetRamp(), ramped ? 0.0 : 1.0);
    ENSURES_EQ("next ramp", st.GetRampNext(), ramp_at(st.GetDT(), d, ramped));
    ENSURES_INT("step", st.GetStep(), 0); ENSURES_INT("stage", st.GetStage(), 0); ENSURES_INT("timestamp", st.GetTimestamp(), 0);
}
CONTRACT(implicit_increment) {  // from any point of a run to the next step
    bool ramped = vc_choose("ramped", 0, 1); double d = ramp_duration(ramped), t = REAL("t", 0, 100); uint k = SIZE("step", 0, 1000000), ts = SIZE("timestamp", 0, 1000000);
    ImplicitStepper st(input(2, 1, d)); double dt = st.GetDT();
    st.t = t; st.step = k; st.timestamp = ts; st.ramp = ramp_at(t, d, ramped); st.ramp_next = ramp_at(t + dt, d, ramped);
    ++st;
    ENSURES_INT("step", st.GetStep(), k + 1); ENSURES_INT("stage", st.GetStage(), 0); ENSURES_INT("timestamp", st.GetTimestamp(), ts + 1);
    ENSURES_EQ("time", st.GetTimeAtCurrentStage(), t + dt);
    ENSURES_EQ("next time", st.GetTimeAtNextStage(), t + dt + dt);
    ENSURES_EQ("ramp", st.GetRamp(), ramp_at(t + dt, d, ramped));
    ENSURES_EQ("next ramp", st.GetRampNext(), ramp_at(t + dt + dt, d, ramped));
}
CONTRACT(strang_assigned) {  // the stepper of a run is built and then moved into place
    double dt = 0; SecondStrangStepper<ESSPRKStepper, ImplicitStepper> a; { StepperInput in = input(2, 2, 0.0); dt = in.dt; a = SecondStrangStepper<ESSPRKStepper, ImplicitStepper>(in); }
    ENSURES_EQ("half steps of the first part", a.GetFirstStepper().GetDT(), dt / 2); ENSURES_EQ("whole steps of the second part", a.GetSecondStepper().GetDT(), dt);
    ENSURES_INT("stages of the first part", a.GetFirstStepper().GetNumStages(), 2); ENSURES_INT("order of the second part", a.GetSecondStepper().GetOrder(), 2);
}
CONTRACT(ramp_bounds) {  // forcing grows from nothing and never exceeds the full forcing
    double d = ramp_duration(true), t = NONNEG("t", 0, 100000);
    ESSPRKStepper st(input(2, 2, d));
    ENSURES_EQ("starts from nothing", st.GetRamp(), 0.0);
    st.t = t;
    ++st;
    ENSURES_LE("not negative", 0.0, st.GetRamp());
    ENSURES_LE("at most full forcing", st.GetRamp(), 1.0);
    ImplicitStepper im(input(2, 1, d));
    im.t = t;
    ++im;
    ENSURES_LE("not negative", 0.0, im.GetRampNext());
    ENSURES_LE("at most full forcing", im.GetRampNext(), 1.0);
}
CONTRACT(strang) {  // half a step of the first problem around each step of the second
    SecondStrangStepper<ESSPRKStepper, ImplicitStepper> st(input(2, 2, 0.0));
    double dt = st.GetSecondStepper().GetDT();
    ENSURES_EQ("first stepper runs half steps", st.GetFirstStepper().GetDT(), dt / 2.0);
    ++st.GetSecondStepper();
    ENSURES_INT("steps of the second", st.GetStep(), 1);
    ENSURES_EQ("time of the second", st.GetTimeAtCurrentStage(), dt);
    ++st.GetFirstStepper(); ++st.GetFirstStepper(); ++st.GetFirstStepper(); ++st.GetFirstStepper();
    ENSURES_EQ("two half steps reach the same time", st.GetFirstStepper().GetTimeAtCurrentStage(), dt);
    SecondStrangStepper<ESSPRKStepper, ImplicitStepper> other;
    other = std::move(st);
    ENSURES_EQ("moved with its state", other.GetTimeAtCurrentStage(), dt);
    ENSURES_EQ("moved with its state", other.GetFirstStepper().GetDT(), dt / 2.0);
}
