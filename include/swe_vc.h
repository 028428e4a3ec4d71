// shared declarations for the shallow-water contracts
#ifndef SWE_VC_H
#define SWE_VC_H
#include "vc.h"
#include "general_definitions.hpp"
#include "problem/SWE/swe_definitions.hpp"
using Q3 = HybMatrix<double, 3>;
using N2 = HybMatrix<double, 2>;
// a wet state with exact depth h = ze + bath: h is the free positive input, bath follows
inline void wet_state(double& ze, double& qx, double& qy, double& bath, double& h, const char* nz, const char* nx, const char* ny, const char* nh) {
    ze = REAL(nz, -1, 1); qx = REAL(nx); qy = REAL(ny); h = POS(nh, 0.2, 4); bath = h - ze;
}
#endif
