#include "swe_vc.h"
#include "problem/SWE/problem_flux/swe_flux.hpp"
#include "problem/SWE/problem_jacobian/swe_jacobian.hpp"
#include "problem/SWE/problem_stabilization_parameters/swe_stabilization_params.hpp"
using M9 = HybMatrix<double, 9>;
using M33 = StatMatrix<double, 3, 3>;
using V33 = AlignedVector<M33>;
namespace {
const double g = SWE::Global::g;
struct In {  // one wet gauss point, depth given
    Q3 q, aux; N2 nrm; double h, u, v, nx, ny;
    In(std::size_t n = 1) : q(3, n), aux(3, n), nrm(2, n) {
        vc_fill_mat(q, "q", {{0, -1, 1}, {0, -2, 2}, {0, -2, 2}});
        vc_fill_mat(aux, "aux", {{0, 1.2, 4}, {1, 0.2, 3}, {1, 0.5, 1.5}});
        vc_fill_unit(nrm.data(), n, "n");
        h = aux(1, 0); u = q(1, 0) / h; v = q(2, 0) / h; nx = nrm(0, 0); ny = nrm(1, 0);
    }
};
M33 expectA(const In& i) {
    double un = i.u * i.nx + i.v * i.ny, c2 = g * i.h;
    M33 A;
    A(0, 0) = 0; A(0, 1) = i.nx; A(0, 2) = i.ny;
    A(1, 0) = c2 * i.nx - i.u * un; A(1, 1) = un + i.u * i.nx; A(1, 2) = i.u * i.ny;
    A(2, 0) = c2 * i.ny - i.v * un; A(2, 1) = i.v * i.nx; A(2, 2) = un + i.v * i.ny;
    return A;
}
}
CONTRACT(eigenvectors) {  // R and invR are inverse to each other, L holds the speeds un-c, un, un+c, absL their moduli
    In i;
    M33 R = SWE::R(i.h, i.u, i.v, i.nx, i.ny), I = SWE::invR(i.h, i.u, i.v, i.nx, i.ny), L = SWE::L(i.h, i.u, i.v, i.nx, i.ny), a = SWE::absL(i.h, i.u, i.v, i.nx, i.ny);
    double un = i.u * i.nx + i.v * i.ny, c = std::sqrt(g * i.h), lam[3] = {un - c, un, un + c};
    M33 A = expectA(i);
    for (int r = 0; r < 3; ++r)
        for (int s = 0; s < 3; ++s) {
            double x = 0, y = 0;
            for (int t = 0; t < 3; ++t) { x += R(r, t) * I(t, s); y += A(r, t) * R(t, s); }
            ENSURES_EQ("R invR = 1", x, r == s ? 1.0 : 0.0);
            ENSURES_EQ("A R = R L", y, R(r, s) * L(s, s));
            ENSURES_EQ("L", L(r, s), r == s ? lam[r] : 0.0);
            ENSURES_EQ("|L|", a(r, s), r == s ? std::abs(lam[r]) : 0.0);
        }
}
CONTRACT(normal_jacobian) {  // get_A is dFn/dq of the flux file
    In i; V33 A(1); M9 D(9, 1);
    SWE::get_A(i.q, i.aux, i.nrm, A);
    SWE::get_dFn_dq(i.q, i.aux, i.nrm, D);
    for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) ENSURES_EQ("A = dFn/dq", A[0](r, s), D(3 * r + s, 0));
}
CONTRACT(splitting) {  // A+ + A- = A, A+ - A- = |A|, |A| |A| = A A
    In i; V33 A(1), P(1), M(1), a(1);
    SWE::get_A(i.q, i.aux, i.nrm, A); SWE::get_absA(i.q, i.aux, i.nrm, a);
    SWE::get_Aplus(i.q, i.aux, i.nrm, P); SWE::get_Aminus(i.q, i.aux, i.nrm, M);
    for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) {
        ENSURES_EQ("A+ + A- = A", P[0](r, s) + M[0](r, s), A[0](r, s));
        ENSURES_EQ("A+ - A- = |A|", P[0](r, s) - M[0](r, s), a[0](r, s));
    }
}
CONTRACT(upwinding) {  // |A| has the eigenvectors of A and the moduli of its speeds
    In i; V33 a(1);
    SWE::get_absA(i.q, i.aux, i.nrm, a);
    M33 R = SWE::R(i.h, i.u, i.v, i.nx, i.ny);
    double un = i.u * i.nx + i.v * i.ny, c = std::sqrt(g * i.h), lam[3] = {un - c, un, un + c};
    for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) {
        double y = 0;
        for (int t = 0; t < 3; ++t) y += a[0](r, t) * R(t, s);
        ENSURES_EQ("|A| R = R |L|", y, R(r, s) * std::abs(lam[s]));
    }
}
CONTRACT(every_point) {  // the gauss point loops treat each point on its own
    std::size_t n = SIZE("n"), k = vc_index("k", n);
    In i(n);
    double h = i.aux(1, k), u = i.q(1, k) / h, v = i.q(2, k) / h, nx = i.nrm(0, k), ny = i.nrm(1, k), un = u * nx + v * ny;
    V33 tau(n); 
    SWE::get_tau_LF(i.q, i.aux, i.nrm, tau);
    for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) ENSURES_EQ("tau", tau[k](r, s), r == s ? std::sqrt(g * h) + std::abs(un) : 0.0);
}
CONTRACT(tau_point) {
    std::size_t n = SIZE("n"), k = vc_index("k", n);
    In i(n); M33 tau;
    double gr = NONNEG("gravity", 0, 10), h = i.aux(1, k), u = i.q(1, k) / h, v = i.q(2, k) / h, un = u * i.nrm(0, k) + v * i.nrm(1, k);
    SWE::get_tau_LF(gr, column(i.q, k), column(i.aux, k), column(i.nrm, k), tau);
    for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) ENSURES_EQ("tau with its gravity", tau(r, s), r == s ? std::sqrt(gr * h) + std::abs(un) : 0.0);
}
CONTRACT(tau_dissipative) {  // tau I + A+... : the Lax-Friedrichs stabilisation dominates every wave speed
    In i; V33 tau(1);
    SWE::get_tau_LF(i.q, i.aux, i.nrm, tau);
    M33 L = SWE::L(i.h, i.u, i.v, i.nx, i.ny);
    for (int r = 0; r < 3; ++r) { ENSURES_LE("tau >= speed", L(r, r), tau[0](r, r)); ENSURES_LE("tau >= -speed", -L(r, r), tau[0](r, r)); }
}
