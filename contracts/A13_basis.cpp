#include "vc.h"
#include <cmath>
#include "basis/bases_2D.hpp"
#include "basis/bases_1D.hpp"
#include "basis/bases_2D/basis_dubiner_2D.cpp"
#include "basis/bases_1D/basis_legendre_1D.cpp"
#include "basis/polynomials/basis_polynomials.cpp"
// Basis polynomials at an arbitrary point; integrals over the reference triangle are exact polynomial integrals
namespace {
typedef AlignedVector<Point<2>> Points;
uint ndof(uint p) { return (p + 1) * (p + 2) / 2; }
Points at(double x, double y) { Points v(1); v[0][0] = x; v[0][1] = y; return v; }
AlignedVector<Point<1>> at(double x) { AlignedVector<Point<1>> v(1); v[0][0] = x; return v; }
double phi(uint p, uint dof, double x, double y) { Basis::Dubiner_2D b; return b.GetPhi(p, at(x, y))(dof, 0); }
double psi(uint p, uint dof, double x) { Basis::Legendre_1D b; return b.GetPhi(p, at(x))(dof, 0); }
double ipow(double x, uint n) { double r = 1; for (uint i = 0; i < n; ++i) r *= x; return r; }
}
CONTRACT(gradient) {
    uint p = (uint)vc_choose("p", 0, 6), dof = (uint)vc_index("dof", ndof(p));
    double x = REAL("x", -1, 0), y = REAL("y", -1, 0.9);
    REQUIRES(y < 1.0);
    Basis::Dubiner_2D b; auto d = b.GetDPhi(p, at(x, y));
    ENSURES_DERIV("derivative in the first direction", d[0](dof, 0), [=](double s) { return phi(p, dof, s, y); }, x);
    ENSURES_DERIV("derivative in the second direction", d[1](dof, 0), [=](double s) { return phi(p, dof, x, s); }, y);
}
CONTRACT(orthogonal) {
    uint p = (uint)vc_choose("p", 0, 5), i = (uint)vc_choose("i", 0, 20), j = (uint)vc_choose("j", 0, 20);
    REQUIRES(i < ndof(p) && j < ndof(p) && j <= i && (p == 5 || i >= ndof(p - 1)));
    Basis::Dubiner_2D b; auto m = b.GetMinv(p);
    ENSURES("size of the inverse mass matrix", m.rows() == ndof(p) && m.cols() == ndof(p));
    double s = TRI_INTEGRAL([=](double x, double y) { Basis::Dubiner_2D b; auto f = b.GetPhi(p, at(x, y)); return f(i, 0) * f(j, 0); });
    ENSURES_NEAR("mass matrix times its inverse is the identity", s * m(j, j), i == j ? 1.0 : 0.0, 1e-12);
    if (i != j) { ENSURES("inverse mass matrix is diagonal", m(i, j) == 0.0 && m(j, i) == 0.0); }
}
CONTRACT(complete) {
    uint p = (uint)vc_choose("p", 0, 4), a = (uint)vc_choose("a", 0, 4), c = (uint)vc_choose("c", 0, 4);
    REQUIRES(a + c == p);
    double x = REAL("x", -1, 0), y = REAL("y", -1, 0.9);
    REQUIRES(y < 1.0);
    Basis::Dubiner_2D b; auto m = b.GetMinv(p); auto f = b.GetPhi(p, at(x, y));
    double r = 0;
    for (uint i = 0; i < ndof(p); ++i)
        r += f(i, 0) * m(i, i) * TRI_INTEGRAL([=](double s, double t) { return phi(p, i, s, t) * ipow(s, a) * ipow(t, c); });
    ENSURES_NEAR("projection reproduces every monomial up to the order", r, ipow(x, a) * ipow(y, c), 1e-10);
}
CONTRACT(several_points) {  // values do not depend on the other points of the list, nor on the order of the expansion
    uint p = (uint)vc_choose("p", 1, 4), dof = (uint)vc_index("dof", ndof(p));
    Points v(3);
    for (uint i = 0; i < 3; ++i) { v[i][0] = REAL("x", -1, 0); v[i][1] = REAL("y", -1, 0.9); REQUIRES(v[i][1] < 1.0); }
    Basis::Dubiner_2D b; auto f = b.GetPhi(p, v); auto d = b.GetDPhi(p, v);
    ENSURES("size", f.rows() == ndof(p) && f.cols() == 3 && d[0].cols() == 3 && d[1].rows() == ndof(p));
    for (uint i = 0; i < 3; ++i) {
        ENSURES_EQ("value at its own point", f(dof, i), phi(p + 1, dof, v[i][0], v[i][1]));
        auto e = b.GetDPhi(p + 1, at(v[i][0], v[i][1]));
        ENSURES_EQ("first derivative at its own point", d[0](dof, i), e[0](dof, 0));
        ENSURES_EQ("second derivative at its own point", d[1](dof, i), e[1](dof, 0));
    }
}
CONTRACT(singular_vertex) {  // values at (-1,1) are those of the polynomial: extrapolate along the edge from regular points
    uint p = (uint)vc_choose("p", 0, 5), dof = (uint)vc_index("dof", ndof(p));
    Basis::Dubiner_2D b; auto f = b.GetPhi(p, at(-1, 1)); auto d = b.GetDPhi(p, at(-1, 1));
    double s = 0, s1 = 0, s2 = 0;
    for (uint k = 0; k <= p; ++k) {
        double w = 1, yk = -1.0 + 0.25 * k;
        for (uint l = 0; l <= p; ++l) if (l != k) w *= (1.0 - (-1.0 + 0.25 * l)) / (0.25 * ((double)k - (double)l));
        auto g = b.GetDPhi(p, at(-1, yk));
        s += w * b.GetPhi(p, at(-1, yk))(dof, 0); s1 += w * g[0](dof, 0); s2 += w * g[1](dof, 0);
    }
    ENSURES_NEAR("value at the singular vertex", f(dof, 0), s, 1e-8);
    ENSURES_NEAR("first derivative at the singular vertex", d[0](dof, 0), s1, 1e-8);
    ENSURES_NEAR("second derivative at the singular vertex", d[1](dof, 0), s2, 1e-8);
}
CONTRACT(linear_parts) {
    uint p = (uint)vc_choose("p", 1, 5), dof = (uint)vc_index("dof", ndof(p)), v = (uint)vc_index("vertex", 3);
    const double vx[3] = {-1, 1, -1}, vy[3] = {-1, -1, 1};
    Basis::Dubiner_2D b; auto t = b.GetBasisLinearT(p); auto l = b.GetLinearBasisT(p);
    ENSURES("sizes", t.rows() == ndof(p) && t.cols() == 3 && l.rows() == 3 && l.cols() == ndof(p));
    ENSURES_NEAR("vertex value of each linear mode, none of the others", t(dof, v), dof < 3 ? phi(p, dof, vx[v], vy[v]) : 0.0, 1e-12);
    if (dof >= 3) { ENSURES("a linear function has no higher modes", l(v, dof) == 0.0); }
    double x = REAL("x", -1, 0), y = REAL("y", -1, 0.9);
    REQUIRES(y < 1.0);
    auto f = b.GetPhi(p, at(x, y));
    double r = 0;
    for (uint i = 0; i < ndof(p); ++i) r += l(v, i) * f(i, 0);
    double hat = v == 0 ? -(x + y) / 2 : v == 1 ? (1 + x) / 2 : (1 + y) / 2;
    ENSURES_NEAR("modes of the linear hat function of a vertex", r, hat, 1e-12);
}
CONTRACT(segment_gradient) {
    uint p = (uint)vc_choose("p", 0, 8), dof = (uint)vc_index("dof", p + 1);
    double x = REAL("x", -1, 1);
    Basis::Legendre_1D b; auto d = b.GetDPhi(p, at(x));
    ENSURES("size", d[0].rows() == p + 1 && d[0].cols() == 1);
    ENSURES_DERIV("derivative along the segment", d[0](dof, 0), [=](double s) { return psi(p, dof, s); }, x);
}
CONTRACT(segment_orthogonal) {
    uint p = (uint)vc_choose("p", 0, 8), i = (uint)vc_choose("i", 0, 8), j = (uint)vc_choose("j", 0, 8);
    REQUIRES(i <= p && j <= p && (i == p || j == p));
    Basis::Legendre_1D b; auto m = b.GetMinv(p);
    double s = SEG_INTEGRAL([=](double x) { Basis::Legendre_1D b; auto f = b.GetPhi(p, at(x)); return f(i, 0) * f(j, 0); });
    ENSURES_NEAR("mass matrix times its inverse is the identity", s * m(j, j), i == j ? 1.0 : 0.0, 1e-12);
    if (i != j) { ENSURES("inverse mass matrix is diagonal", m(i, j) == 0.0); }
}
CONTRACT(segment_complete) {
    uint p = (uint)vc_choose("p", 0, 8);
    double x = REAL("x", -1, 1);
    Basis::Legendre_1D b; auto m = b.GetMinv(p); auto f = b.GetPhi(p, at(x));
    double r = 0;
    for (uint i = 0; i <= p; ++i) r += f(i, 0) * m(i, i) * SEG_INTEGRAL([=](double s) { return psi(p, i, s) * ipow(s, p); });
    ENSURES_NEAR("projection reproduces the highest monomial", r, ipow(x, p), 1e-10);
}
