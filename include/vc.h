// Contract API.  A contract is a function  CONTRACT(name) { declare inputs; REQUIRES; call the real code; ENSURES; }
// The same text is (a) compiled to LLVM IR and turned into proof obligations by /verif/engine (inputs are then arbitrary
// values of their declared kind) and (b) compiled natively with VC_NATIVE to replay counterexamples on the real code.
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cstdint>
#include <stdexcept>
#include <cmath>
// Reals and arrays declared twice under one name are different inputs; sizes, indices and choices of one name are the same.
extern "C" {
double vc_real(const char* name, int kind, double lo, double hi);  // kind 0: any real, 1: > 0, 2: >= 0; lo..hi sampling range only
void vc_unit(const char* name, double* x, double* y);              // any (x,y) with x^2+y^2=1
std::size_t vc_size(const char* name, long lo, long hi, long blo, long bhi);  // any lo..hi; blo..bhi bounds for bounded/native runs
std::size_t vc_index(const char* name, std::size_t n);             // any 0 <= k < n
std::size_t vc_choose(const char* name, long lo, long hi);         // every lo..hi, enumerated
long vc_int(const char* name, long lo, long hi);                   // any integer lo..hi
void vc_fill(double* p, std::size_t n, const char* name, int kind, double lo, double hi);
void vc_fill_rows(double* p, std::size_t rows, std::size_t cols, const char* name, const int* kind, const double* lo, const double* hi);
void vc_fill_unit(double* p, std::size_t cols, const char* name);  // columns are unit vectors
// 3-row state with depth: q(0,j) = depth[j] - aux(0,j') with j' = j, or cols-1-j if rev; rows 1,2 free
void vc_fill_wet(double* q, const double* aux, std::size_t cols, const char* nq, const char* na, const char* nh, int rev, double lo, double hi);
void vc_assume(bool c);
void vc_ensure(const char* name, bool c);
void vc_eq(const char* name, double a, double b, double tol);      // tol 0: identity of real expressions; tol>0: coefficients equal up to tol
void vc_le(const char* name, double a, double b);
void vc_eq_int(const char* name, std::size_t a, std::size_t b);
int vc_try(void (*f)(void*), void* arg);                           // 1 if f throws
int vc_split(bool c);                                              // case distinction
double vc_d(double e, double x);                                   // d e / d x, symbolic only
double vc_tri_integral(double e, double x, double y);              // symbolic only
double vc_seg_integral(double e, double x);            // symbolic only
double vc_tri_moment(int i, int j);                    // integral of x^i y^j over the reference triangle
double vc_seg_moment(int i);
}
#define CONTRACT(n) extern "C" void vc_contract_##n()
#define CONTRACT_THOROUGH(n) extern "C" void vc_thorough_##n()
#define REQUIRES(c) vc_assume(c)
#define ENSURES(n, c) vc_ensure(n, c)
#define ENSURES_EQ(n, a, b) vc_eq(n, a, b, 0.0)
#define ENSURES_NEAR(n, a, b, tol) vc_eq(n, a, b, tol)
#define ENSURES_LE(n, a, b) vc_le(n, a, b)
#define ENSURES_INT(n, a, b) vc_eq_int(n, (std::size_t)(a), (std::size_t)(b))
inline double REAL(const char* n, double lo = -2.0, double hi = 2.0) { return vc_real(n, 0, lo, hi); }
inline double POS(const char* n, double lo = 0.1, double hi = 3.0) { return vc_real(n, 1, lo, hi); }
inline double NONNEG(const char* n, double lo = 0.0, double hi = 3.0) { return vc_real(n, 2, lo, hi); }
inline std::size_t SIZE(const char* n, long lo = 1, long hi = 1000000, long blo = 1, long bhi = 3) { return vc_size(n, lo, hi, blo, bhi); }

#ifdef VC_NATIVE
// numerical stand-in for symbolic differentiation: 4th order central differences
template <class F> inline double vc_deriv(F f, double x) {
    double h = 1e-3 * (1.0 + std::abs(x));
    return (8.0 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12.0 * h);
}
#define ENSURES_DERIV(n, a, f, x) vc_eq(n, a, vc_deriv(f, x), 1e-5)
#define NATIVE_REQUIRES(c) vc_assume(c)  // keeps finite differences away from kinks; no assumption of the proof
#else
template <class F> inline double vc_deriv(F f, double x) { return vc_d(f(x), x); }
#define ENSURES_DERIV(n, a, f, x) vc_eq(n, a, vc_d((f)(x), x), 0.0)
#define NATIVE_REQUIRES(c) (void)0
#endif

// exact integrals of polynomial functions over the reference triangle / [-1,1]; numerically (Gauss) when native
#ifdef VC_NATIVE
double vc_gauss(int n, int k, double* w);
template <class F> inline double TRI_INTEGRAL(F f) {
    double s = 0;
    for (int i = 0; i < 24; ++i) for (int j = 0; j < 24; ++j) { double wi, wj, a = vc_gauss(24, i, &wi), b = vc_gauss(24, j, &wj); s += wi * wj * (1 - b) / 2 * f((1 + a) * (1 - b) / 2 - 1, b); }
    return s;
}
template <class F> inline double SEG_INTEGRAL(F f) { double s = 0; for (int i = 0; i < 24; ++i) { double w, a = vc_gauss(24, i, &w); s += w * f(a); } return s; }
#else
template <class F> inline double TRI_INTEGRAL(F f) { double x = REAL("integration variable 1", -1, 0), y = REAL("integration variable 2", -1, 0.9); vc_assume(y < 1.0); return vc_tri_integral(f(x, y), x, y); }
template <class F> inline double SEG_INTEGRAL(F f) { double x = REAL("integration variable"); return vc_seg_integral(f(x), x); }
#endif

struct VcRow { int kind; double lo, hi; };
template <class M> inline void vc_fill_mat(M& m, const char* name, std::initializer_list<VcRow> rows) {
    int k[12]; double lo[12], hi[12]; int i = 0;
    for (auto& r : rows) { k[i] = r.kind; lo[i] = r.lo; hi[i] = r.hi; ++i; }
    vc_fill_rows(m.data(), i, m.cols(), name, k, lo, hi);
}
template <class F> struct VcThunk { F* f; static void go(void* p) { (*static_cast<VcThunk*>(p)->f)(); } };
template <class F> inline bool THROWS(F f) { VcThunk<F> t{&f}; return vc_try(&VcThunk<F>::go, &t) != 0; }
#endif
