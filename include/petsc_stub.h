// Stand-ins for the MPI and PETSc calls of the implicit scheme (their documented meaning on one process; the other processes
// of a collective call contribute arbitrary values).  The sparse solver returns some vector x and records the residual A x - b.
#ifndef PETSC_STUB_H
#define PETSC_STUB_H
#include <vector>
#include <numeric>
#include <algorithm>
typedef int MPI_Comm; typedef int MPI_Datatype;
constexpr MPI_Comm MPI_COMM_WORLD = 0, MPI_COMM_SELF = 1; constexpr MPI_Datatype MPI_UNSIGNED = 7;
struct StubWorld {
    int size = 1, rank = 0; std::vector<uint> gathered, scattered; uint mine = 0, broadcast = 0, offset = 0; int gathers = 0, casts = 0, scatters = 0;
};
inline StubWorld*& world() { static StubWorld* w = nullptr; return w; }
inline int MPI_Comm_size(MPI_Comm, int* n) { *n = world()->size; return 0; }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = world()->rank; return 0; }
inline int MPI_Gather(const void* s, int ns, MPI_Datatype, void* r, int nr, MPI_Datatype, int root, MPI_Comm) {
    auto& w = *world(); ++w.gathers; ENSURES_INT("one number from each", ns, 1); ENSURES_INT("one number from each", nr, 1); ENSURES_INT("gathered on the first process", root, 0);
    w.mine = *(const uint*)s; 
    if (w.rank == 0) for (int i = 0; i < w.size; ++i) { uint v = i ? (uint)vc_int("unknowns of another process", 0, 1000000) : w.mine; w.gathered.push_back(v); ((uint*)r)[i] = v; }
    return 0;
}
inline int MPI_Bcast(void* b, int n, MPI_Datatype, int root, MPI_Comm) {
    auto& w = *world(); ++w.casts; ENSURES_INT("one number", n, 1); ENSURES_INT("from the first process", root, 0);
    if (w.rank == 0) w.broadcast = *(uint*)b; else *(uint*)b = w.broadcast = (uint)vc_int("unknowns of all", 0, 1000000);
    return 0;
}
inline int MPI_Scatter(const void* s, int ns, MPI_Datatype, void* r, int nr, MPI_Datatype, int root, MPI_Comm) {
    auto& w = *world(); ++w.scatters; ENSURES_INT("one number to each", ns, 1); ENSURES_INT("one number to each", nr, 1); ENSURES_INT("from the first process", root, 0);
    if (w.rank == 0) { for (int i = 0; i < w.size; ++i) w.scattered.push_back(((const uint*)s)[i]); w.offset = w.scattered[0]; } else w.offset = (uint)vc_int("first number of this process", 0, 1000000);
    *(uint*)r = w.offset;
    return 0;
}
struct MatData { int n = 0; DynMatrix<double> a; };
struct VecData { int n = 0; DynVector<double> a; bool zero = true; };
typedef MatData* Mat; typedef VecData* Vec; typedef std::vector<int>* IS;
struct KspData { Mat a; int solves = 0; DynVector<double> residual, x; };
typedef KspData* KSP; typedef int PC;
struct ScatterData { Vec from, to; IS f, t; };
typedef ScatterData* VecScatter;
enum { PETSC_DECIDE = -1, PCLU = 1, PETSC_COPY_VALUES = 1, ADD_VALUES = 2, INSERT_VALUES = 1, MAT_FINAL_ASSEMBLY = 0, SCATTER_FORWARD = 0, NORM_2 = 1 };
struct StubGlobal { Mat delta_hat_global = nullptr; Vec rhs_global = nullptr; KSP ksp = nullptr; PC pc = 0; IS from = nullptr, to = nullptr; VecScatter scatter = nullptr; Vec sol = nullptr; DynVector<double> solution; bool converged = false; };
inline bool& stub_small() { static bool b = true; return b; }   // matrices are only filled where a contract needs them
inline int MatCreate(MPI_Comm, Mat* m) { *m = new MatData; return 0; }
inline int MatSetSizes(Mat m, int, int, int r, int c) { ENSURES("square", r == c); m->n = r; return 0; }
inline int MatSetUp(Mat m) { if (stub_small()) m->a = DynMatrix<double>::Zero(m->n, m->n); return 0; }
inline int VecCreateMPI(MPI_Comm, int, int n, Vec* v) { *v = new VecData; (*v)->n = n; if (stub_small()) (*v)->a = DynVector<double>::Zero(n); return 0; }
inline int VecCreateSeq(MPI_Comm, int n, Vec* v) { *v = new VecData; (*v)->n = n; (*v)->a = DynVector<double>::Zero(n); return 0; }
inline int KSPCreate(MPI_Comm, KSP* k) { *k = new KspData; return 0; }
inline int KSPSetOperators(KSP k, Mat a, Mat) { k->a = a; return 0; }
inline int KSPGetPC(KSP, PC*) { return 0; }
inline int PCSetType(PC, int) { return 0; }
inline int ISCreateGeneral(MPI_Comm, int n, const int* i, int, IS* s) { *s = new std::vector<int>(i, i + n); return 0; }
inline int ISCreateStride(MPI_Comm, int n, int first, int step, IS* s) { *s = new std::vector<int>; for (int k = 0; k < n; ++k) (*s)->push_back(first + k * step); return 0; }
inline int VecScatterCreate(Vec v, IS f, Vec w, IS t, VecScatter* s) { *s = new ScatterData{v, w, f, t}; return 0; }
inline int VecSetValues(Vec v, int n, const int* i, const double* y, int) { for (int k = 0; k < n; ++k) v->a[i[k]] += y[k]; return 0; }
inline int MatSetValues(Mat m, int nr, const int* r, int nc, const int* c, const double* y, int) { for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) m->a(r[i], c[j]) += y[i * nc + j]; return 0; }
inline int MatAssemblyBegin(Mat, int) { return 0; }
inline int MatAssemblyEnd(Mat, int) { return 0; }
inline int VecAssemblyBegin(Vec) { return 0; }
inline int VecAssemblyEnd(Vec) { return 0; }
inline int KSPSolve(KSP k, Vec b, Vec x) {
    ++k->solves; const int n = b->n; DynVector<double> v(n); for (int i = 0; i < n; ++i) v[i] = REAL("x", -1, 1);
    k->residual = k->a->a * v - b->a; k->x = v; x->a = v; return 0;
}
inline int VecScatterBegin(VecScatter s, Vec from, Vec to, int, int) {
    ENSURES("scatter set up for these vectors", s->from == from && s->to == to && s->f->size() == s->t->size());
    for (std::size_t i = 0; i < s->f->size(); ++i) to->a[(*s->t)[i]] = from->a[(*s->f)[i]]; return 0;
}
inline int VecScatterEnd(VecScatter, Vec, Vec, int, int) { return 0; }
inline int VecGetArray(Vec v, double** p) { *p = v->a.data(); return 0; }
inline int VecGetLocalSize(Vec v, int* n) { *n = v->n; return 0; }
inline int VecRestoreArray(Vec, double**) { return 0; }
inline int VecGetSize(Vec v, int* n) { *n = v->n; return 0; }
inline int VecNorm(Vec v, int, double* x) { double s = 0; for (int i = 0; i < v->n; ++i) s += v->a[i] * v->a[i]; *x = std::sqrt(s); return 0; }
inline int MatZeroEntries(Mat m) { for (int i = 0; i < m->n; ++i) for (int j = 0; j < m->n; ++j) m->a(i, j) = 0; return 0; }
inline int VecZeroEntries(Vec v) { for (int i = 0; i < v->n; ++i) v->a[i] = 0; return 0; }
#endif
