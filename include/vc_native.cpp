// Native runtime of the contract API: random sampling and replay of counterexamples against the real code.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <cmath>
#include <csignal>
#include <csetjmp>
#include <initializer_list>
#include "vc.h"
namespace {
struct AssumeFail {};
std::mt19937_64 rng;
std::map<std::string, double> over, used;
std::vector<std::string> fails;
unsigned long nclauses = 0;
double uni(double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(rng); }
double pick(const std::string& n, int kind, double lo, double hi) {
    if (kind == 3) return lo;
    double v = 0;
    int m = int(rng() % 16);
    if (m == 0) v = kind == 1 ? lo : (kind == 2 ? 0.0 : 0.0);
    else if (m == 1) v = kind == 0 ? 1.0 : hi;
    else if (m == 2 && lo < 0 && hi > 0) v = uni(lo / 50, hi / 50);
    else if (m == 3 && lo > 0) v = lo * std::pow(hi / lo, uni(0, 1));
    else v = uni(lo, hi);
    auto it = over.find(n);
    if (it != over.end()) v = it->second;
    if (kind == 1 && !(v > 0)) v = lo > 0 ? lo : 1e-3;
    if (kind == 2 && v < 0) v = -v;
    used[n] = v;
    return v;
}
std::string el(const std::string& n, std::size_t i) { return n + "[" + std::to_string(i) + "]"; }
std::map<std::string, int> declared;
std::string fresh(const char* n) { int k = ++declared[n]; return k == 1 ? n : std::string(n) + "#" + std::to_string(k); }
}
extern "C" {
double vc_real(const char* n, int kind, double lo, double hi) { return pick(fresh(n), kind, lo, hi); }
static void unit(const std::string& a, const std::string& b, double* x, double* y) {
    double t = uni(0, 2 * M_PI);
    int m = int(rng() % 8);
    if (m == 0) t = M_PI / 2 * double(rng() % 4);
    *x = std::cos(t); *y = std::sin(t);
    if (over.count(a) && over.count(b)) { double r = std::hypot(over[a], over[b]); if (r > 0) { *x = over[a] / r; *y = over[b] / r; } }
    used[a] = *x; used[b] = *y;
}
void vc_unit(const char* nm, double* x, double* y) { std::string n = fresh(nm); unit(el(n, 0), el(n, 1), x, y); }
std::size_t vc_size(const char* n, long lo, long hi, long blo, long bhi) {
    static std::map<std::string, long> dummy;
    if (used.count(n)) return (std::size_t)used[n];
    long v = blo + long(rng() % (unsigned long)(bhi - blo + 1));
    auto it = over.find(n); if (it != over.end() && it->second >= lo && it->second <= hi && it->second <= 200) v = (long)it->second;
    used[n] = (double)v; return (std::size_t)v;
}
std::size_t vc_index(const char* n, std::size_t N) {
    if (N == 0) throw AssumeFail();
    std::size_t v = rng() % N; auto it = over.find(n); if (it != over.end() && it->second >= 0 && it->second < N) v = (std::size_t)it->second;
    used[n] = (double)v; return v;
}
std::size_t vc_choose(const char* n, long lo, long hi) { if (used.count(n)) return (std::size_t)(long)used[n]; long v = lo + long(rng() % (unsigned long)(hi - lo + 1)); auto it = over.find(n); if (it != over.end()) v = (long)it->second; used[n] = (double)v; return (std::size_t)v; }
long vc_int(const char* nm, long lo, long hi) { std::string n = fresh(nm); long v = lo + long(rng() % (unsigned long)(hi - lo + 1)); auto it = over.find(n); if (it != over.end()) v = (long)it->second; used[n] = (double)v; return v; }
void vc_fill(double* p, std::size_t n, const char* nm, int kind, double lo, double hi) { std::string name = fresh(nm); for (std::size_t i = 0; i < n; ++i) p[i] = pick(el(name, i), kind, lo, hi); }
void vc_fill_rows(double* p, std::size_t rows, std::size_t cols, const char* nm, const int* k, const double* lo, const double* hi) {
    std::string name = fresh(nm);
    for (std::size_t c = 0; c < cols; ++c) for (std::size_t r = 0; r < rows; ++r) p[c * rows + r] = pick(el(name, c * rows + r), k[r], lo[r], hi[r]); }
void vc_fill_unit(double* p, std::size_t cols, const char* nm) { std::string name = fresh(nm); for (std::size_t c = 0; c < cols; ++c) unit(el(name, 2 * c), el(name, 2 * c + 1), p + 2 * c, p + 2 * c + 1); }
void vc_fill_wet(double* q, const double* aux, std::size_t cols, const char* nqn, const char* na, const char* nhn, int rev, double lo, double hi) {
    std::string nq = fresh(nqn), nh = fresh(nhn);
    for (std::size_t j = 0; j < cols; ++j) {
        q[3 * j] = pick(el(nh, j), 1, lo, hi) - aux[3 * (rev ? cols - 1 - j : j)];
        for (int r = 1; r < 3; ++r) q[3 * j + r] = pick(el(nq, 3 * j + r), 0, -2, 2);
    }
}
void vc_assume(bool c) { if (!c) throw AssumeFail(); }
void vc_ensure(const char* n, bool c) { ++nclauses; if (!c) fails.push_back(n); }
static void fail2(const char* n, const char* rel, double a, double b) { char buf[400]; snprintf(buf, sizeof buf, "%s: not %.17g %s %.17g", n, a, rel, b); fails.push_back(buf); }
void vc_eq(const char* n, double a, double b, double tol) {
    ++nclauses; if (a == b || (a != a && b != b)) return;
    double t = tol > 1e-7 ? tol : 1e-7;
    if (!(std::abs(a - b) <= t * std::fmax(1.0, std::fmax(std::abs(a), std::abs(b))))) fail2(n, "==", a, b);
}
void vc_le(const char* n, double a, double b) { ++nclauses; if (!(a <= b + 1e-9 * std::fmax(1.0, std::fmax(std::abs(a), std::abs(b))))) fail2(n, "<=", a, b); }
void vc_eq_int(const char* n, std::size_t a, std::size_t b) { ++nclauses; if (a != b) fail2(n, "==", (double)a, (double)b); }
int vc_try(void (*f)(void*), void* arg) { try { f(arg); return 0; } catch (AssumeFail&) { throw; } catch (...) { return 1; } }
int vc_split(bool c) { return c; }
double vc_d(double, double) { return NAN; }
double vc_tri_integral(double, double, double) { return NAN; }
double vc_tri_moment(int i, int j) { int s1 = (i + 1) % 2 ? -1 : 1; auto seg = [](int k) { return k % 2 ? 0.0 : 2.0 / (k + 1); }; return s1 * (seg(i + 1 + j) - seg(j)) / (i + 1); }
}
extern "C" double vc_seg_integral(double, double) { return NAN; }
extern "C" double vc_seg_moment(int i) { return i % 2 ? 0.0 : 2.0 / (i + 1); }
double vc_gauss(int n, int k, double* w) {
    static std::map<std::pair<int, int>, std::pair<double, double>> memo;
    auto it = memo.find({n, k});
    if (it == memo.end()) {
        double x = std::cos(M_PI * (k + 0.75) / (n + 0.5)), d = 1;
        for (int t = 0; t < 60; ++t) {
            double a = 1, b = x;
            for (int j = 2; j <= n; ++j) { double c = ((2 * j - 1) * x * b - (j - 1) * a) / j; a = b; b = c; }
            d = n * (x * b - a) / (x * x - 1); x -= b / d;
        }
        it = memo.insert({{n, k}, {x, 2 / ((1 - x * x) * d * d)}}).first;
    }
    *w = it->second.second; return it->second.first;
}
static sigjmp_buf jb;
static void onsig(int s) { siglongjmp(jb, s); }
// usage: prog contract seed count [overrides-file]   (exit 1 when a clause failed; prints the inputs)
int main(int argc, char** argv) {
    std::string fn = std::string("vc_contract_") + argv[1];
    unsigned long seed = strtoul(argv[2], 0, 10); long count = atol(argv[3]);
    if (argc > 4 && argv[4][0]) {
        FILE* f = fopen(argv[4], "r"); char nm[512]; double v;
        while (f && fscanf(f, "%511s %lf", nm, &v) == 2) over[nm] = v;
        if (f) fclose(f);
    }
    auto go = (void (*)())dlsym(RTLD_DEFAULT, fn.c_str());
    if (!go) go = (void (*)())dlsym(RTLD_DEFAULT, (std::string("vc_thorough_") + argv[1]).c_str());
    if (!go) { fprintf(stderr, "no contract %s\n", fn.c_str()); return 3; }
    signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig);
    long ok = 0, skipped = 0;
    for (long i = 0; i < count; ++i) {
        unsigned long s = seed * 1000003UL + i;
        rng.seed(s); used.clear(); fails.clear(); declared.clear();
        int sig = sigsetjmp(jb, 1);
        if (sig) fails.push_back("crash: signal " + std::to_string(sig));
        else {
            try { go(); ++ok; } catch (AssumeFail&) { ++skipped; if (fails.empty()) continue; }
            catch (std::exception& e) { fails.push_back(std::string("exception escapes: ") + e.what()); }
            catch (...) { fails.push_back("exception escapes"); }
        }
        if (!fails.empty()) {
            printf("FAILED contract=%s sample_seed=%lu\n", argv[1], s);
            for (auto& f : fails) printf("CLAUSE %s\n", f.c_str());
            for (auto& u : used) printf("INPUT %s %.17g\n", u.first.c_str(), u.second);
            fflush(stdout);
            _exit(1);
        }
    }
    printf("OK ran=%ld skipped=%ld clauses=%lu\n", ok, skipped, nclauses);
    fflush(stdout);
    _exit(ok ? 0 : 4);
}
