// Falsifier support: replays contract preconditions on the real, compiled library with an
// independent oracle.  Exact arithmetic: values are small dyadic rationals.
#pragma once
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include "linalgcpp.hpp"

using namespace linalgcpp;
typedef std::vector<std::vector<double>> Mat;

namespace fz
{
static uint64_t g_state = 1;
static std::string g_case;          // description of the running case
static const char* g_what = "";     // operation under test
static long g_cases = 0, g_nontrivial = 0;
static std::unordered_set<uint64_t> g_seen;
static std::vector<std::string> g_samples;
static std::vector<int> g_extra;    // literals of the code under contract, used as sizes
static double g_budget = 10;
static bool g_flat = false;          // no scaled data: sums of mixed operands stay exact
static timespec g_t0;

inline double elapsed()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return (t.tv_sec - g_t0.tv_sec) + 1e-9 * (t.tv_nsec - g_t0.tv_nsec);
}
inline uint64_t rnd()
{
    uint64_t z = (g_state += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline int irand(int lo, int hi) { return hi <= lo ? lo : lo + (int)(rnd() % (uint64_t)(hi - lo + 1)); }
inline bool coin(int num, int den) { return irand(1, den) <= num; }

inline void report(const char* why)
{
    // async-signal tolerant enough for a dying process
    char head[256];
    int n = snprintf(head, sizeof head, "\nFALSIFIED op=%s why=%s case=", g_what, why);
    (void)!write(1, head, n);
    (void)!write(1, g_case.data(), g_case.size() > 6000 ? 6000 : g_case.size());
    (void)!write(1, "\n", 1);
}
inline void on_signal(int s)
{
    report(s == SIGALRM ? "does not terminate" : s == SIGABRT ? "aborted (assertion or memory error)" : s == SIGSEGV ? "segmentation fault" : "signal");
    _exit(1);
}
inline void fail(const std::string& why)
{
    report(why.c_str());
    _exit(1);
}
inline void begin(const char* what, const std::string& desc, bool nontrivial = true)
{
    g_what = what;
    g_case = desc;
    ++g_cases;
    if (nontrivial)
    {
        uint64_t h = std::hash<std::string>()(std::string(what) + desc);
        if (g_seen.size() < 2000000 && g_seen.insert(h).second) ++g_nontrivial;
    }
    if (g_samples.size() < 3 && g_cases % 37 == 5) g_samples.push_back(std::string(what) + ": " + desc.substr(0, 300));
    if (g_cases % 64 == 0) alarm(60);
}
inline void also(const std::string& s) { g_case += s; }
inline void op(const char* what) { g_what = what; }

// ---- generators
inline int size_pick(int big = 40)
{
    int k = irand(0, 99);
    if (k < 70) return irand(0, 5);
    if (k < 92) return irand(6, 12);
    if (k < 96 && !g_extra.empty())
    {
        int e = g_extra[irand(0, (int)g_extra.size() - 1)] + irand(-1, 1);
        if (e >= 0 && e <= big * 40) return e;
    }
    return irand(13, big);
}
inline double val()
{
    int k = irand(0, 39);
    if (k < 30) return irand(-4, 4);
    if (k < 36) return irand(-9, 9) * 0.5;
    if (k < 38) return irand(-4, 4) * std::ldexp(1.0, -12);
    return irand(-60, 60);
}
inline double nzval() { double v; do v = val(); while (v == 0); return v; }
inline double pow2() { double v = std::ldexp(1.0, irand(-3, 3)); return coin(1, 2) ? v : -v; }
inline std::vector<double> vals(int n)
{
    std::vector<double> v(n);
    double s = !g_flat && coin(1, 12) ? std::ldexp(1.0, coin(1, 2) ? -40 : 30) : 1.0;
    for (auto& x : v) x = val() * s;
    return v;
}
inline std::vector<double> junk(int n) { std::vector<double> v(n); for (auto& x : v) x = irand(-1000, 1000) + 0.25; return v; }
inline Vector<double> vect(const std::vector<double>& v)
{
    Vector<double> x((int)v.size());
    for (size_t i = 0; i < v.size(); ++i) x[i] = v[i];
    return x;
}
struct Csr { int rows, cols; std::vector<int> p, ix; std::vector<double> dt; };
inline Csr csr(int rows, int cols, bool dup = true, bool sorted = false)
{
    Csr a; a.rows = rows; a.cols = cols; a.p.push_back(0);
    int dens = irand(0, 4);
    double s = !g_flat && coin(1, 15) ? std::ldexp(1.0, coin(1, 2) ? -40 : 30) : 1.0;
    for (int i = 0; i < rows; ++i)
    {
        int n = 0;
        if (cols > 0)
        {
            if (dens == 0) n = 0;
            else if (dens == 1) n = coin(1, 2) ? 0 : irand(0, 2);
            else if (dens == 2) n = irand(0, std::min(cols, 4));
            else if (dens == 3) n = irand(0, std::min(cols, 12));
            else n = coin(1, 3) ? std::min(cols, 40) : irand(0, std::min(cols, 6));
        }
        std::vector<int> c;
        std::set<int> seen;
        for (int k = 0; k < n; ++k)
        {
            int j = irand(0, cols - 1);
            if (!dup) { if (seen.count(j)) continue; seen.insert(j); }
            c.push_back(j);
        }
        if (coin(1, 4) && rows <= cols + 3 && i < cols && (dup || !seen.count(i))) c.push_back(i);
        if (sorted || coin(1, 3)) std::sort(c.begin(), c.end());
        for (int j : c) { a.ix.push_back(j); a.dt.push_back(coin(1, 12) ? 0.0 : val() * s); }
        a.p.push_back((int)a.ix.size());
    }
    return a;
}
inline SparseMatrix<double> mk(const Csr& a) { return SparseMatrix<double>(a.p, a.ix, a.dt, a.rows, a.cols); }
inline Mat zeros(int r, int c) { return Mat(r, std::vector<double>(c, 0.0)); }
inline Mat dense_of(const Csr& a)
{
    Mat m = zeros(a.rows, a.cols);
    for (int i = 0; i < a.rows; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) m[i][a.ix[k]] += a.dt[k];
    return m;
}
inline Csr csr_of(const SparseMatrix<double>& A)
{
    Csr a; a.rows = A.Rows(); a.cols = A.Cols(); a.p = A.GetIndptr(); a.ix = A.GetIndices(); a.dt = A.GetData();
    return a;
}
inline Mat transpose(const Mat& m, int r, int c)
{
    Mat t = zeros(c, r);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) t[j][i] = m[i][j];
    return t;
}
inline Mat mul(const Mat& a, const Mat& b, int r, int k, int c)
{
    Mat m = zeros(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) for (int l = 0; l < k; ++l) m[i][j] += a[i][l] * b[l][j];
    return m;
}
inline Mat matrand(int r, int c)
{
    Mat m = zeros(r, c);
    double s = !g_flat && coin(1, 15) ? std::ldexp(1.0, coin(1, 2) ? -40 : 30) : 1.0;
    for (auto& x : m) for (auto& y : x) y = coin(1, 6) ? 0.0 : val() * s;
    return m;
}
inline DenseMatrix dm(const Mat& m, int r, int c)
{
    std::vector<double> d((size_t)r * c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) d[i + (size_t)j * r] = m[i][j];
    return DenseMatrix(r, c, d);
}
inline DenseMatrix junkdense()
{
    int r = irand(0, 7), c = irand(0, 7);
    return DenseMatrix(r, c, junk(r * c));
}
// ---- printing
template <typename T> std::string str(const std::vector<T>& v)
{
    std::ostringstream o; o.precision(17); o << "[";
    for (size_t i = 0; i < v.size() && i < 400; ++i) o << (i ? "," : "") << v[i];
    if (v.size() > 400) o << ",...(" << v.size() << ")";
    o << "]"; return o.str();
}
inline std::string str(const Csr& a)
{
    std::ostringstream o; o << "CSR " << a.rows << "x" << a.cols << " indptr=" << str(a.p) << " indices=" << str(a.ix) << " data=" << str(a.dt);
    return o.str();
}
inline std::string str(const Mat& m, int r, int c)
{
    std::ostringstream o; o << r << "x" << c << "{";
    for (auto& x : m) o << str(x);
    o << "}"; return o.str();
}
inline std::string num(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
inline std::string str(int x) { return std::to_string(x); }
// ---- comparisons
inline void check(bool ok, const std::string& why) { if (!ok) fail(why); }
inline bool same(double a, double b) { return a == b || (a != a && b != b); }
inline void eqv(const std::vector<double>& got, const std::vector<double>& want, const std::string& what)
{
    if (got.size() != want.size()) fail(what + ": length " + str((int)got.size()) + " expected " + str((int)want.size()));
    for (size_t i = 0; i < got.size(); ++i)
        if (!same(got[i], want[i])) fail(what + "[" + str((int)i) + "] = " + num(got[i]) + " expected " + num(want[i]));
}
inline void eqi(const std::vector<int>& got, const std::vector<int>& want, const std::string& what)
{
    if (got != want) fail(what + " = " + str(got) + " expected " + str(want));
}
inline std::vector<double> get(const VectorView<double>& v)
{
    std::vector<double> r(v.size());
    for (int i = 0; i < v.size(); ++i) r[i] = v[i];
    return r;
}
inline void eqd(const DenseMatrix& got, const Mat& want, int r, int c, const std::string& what)
{
    if (got.Rows() != r || got.Cols() != c)
        fail(what + ": shape " + str(got.Rows()) + "x" + str(got.Cols()) + " expected " + str(r) + "x" + str(c));
    std::vector<double> d; got.CopyData(d);
    if ((int)d.size() != r * c) fail(what + ": storage of " + str((int)d.size()) + " values");
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j)
    {
        if (!same(got(i, j), want[i][j])) fail(what + "(" + str(i) + "," + str(j) + ") = " + num(got(i, j)) + " expected " + num(want[i][j]));
        if (!same(d[i + j * r], want[i][j])) fail(what + " storage order");
    }
}
inline void valid(const Csr& a, const std::string& what)
{
    if (a.rows < 0 || a.cols < 0) fail(what + ": negative size");
    if ((int)a.p.size() != a.rows + 1) fail(what + ": indptr has " + str((int)a.p.size()) + " entries for " + str(a.rows) + " rows");
    if (a.ix.size() != a.dt.size()) fail(what + ": indices and data differ in length");
    if (a.p[0] != 0 || a.p[a.rows] != (int)a.ix.size()) fail(what + ": indptr ends " + str(a.p) + " nnz " + str((int)a.ix.size()));
    for (int i = 0; i < a.rows; ++i) if (a.p[i] > a.p[i + 1]) fail(what + ": indptr not monotone " + str(a.p));
    for (int j : a.ix) if (j < 0 || j >= a.cols) fail(what + ": column index " + str(j) + " outside " + str(a.cols));
}
inline void eqcsr(const Csr& got, const Csr& want, const std::string& what)
{
    if (got.rows != want.rows || got.cols != want.cols)
        fail(what + ": shape " + str(got.rows) + "x" + str(got.cols) + " expected " + str(want.rows) + "x" + str(want.cols));
    eqi(got.p, want.p, what + ".indptr");
    eqi(got.ix, want.ix, what + ".indices");
    eqv(got.dt, want.dt, what + ".data");
}
inline void eqmat(const Csr& got, const Mat& want, int r, int c, const std::string& what)
{
    valid(got, what);
    if (got.rows != r || got.cols != c) fail(what + ": shape " + str(got.rows) + "x" + str(got.cols) + " expected " + str(r) + "x" + str(c));
    Mat m = dense_of(got);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j)
        if (!same(m[i][j], want[i][j])) fail(what + "(" + str(i) + "," + str(j) + ") = " + num(m[i][j]) + " expected " + num(want[i][j]));
}

typedef void (*Fn)();
inline int run(int argc, char** argv, const std::vector<Fn>& fns)
{
    uint64_t seed = 1;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--budget") g_budget = atof(argv[++i]);
        else if (a == "--extra") { std::stringstream s(argv[++i]); int x; char c; while (s >> x) { g_extra.push_back(x); s >> c; } }
    }
    clock_gettime(CLOCK_MONOTONIC, &g_t0);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGALRM, SIGBUS, SIGILL}) signal(s, on_signal);
    alarm(60);
    g_state = seed * 7919 + 13;
    long rounds = 0;
    while (elapsed() < g_budget || rounds < 20)
    {
        for (auto f : fns) f();
        ++rounds;
        if (elapsed() > 20 * g_budget + 60) break;
    }
    alarm(0);
    printf("\nPASSED cases=%ld nontrivial=%ld rounds=%ld\n", g_cases, g_nontrivial, rounds);
    for (auto& s : g_samples) printf("SAMPLE %s\n", s.c_str());
    return 0;
}
} // namespace fz
using namespace fz;
