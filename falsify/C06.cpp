#include "common.hpp"

typedef std::function<double(int, int, double)> F;
static void same_pattern(SparseMatrix<double>& A, const Csr& a, F f, const char* what)
{
    Csr w = a;
    for (int i = 0; i < a.rows; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) w.dt[k] = f(i, a.ix[k], a.dt[k]);
    eqcsr(csr_of(A), w, what);
    valid(csr_of(A), what);
}
static std::vector<double> pows(int n) { std::vector<double> v(n); for (auto& x : v) x = pow2(); return v; }
static SparseMatrix<double> diag(const std::vector<double>& d)
{
    int n = d.size(); std::vector<int> p(n + 1), ix(n);
    for (int i = 0; i <= n; ++i) p[i] = i;
    for (int i = 0; i < n; ++i) ix[i] = i;
    return SparseMatrix<double>(p, ix, d, n, n);
}
static void scale()
{
    int r = size_pick(), c = size_pick();
    Csr a = csr(r, c);
    auto dr = vals(r), dc = vals(c), pr = pows(r), pc = pows(c); double s = val(), q = pow2();
    begin("scaling", str(a) + " dr=" + str(dr) + " dc=" + str(dc) + " pr=" + str(pr) + " pc=" + str(pc) + " s=" + num(s) + " q=" + num(q));
    { auto A = mk(a); A.ScaleRows(dr); same_pattern(A, a, [&](int i, int, double v) { return v * dr[i]; }, "ScaleRows"); }
    { auto A = mk(a); A.ScaleCols(dc); same_pattern(A, a, [&](int, int j, double v) { return v * dc[j]; }, "ScaleCols"); }
    { auto A = mk(a); A.InverseScaleRows(pr); same_pattern(A, a, [&](int i, int, double v) { return v / pr[i]; }, "InverseScaleRows"); }
    { auto A = mk(a); A.InverseScaleCols(pc); same_pattern(A, a, [&](int, int j, double v) { return v / pc[j]; }, "InverseScaleCols"); }
    { auto A = mk(a); A.ScaleRows(diag(dr)); same_pattern(A, a, [&](int i, int, double v) { return v * dr[i]; }, "ScaleRows(D)"); }
    { auto A = mk(a); A.ScaleCols(diag(dc)); same_pattern(A, a, [&](int, int j, double v) { return v * dc[j]; }, "ScaleCols(D)"); }
    { auto A = mk(a); A.InverseScaleRows(diag(pr)); same_pattern(A, a, [&](int i, int, double v) { return v / pr[i]; }, "InverseScaleRows(D)"); }
    { auto A = mk(a); A.InverseScaleCols(diag(pc)); same_pattern(A, a, [&](int, int j, double v) { return v / pc[j]; }, "InverseScaleCols(D)"); }
    { auto A = mk(a); A *= s; same_pattern(A, a, [&](int, int, double v) { return v * s; }, "*="); }
    { auto A = mk(a); A /= q; same_pattern(A, a, [&](int, int, double v) { return v / q; }, "/="); }
    { auto A = mk(a); A = q; same_pattern(A, a, [&](int, int, double) { return q; }, "= scalar"); }
    { auto A = mk(a); auto B = A * s; auto C = s * A; same_pattern(B, a, [&](int, int, double v) { return v * s; }, "A*s"); same_pattern(C, a, [&](int, int, double v) { return v * s; }, "s*A"); same_pattern(A, a, [&](int, int, double v) { return v; }, "A"); }
    { std::vector<int> p(c); for (int j = 0; j < c; ++j) p[j] = j; for (int j = c - 1; j > 0; --j) std::swap(p[j], p[irand(0, j)]);
      also(" perm=" + str(p)); op("PermuteCols"); auto A = mk(a); A.PermuteCols(p); Csr w = a; for (auto& x : w.ix) x = p[x]; eqcsr(csr_of(A), w, "PermuteCols"); }
    { op("reductions"); const auto A = mk(a); double t = 0, m = 0; for (double v : a.dt) { t += v; m += std::fabs(v); }
      check(A.Sum() == t, "Sum"); check(A.MaxNorm() == m, "MaxNorm = " + num(A.MaxNorm()));
      for (int i = 0; i < r; ++i) check(A.RowSize(i) == a.p[i + 1] - a.p[i], "RowSize"); }
    { op("SortIndices"); auto A = mk(a); A.SortIndices(); Csr g = csr_of(A); valid(g, "SortIndices"); eqi(g.p, a.p, "indptr");
      check(g.rows == r && g.cols == c, "shape");
      for (int i = 0; i < r; ++i) { for (int k = a.p[i]; k + 1 < a.p[i + 1]; ++k) check(g.ix[k] <= g.ix[k + 1], "not sorted");
        std::multiset<std::pair<int, double>> x, y; for (int k = a.p[i]; k < a.p[i + 1]; ++k) { x.insert({a.ix[k], a.dt[k]}); y.insert({g.ix[k], g.dt[k]}); } check(x == y, "row contents changed"); } }
    { op("EliminateZeros"); double t = coin(1, 3) ? 0.0 : std::fabs(val()); also(" tol=" + num(t)); auto A = mk(a); A.EliminateZeros(t); Csr w; w.rows = r; w.cols = c; w.p.push_back(0);
      for (int i = 0; i < r; ++i) { for (int k = a.p[i]; k < a.p[i + 1]; ++k) if (std::fabs(a.dt[k]) > t) { w.ix.push_back(a.ix[k]); w.dt.push_back(a.dt[k]); } w.p.push_back(w.ix.size()); }
      eqcsr(csr_of(A), w, "EliminateZeros"); }
}
static void elim()
{
    int r = size_pick(), c = coin(2, 3) ? r : size_pick();
    Csr a = csr(r, c, coin(1, 4));
    std::vector<int> m(c); int d = irand(0, 3); for (auto& x : m) x = irand(0, 3) < d ? (coin(1, 3) ? irand(-2, 2) : 1) : 0;
    auto x = vals(c), b = vals(r);
    begin("elimination", str(a) + " marker=" + str(m) + " x=" + str(x) + " b=" + str(b));
    { auto A = mk(a); A.EliminateCol(m); same_pattern(A, a, [&](int, int j, double v) { return m[j] ? 0.0 : v; }, "EliminateCol(marker)"); }
    { auto A = mk(a); auto xv = vect(x); auto bv = vect(b); A.EliminateCol(m, xv, bv);
      same_pattern(A, a, [&](int, int j, double v) { return m[j] ? 0.0 : v; }, "EliminateCol(marker, x, b)");
      auto wb = b; for (int i = 0; i < r; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) if (m[a.ix[k]]) wb[i] -= a.dt[k] * x[a.ix[k]];
      eqv(get(bv), wb, "b"); eqv(get(xv), x, "x"); }
    if (r == c)
    {
        auto A = mk(a); A.EliminateRowCol(m); same_pattern(A, a, [&](int i, int j, double v) { return m[i] || m[j] ? (i == j ? 1.0 : 0.0) : v; }, "EliminateRowCol(marker)");
        if (r) { int e = irand(0, r - 1); also(" e=" + str(e)); auto B = mk(a); B.EliminateRowCol(e); same_pattern(B, a, [&](int i, int j, double v) { return i == e || j == e ? (i == j ? 1.0 : 0.0) : v; }, "EliminateRowCol(index)"); }
    }
    if (r) { int e = irand(0, r - 1); also(" row=" + str(e)); auto B = mk(a); B.EliminateRow(e); same_pattern(B, a, [&](int i, int, double v) { return i == e ? 0.0 : v; }, "EliminateRow"); }
    if (c) { int e = irand(0, c - 1); also(" col=" + str(e)); auto B = mk(a); B.EliminateCol(e); same_pattern(B, a, [&](int, int j, double v) { return j == e ? 0.0 : v; }, "EliminateCol"); }
}
static void diagonal()
{
    int n = size_pick(); Csr a = csr(n, n, false);
    auto d = vals(n); double s = nzval();
    begin("diagonal", str(a) + " d=" + str(d) + " s=" + num(s));
    { auto A = mk(a); A.AddDiag(d); same_pattern(A, a, [&](int i, int j, double v) { return i == j ? v + d[i] : v; }, "AddDiag(vector)"); }
    { auto A = mk(a); A.AddDiag(s); same_pattern(A, a, [&](int i, int j, double v) { return i == j ? v + s : v; }, "AddDiag(scalar)"); }
    const auto A = mk(a); std::vector<double> w(n, 0.0);
    for (int i = 0; i < n; ++i) for (int k = a.p[i]; k < a.p[i + 1]; ++k) if (a.ix[k] == i) w[i] = a.dt[k];
    std::vector<double> g = A.GetDiag(); eqv(g, w, "GetDiag"); eqcsr(csr_of(A), a, "A unchanged");
}
int main(int argc, char** argv) { return run(argc, argv, {scale, elim, diagonal}); }
