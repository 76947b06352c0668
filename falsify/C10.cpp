#include "common.hpp"

static int dim() { return coin(1, 8) ? 0 : coin(1, 12) ? irand(8, 20) : irand(1, 7); }
static std::vector<double> mv(const Mat& m, int r, int c, const std::vector<double>& x)
{
    std::vector<double> y(r, 0.0);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) y[i] += m[i][j] * x[j];
    return y;
}
static Vector<double> dirty(int n)
{
    Vector<double> v(n);
    for (int i = 0; i < n; ++i) v[i] = coin(1, 3) ? std::nan("") : 1234.5;
    return v;
}
static void vecs()
{
    int r = dim(), c = dim();
    Mat m = matrand(r, c), t = transpose(m, r, c);
    DenseMatrix A = dm(m, r, c);
    std::vector<double> x = vals(c), z = vals(r);
    begin("matrix-vector product", str(m, r, c) + " x=" + str(x) + " z=" + str(z));
    std::vector<double> ax = mv(m, r, c, x), az = mv(t, c, r, z);
    Vector<double> X = vect(x), Z = vect(z);
    { Vector<double> y = dirty(r); A.Mult<double, double>(X, y); eqv(get(y), ax, "Mult<>(x,y)"); }
    { Vector<double> y = dirty(c); A.MultAT<double, double>(Z, y); eqv(get(y), az, "MultAT<>(x,y)"); }
    { Vector<double> y = dirty(r); static_cast<Operator&>(A).Mult(X, y); eqv(get(y), ax, "Mult(x,y)"); }
    { Vector<double> y = dirty(c); static_cast<Operator&>(A).MultAT(Z, y); eqv(get(y), az, "MultAT(x,y)"); }
    eqv(get(A.Mult<double>(X)), ax, "Mult(x)"); eqv(get(A.MultAT<double>(Z)), az, "MultAT(x)");
    eqv(get(static_cast<Operator&>(A).Mult(X)), ax, "Operator::Mult(x)");
    eqv(get(static_cast<Operator&>(A).MultAT(Z)), az, "Operator::MultAT(x)");
    eqd(A, m, r, c, "A unchanged"); eqv(get(X), x, "x unchanged"); eqv(get(Z), z, "z unchanged");
}
static DenseMatrix out(int r, int c)
{
    if (coin(1, 2)) return junkdense();
    DenseMatrix o(r, c); o = coin(1, 2) ? std::nan("") : 77.0; return o;
}
static void prods()
{
    int m = dim(), k = dim(), n = dim();
    Mat a = matrand(m, k), b = matrand(k, n), w = mul(a, b, m, k, n);
    Mat at = transpose(a, m, k), bt = transpose(b, k, n);
    begin("matrix product", str(a, m, k) + " * " + str(b, k, n));
    DenseMatrix A = dm(a, m, k), B = dm(b, k, n), AT = dm(at, k, m), BT = dm(bt, n, k);
    eqd(A.Mult(B), w, m, n, "Mult"); eqd(AT.MultAT(B), w, m, n, "MultAT"); eqd(A.MultBT(BT), w, m, n, "MultBT"); eqd(AT.MultABT(BT), w, m, n, "MultABT");
    { DenseMatrix O = out(m, n); A.Mult(B, O); eqd(O, w, m, n, "Mult(out)"); }
    { DenseMatrix O = out(m, n); AT.MultAT(B, O); eqd(O, w, m, n, "MultAT(out)"); }
    { DenseMatrix O = out(m, n); A.MultBT(BT, O); eqd(O, w, m, n, "MultBT(out)"); }
    { DenseMatrix O = out(m, n); AT.MultABT(BT, O); eqd(O, w, m, n, "MultABT(out)"); }
    eqd(A, a, m, k, "left operand unchanged"); eqd(B, b, k, n, "right operand unchanged");
}
template <typename F> static Mat map2(const Mat& a, const Mat& b, F f)
{
    Mat o = a;
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) o[i][j] = f(a[i][j], b[i][j]);
    return o;
}
static void elem()
{
    int r = dim(), c = dim();
    Mat a = matrand(r, c), b = matrand(r, c);
    double s = val(), p = pow2();
    begin("elementwise arithmetic", str(a, r, c) + " " + str(b, r, c) + " s=" + num(s) + " p=" + num(p));
    auto A = [&]{ return dm(a, r, c); };
    DenseMatrix B = dm(b, r, c);
    auto pl = [](double x, double y) { return x + y; }; auto mi = [](double x, double y) { return x - y; };
    auto ti = [&](double x, double) { return x * s; }; auto di = [&](double x, double) { return x / p; };
    { DenseMatrix X = A(); X += B; eqd(X, map2(a, b, pl), r, c, "+="); X = A(); X += X; eqd(X, map2(a, a, pl), r, c, "+= itself"); }
    { DenseMatrix X = A(); X -= B; eqd(X, map2(a, b, mi), r, c, "-="); X = A(); X -= X; eqd(X, map2(a, a, mi), r, c, "-= itself"); }
    { DenseMatrix X = A(); X *= s; eqd(X, map2(a, b, ti), r, c, "*= s"); X = A(); X /= p; eqd(X, map2(a, b, di), r, c, "/= s"); }
    { DenseMatrix X = A(); X = s; eqd(X, map2(a, b, [&](double, double) { return s; }), r, c, "= s"); }
    DenseMatrix X = A();
    eqd(X + B, map2(a, b, pl), r, c, "+"); eqd(X - B, map2(a, b, mi), r, c, "-"); eqd(X * s, map2(a, b, ti), r, c, "* s");
    eqd(s * X, map2(a, b, ti), r, c, "s *"); eqd(X / p, map2(a, b, di), r, c, "/ s");
    eqd(X, a, r, c, "operand unchanged"); eqd(B, b, r, c, "operand unchanged");
}
static void scale()
{
    int r = dim(), c = dim();
    Mat a = matrand(r, c);
    std::vector<double> dr(r), dc(c);
    for (auto& x : dr) x = pow2();
    for (auto& x : dc) x = pow2();
    begin("row and column scaling", str(a, r, c) + " rows by " + str(dr) + " cols by " + str(dc));
    Mat R = a, RI = a, C = a, CI = a;
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { R[i][j] *= dr[i]; RI[i][j] /= dr[i]; C[i][j] *= dc[j]; CI[i][j] /= dc[j]; }
    for (int v = 0; v < 2; ++v)
    {
        Vector<double> vr = vect(dr), vc = vect(dc);
        DenseMatrix X = dm(a, r, c);
        if (v) X.ScaleRows(dr); else X.ScaleRows(vr); eqd(X, R, r, c, "ScaleRows");
        X = dm(a, r, c); if (v) X.InverseScaleRows(dr); else X.InverseScaleRows(vr); eqd(X, RI, r, c, "InverseScaleRows");
        X = dm(a, r, c); if (v) X.ScaleCols(dc); else X.ScaleCols(vc); eqd(X, C, r, c, "ScaleCols");
        X = dm(a, r, c); if (v) X.InverseScaleCols(dc); else X.InverseScaleCols(vc); eqd(X, CI, r, c, "InverseScaleCols");
    }
}
static void reduce()
{
    int r = irand(1, 7), c = irand(1, 7);
    Mat a = matrand(r, c);
    if (coin(1, 3)) for (auto& x : a) for (auto& y : x) y = irand(-9, -1);
    begin("Sum, Max, Min", str(a, r, c));
    double s = 0, mx = a[0][0], mn = a[0][0];
    for (auto& x : a) for (double y : x) { s += y; mx = std::max(mx, y); mn = std::min(mn, y); }
    DenseMatrix A = dm(a, r, c);
    check(A.Sum() == s, "Sum"); check(A.Max() == mx, "Max"); check(A.Min() == mn, "Min");
}
static void equal()
{
    int r = dim(), c = dim();
    Mat a = matrand(r, c), b = a;
    bool want = true;
    if (r && c && coin(1, 2)) { double d = coin(1, 2) ? 1e-3 : coin(1, 2) ? 1e-14 : -0.5; b[irand(0, r - 1)][irand(0, c - 1)] += d; }
    begin("operator==", str(a, r, c) + " " + str(b, r, c));
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (std::fabs(a[i][j] - b[i][j]) > 1e-12) want = false;
    check((dm(a, r, c) == dm(b, r, c)) == want, "operator==");
    int r2 = dim(), c2 = dim();
    if (r2 != r || c2 != c) check(!(dm(a, r, c) == dm(zeros(r2, c2), r2, c2)), "operator== of different shapes");
}

int main(int argc, char** argv) { return run(argc, argv, {vecs, prods, elem, scale, reduce, equal}); }
