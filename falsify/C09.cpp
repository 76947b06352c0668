#include "common.hpp"

static Mat sub(const Mat& m, int a, int b, int c, int d)
{
    Mat r = zeros(b - a, d - c);
    for (int i = a; i < b; ++i) for (int j = c; j < d; ++j) r[i - a][j - c] = m[i][j];
    return r;
}
static void range(int n, int& a, int& b) { a = irand(0, n); b = irand(a, n); }
static std::vector<int> idx(int n) { std::vector<int> v; if (n) for (int k = irand(0, 6); k > 0; --k) v.push_back(irand(0, n - 1)); return v; }
static Mat pick(const Mat& m, const std::vector<int>& r, const std::vector<int>& c)
{
    Mat o = zeros(r.size(), c.size());
    for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) o[i][j] = m[r[i]][c[j]];
    return o;
}
static std::vector<int> iota(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
static int dim() { return coin(1, 8) ? 0 : irand(1, 7); }

static void reads()
{
    int r = dim(), c = dim();
    Mat m = matrand(r, c);
    DenseMatrix A = dm(m, r, c);
    begin("element and line access", str(m, r, c));
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j)
    {
        const DenseMatrix& K = A;
        check(same(K(i, j), m[i][j]) && same(A(i, j), m[i][j]), "A(i,j) at " + str(i) + "," + str(j));
    }
    for (int j = 0; j < c; ++j)
    {
        std::vector<double> want; for (int i = 0; i < r; ++i) want.push_back(m[i][j]);
        Vector<double> x(r, 7.0); A.GetCol<double>(j, x); eqv(get(x), want, "GetCol(j,x)");
        const DenseMatrix& K = A; Vector<double> y(r, 7.0); K.GetCol<double>(j, y); eqv(get(y), want, "GetCol(j,x) const");
        eqv(get(K.GetCol<double>(j)), want, "GetCol(j)"); eqv(get(A.GetColView(j)), want, "GetColView"); eqv(get(K.GetColView(j)), want, "GetColView const");
    }
    for (int i = 0; i < r; ++i)
    {
        Vector<double> x(c, 7.0); A.GetRow<double>(i, x); eqv(get(x), m[i], "GetRow(i,x)"); eqv(get(A.GetRow<double>(i)), m[i], "GetRow(i)");
    }
    eqd(A.Transpose(), transpose(m, r, c), c, r, "Transpose");
    DenseMatrix T = junkdense(); A.Transpose(T); eqd(T, transpose(m, r, c), c, r, "Transpose(out)");
    std::vector<double> d = junk(3), w; A.CopyData(d);
    for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) w.push_back(m[i][j]);
    eqv(d, w, "CopyData"); check(w.empty() || same(A.GetData()[0], w[0]), "GetData");
    if (r == c)
    {
        std::vector<double> g; for (int i = 0; i < r; ++i) g.push_back(m[i][i]);
        eqv(A.GetDiag(), g, "GetDiag"); std::vector<double> o(r, 5.0); A.GetDiag(o); eqv(o, g, "GetDiag(out)");
    }
    eqd(A, m, r, c, "reads leave A alone");
}
static void subs()
{
    int r = dim(), c = dim(), a, b, p, q;
    Mat m = matrand(r, c);
    DenseMatrix A = dm(m, r, c);
    range(r, a, b); range(c, p, q);
    begin("sub-block reads", str(m, r, c) + " rows [" + str(a) + "," + str(b) + ") cols [" + str(p) + "," + str(q) + ")");
    eqd(A.GetSubMatrix(a, p, b, q), sub(m, a, b, p, q), b - a, q - p, "GetSubMatrix");
    DenseMatrix O = junkdense(); A.GetSubMatrix(a, p, b, q, O); eqd(O, sub(m, a, b, p, q), b - a, q - p, "GetSubMatrix(out)");
    eqd(A.GetRow(a, b), sub(m, a, b, 0, c), b - a, c, "GetRow(range)");
    O = junkdense(); A.GetRow(a, b, O); eqd(O, sub(m, a, b, 0, c), b - a, c, "GetRow(range, out)");
    eqd(A.GetCol(p, q), sub(m, 0, r, p, q), r, q - p, "GetCol(range)");
    O = junkdense(); A.GetCol(p, q, O); eqd(O, sub(m, 0, r, p, q), r, q - p, "GetCol(range, out)");
    std::vector<int> R = idx(r), Q = idx(c);
    also(" lists " + str(R) + str(Q));
    eqd(A.GetSubMatrix(R, Q), pick(m, R, Q), R.size(), Q.size(), "GetSubMatrix(lists)");
    O = junkdense(); A.GetSubMatrix(R, Q, O); eqd(O, pick(m, R, Q), R.size(), Q.size(), "GetSubMatrix(lists, out)");
    eqd(A.GetRow(R), pick(m, R, iota(c)), R.size(), c, "GetRow(list)");
    DenseMatrix P(R.size(), c); A.GetRow(R, P); eqd(P, pick(m, R, iota(c)), R.size(), c, "GetRow(list, out)");
    eqd(A, m, r, c, "reads leave A alone");
}
static void writes()
{
    int r = dim(), c = dim(), a, b, p, q;
    Mat m = matrand(r, c);
    range(r, a, b); range(c, p, q);
    Mat x = matrand(b - a, q - p), xt = transpose(x, b - a, q - p), w = m;
    begin("sub-block writes", str(m, r, c) + " rows [" + str(a) + "," + str(b) + ") cols [" + str(p) + "," + str(q) + ") block " + str(x, b - a, q - p));
    for (int i = a; i < b; ++i) for (int j = p; j < q; ++j) w[i][j] = x[i - a][j - p];
    DenseMatrix X = dm(x, b - a, q - p), XT = dm(xt, q - p, b - a);
    { DenseMatrix A = dm(m, r, c); A.SetSubMatrix(a, p, X); eqd(A, w, r, c, "SetSubMatrix"); }
    { DenseMatrix A = dm(m, r, c); A.SetSubMatrix(a, p, b, q, X); eqd(A, w, r, c, "SetSubMatrix with ends"); }
    { DenseMatrix A = dm(m, r, c); A.SetSubMatrixTranspose(a, p, XT); eqd(A, w, r, c, "SetSubMatrixTranspose"); }
    { DenseMatrix A = dm(m, r, c); A.SetSubMatrixTranspose(a, p, b, q, XT); eqd(A, w, r, c, "SetSubMatrixTranspose with ends"); }
    eqd(X, x, b - a, q - p, "block is only read");
    {
        DenseMatrix A = dm(m, r, c); Mat y = matrand(b - a, c), v = m;
        for (int i = a; i < b; ++i) v[i] = y[i - a];
        A.SetRow(a, dm(y, b - a, c)); eqd(A, v, r, c, "SetRow(block)");
    }
    {
        DenseMatrix A = dm(m, r, c); Mat y = matrand(r, q - p), v = m;
        for (int i = 0; i < r; ++i) for (int j = p; j < q; ++j) v[i][j] = y[i][j - p];
        A.SetCol(p, dm(y, r, q - p)); eqd(A, v, r, c, "SetCol(block)");
    }
    if (r && c)
    {
        int i = irand(0, r - 1), j = irand(0, c - 1);
        also(" at " + str(i) + "," + str(j));
        { DenseMatrix A = dm(m, r, c); A(i, j) = 99.0; Mat v = m; v[i][j] = 99.0; eqd(A, v, r, c, "A(i,j)="); }
        { DenseMatrix A = dm(m, r, c); auto y = vals(c); Vector<double> Y = vect(y); A.SetRow<double>(i, Y); Mat v = m; v[i] = y; eqd(A, v, r, c, "SetRow"); }
        { DenseMatrix A = dm(m, r, c); auto y = vals(r); Vector<double> Y = vect(y); A.SetCol<double>(j, Y); Mat v = m; for (int k = 0; k < r; ++k) v[k][j] = y[k]; eqd(A, v, r, c, "SetCol"); }
        { DenseMatrix A = dm(m, r, c); auto V = A.GetColView(j); V = 3.0; Mat v = m; for (int k = 0; k < r; ++k) v[k][j] = 3.0; eqd(A, v, r, c, "GetColView write"); }
    }
    std::vector<int> R = idx(r), Q = idx(c);
    Mat y = matrand(R.size(), Q.size()), v = m;
    also(" add lists " + str(R) + str(Q));
    for (size_t j = 0; j < Q.size(); ++j) for (size_t i = 0; i < R.size(); ++i) v[R[i]][Q[j]] += y[i][j];
    { DenseMatrix A = dm(m, r, c); A.AddSubMatrix(R, Q, dm(y, R.size(), Q.size())); eqd(A, v, r, c, "AddSubMatrix"); }
}
static void stack()
{
    int r = dim(), n = irand(1, 4), tot = 0;
    std::vector<DenseMatrix> S; Mat w(r); std::string d;
    for (int k = 0; k < n; ++k)
    {
        int c = irand(0, 4); Mat m = matrand(r, c);
        for (int i = 0; i < r; ++i) w[i].insert(w[i].end(), m[i].begin(), m[i].end());
        S.push_back(dm(m, r, c)); d += str(m, r, c); tot += c;
    }
    begin("HStack", d);
    eqd(HStack(S), w, r, tot, "HStack");
    DenseMatrix O = junkdense(); HStack(S, O); eqd(O, w, r, tot, "HStack(out)");
}
static void sizes()
{
    int r = dim(), c = dim(), n = dim(), k = dim();
    Mat m = matrand(r, c);
    begin("SetSize", str(m, r, c) + " to " + str(n) + "x" + str(k));
    std::vector<double> old; { DenseMatrix A = dm(m, r, c); A.CopyData(old); }
    for (int v = 0; v < 4; ++v)
    {
        DenseMatrix A = dm(m, r, c);
        int kk = v < 2 ? n : k;
        if (v == 0) A.SetSize(n); else if (v == 1) A.SetSize(n, 2.5); else if (v == 2) A.SetSize(n, k); else A.SetSize(n, k, 2.5);
        check(A.Rows() == n && A.Cols() == kk, "shape after SetSize");
        std::vector<double> w = old, g; w.resize(n * kk, v % 2 ? 2.5 : 0.0);
        A.CopyData(g); eqv(g, w, "storage after SetSize");
    }
}

int main(int argc, char** argv) { return run(argc, argv, {reads, subs, writes, stack, sizes}); }
